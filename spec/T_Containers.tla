---------------------------- MODULE T_Containers ----------------------------
EXTENDS TraceCommon, Containers

RECURSIVE Replay(_, _, _, _)
Replay(kind, ev, i, st) ==
    IF i > Len(ev) THEN TRUE
    ELSE LET e == ev[i]
             ok == CASE kind = "map" -> MapOk(st, e) [] kind = "vec" -> VecOk(st, e)
         IN IF ~ok THEN ~PrintT(<<"EVENT", idx, i, e>>)
            ELSE Replay(kind, ev, i + 1, IF kind = "map" THEN MapNext(st, e) ELSE VecNext(st, e))
RECURSIVE ReplayLru(_, _, _, _)
ReplayLru(cap, ev, i, st) ==
    IF i > Len(ev) THEN TRUE
    ELSE IF ~LruOk(cap, st, ev[i]) THEN ~PrintT(<<"EVENT", idx, i, ev[i]>>)
    ELSE ReplayLru(cap, ev, i + 1, LruNext(st, ev[i]))

TOk(c) == CASE c.kind = "map" -> c.left = 0 /\ Replay("map", c.ev, 1, <<NoMap, NoMap>>)
            [] c.kind = "vec" -> c.left = 0 /\ Replay("vec", c.ev, 1, <<<<>>, <<>>>>)
            [] c.kind = "lru" -> ReplayLru(c.cap, c.ev, 1, [uses |-> <<>>, val |-> NoMap])
            [] c.kind = "pool" -> c.intact /\ BlocksOk(c.blocks)
            [] c.kind = "chars" -> c.intact /\ BlocksOk(c.blocks) /\ \A i \in DOMAIN c.refused : c.refused[i] > c.page
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
