------------------------------- MODULE MC_Lru -------------------------------
(* The two-generation cache of util/lru_cache.h against LruOk.              *)
EXTENDS Containers
CONSTANTS Keys, Cap
VARIABLES g1, g2, st, last
vars == <<g1, g2, st, last>>
Init == g1 = {} /\ g2 = {} /\ st = [uses |-> <<>>, val |-> NoMap] /\ last = <<"none", 0, 0, 0, 0>>
Store(k) == IF Cardinality(g1 \cup {k}) >= Cap THEN g1' = {} /\ g2' = g1 \cup {k} ELSE g1' = g1 \cup {k} /\ g2' = g2
Bad(e) == ~LruOk(Cap, st, e)
Find(k) == LET hit == k \in g1 \cup g2
               e == <<"find", 0, k, 0, IF hit THEN k ELSE -1>>
           IN /\ IF hit /\ k \notin g1 THEN Store(k) ELSE UNCHANGED <<g1, g2>>
              /\ last' = IF Bad(e) THEN <<"bad", 0, k, 0, 0>> ELSE e
              /\ st' = LruNext(st, e)
Insert(k) == /\ last[1] = "find" /\ last[5] = -1 /\ last[3] = k
             /\ Store(k) /\ last' = <<"ins", 0, k, k, 0>> /\ st' = LruNext(st, last')
Next == \E k \in Keys : Find(k) \/ Insert(k)
Spec == Init /\ [][Next]_vars
Recent == last[1] # "bad"
Bounded == Cardinality(g1 \cup g2) <= 2 * Cap
=============================================================================
