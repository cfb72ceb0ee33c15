------------------------------- MODULE MC_Flat -------------------------------
(* Open addressing as in util/flatrep.h, one table of Width * 2^lg slots    *)
(* with tombstones, triangular probing, growth when floor(0.8 * slots) are   *)
(* not empty and shrinking on the insertion after a removal, against the     *)
(* map it stands for.  Slots hold "-" (empty), "x" (removed) or a key.       *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Keys, HashOf, Width, MaxLg
VARIABLES lg, slots, notEmpty, deleted, grow, shrink, map
vars == <<lg, slots, notEmpty, deleted, grow, shrink, map>>
E == 0
X == -1
Cap(l) == Width * 2^l
Grow(l) == (8 * Cap(l)) \div 10
Shrink(l) == IF l = 0 THEN 0 ELSE (4 * Grow(l)) \div 10
RECURSIVE LgFor(_, _)
LgFor(n, l) == IF 10 * n >= 8 * Cap(l) THEN LgFor(n, l + 1) ELSE l

(* probe sequence of a key: the slots in order, as long as they are new      *)
RECURSIVE Probe(_, _, _, _)
Probe(c, i, n, acc) == IF Len(acc) = c THEN acc ELSE Probe(c, (i + n) % c, n + 1, Append(acc, i))
Slots(k, c) == Probe(c, HashOf[k] % c, 1, <<>>)

RECURSIVE FindAt(_, _, _, _)
FindAt(sl, k, s, j) == IF j > Len(s) THEN -2      \* would probe forever
    ELSE IF sl[s[j]] = k THEN s[j] ELSE IF sl[s[j]] = E THEN -1 ELSE FindAt(sl, k, s, j + 1)
Find(sl, k, c) == FindAt(sl, k, Slots(k, c), 1)
(* slot where a key that is not there goes                                   *)
RECURSIVE PlaceAt(_, _, _, _)
PlaceAt(sl, s, j, del) == IF sl[s[j]] = E THEN IF del # -1 THEN del ELSE s[j]
    ELSE PlaceAt(sl, s, j + 1, IF del = -1 /\ sl[s[j]] = X THEN s[j] ELSE del)
Place(sl, k, c) == PlaceAt(sl, Slots(k, c), 1, -1)

Empty(l) == [i \in 0..(Cap(l) - 1) |-> E]
RECURSIVE Fill(_, _, _)
Fill(sl, ks, c) == IF ks = {} THEN sl ELSE LET k == CHOOSE x \in ks : TRUE
                   IN Fill([sl EXCEPT ![Place(sl, k, c)] = k], ks \ {k}, c)
Live(sl) == {sl[i] : i \in DOMAIN sl} \ {E, X}
Size == notEmpty - deleted

Init == /\ lg = 0 /\ slots = Empty(0) /\ notEmpty = 0 /\ deleted = 0 /\ grow = Grow(0) /\ shrink = 0 /\ map = {}

(* MaybeResize, then insertion of an absent key                              *)
Resized(n) == LET l == LgFor(n, 0) IN
    [lg |-> l, slots |-> Fill(Empty(l), Live(slots), Cap(l)), notEmpty |-> Size, deleted |-> 0, grow |-> Grow(l), shrink |-> Shrink(l)]
Same(g) == [lg |-> lg, slots |-> slots, notEmpty |-> notEmpty, deleted |-> deleted, grow |-> g, shrink |-> shrink]
Maybe == IF notEmpty < grow THEN Same(grow)
         ELSE IF grow = 0 /\ Size >= shrink /\ notEmpty < Grow(lg) THEN Same(Grow(lg))
         ELSE Resized(Size + 1)
Put(k) == LET t == Maybe
              f == Find(t.slots, k, Cap(t.lg))
              p == IF f >= 0 THEN f ELSE Place(t.slots, k, Cap(t.lg))
              reuse == f < 0 /\ t.slots[p] = X
          IN /\ lg' = t.lg /\ grow' = t.grow /\ shrink' = t.shrink
             /\ slots' = [t.slots EXCEPT ![p] = k]
             /\ notEmpty' = IF f < 0 /\ ~reuse THEN t.notEmpty + 1 ELSE t.notEmpty
             /\ deleted' = IF reuse THEN t.deleted - 1 ELSE t.deleted
             /\ map' = map \cup {k}
Erase(k) == LET f == Find(slots, k, Cap(lg)) IN
            /\ f >= 0
            /\ slots' = [slots EXCEPT ![f] = X] /\ deleted' = deleted + 1 /\ grow' = 0
            /\ map' = map \ {k} /\ UNCHANGED <<lg, notEmpty, shrink>>
ClearKeepSize == /\ slots' = Empty(lg) /\ notEmpty' = 0 /\ deleted' = 0 /\ map' = {} /\ UNCHANGED <<lg, grow, shrink>>
Next == (\E k \in Keys : Put(k) \/ Erase(k)) \/ ClearKeepSize
Spec == Init /\ [][Next]_vars

Holds == Live(slots) = map /\ \A k \in Keys : LET f == Find(slots, k, Cap(lg)) IN f # -2 /\ ((f >= 0) <=> (k \in map))
Counts == /\ notEmpty = Cardinality({i \in DOMAIN slots : slots[i] # E})
          /\ deleted = Cardinality({i \in DOMAIN slots : slots[i] = X})
          /\ Size = Cardinality(map)
Free == \E i \in DOMAIN slots : slots[i] = E
Small == lg <= MaxLg
HashA == <<0, 0, 1, 3, 5, 0>>
HashB == <<0, 1, 2, 3, 4, 5>>
HashC == <<7, 7, 7, 7, 7, 7>>
=============================================================================
