---------------------------- MODULE MC_Training ----------------------------
(* All pairs of paths over a short text with labelled morphemes: the        *)
(* comparison looks at every morpheme of both paths exactly once, costs     *)
(* nothing exactly for equal paths, and the difference of the features (a   *)
(* morpheme's own feature and the pair with its predecessor) has opposite   *)
(* signs for the two paths when nothing fires in both.                      *)
EXTENDS Training
CONSTANTS Len0, Labels
VARIABLE c

RECURSIVE Paths(_)
(* sequences of <<start, end, label>> from position p to the end *)
Paths(p) == IF p = Len0 THEN {<<>>}
            ELSE UNION {{<< <<p, e, l>> >> \o r : r \in Paths(e), l \in Labels} : e \in (p + 1)..Len0}
NodeId(n) == (n[1] * 10 + n[2]) * 10 + n[3]
RECURSIVE Feats(_, _, _, _)
Feats(p, i, prev, acc) == IF i > Len(p) THEN Append(acc, <<prev>>)
    ELSE Feats(p, i + 1, NodeId(p[i]), Append(acc, <<NodeId(p[i]), 1000 + prev * 3 + NodeId(p[i])>>))
Pos(n) == n[2] * 10 + n[3]
Case(g, t) ==
    LET all == {<<p, e, l>> \in (0..Len0) \X (0..Len0) \X Labels : p < e}
        RECURSIVE List(_)
        List(S) == IF S = {} THEN <<>> ELSE LET n == CHOOSE m \in S : TRUE IN
            << <<n[1] + 2, Pos(n), n[1], n[2], 0, <<n[3]>>, <<n[2], n[3]>>, <<0, 0>>, <<>>>> >> \o List(S \ {n})
    IN [n |-> List(all), x |-> [tf |-> <<1, 1>>, w8 |-> <<8, 4>>, w |-> <<>>],
        gold |-> [i \in DOMAIN g |-> <<g[i][1] + 2, Pos(g[i])>>],
        top |-> [i \in 1..(Len(t) + 1) |-> IF i > Len(t) THEN <<Len0 + 2, 0, 0>> ELSE <<t[i][1] + 2, Pos(t[i]), 0>>],
        gf |-> Feats(g, 1, 0, <<>>), tf |-> Feats(t, 1, 0, <<>>), eos |-> Len0 + 2, seed |-> 0, same |-> g = t]
Init == \E g \in Paths(0), t \in Paths(0) : c = Case(g, t)
Next == FALSE /\ c' = c
Spec == Init /\ [][Next]_c
St == LET tot == [i \in 1..(Len(c.gold) + 1) |-> 0] IN Steps(c, tot, 1, 1, <<>>)
Covers == LET st == St IN
    /\ \A i \in 1..(Len(c.gold) + 1) : Cardinality({k \in DOMAIN st : st[k].g = i}) = 1
    /\ \A j \in 1..Len(c.top) : Cardinality({k \in DOMAIN st : st[k].t = j}) = 1
    /\ \A k \in DOMAIN st : st[k].g # 0 \/ st[k].t # 0
Zero == SumCost(St, 1, 0) = 0 <=> c.same
Right == LET st == St
             g == Fired(c, st, Len(st), TRUE, 1, <<>>)
             t == Fired(c, st, Len(st), FALSE, 1, <<>>)
         IN /\ c.same => g = <<>> /\ t = <<>>
            /\ ~c.same => g # <<>> \/ t # <<>>
=============================================================================
