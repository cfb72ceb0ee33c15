------------------------------ MODULE MC_Rnn ------------------------------
(* Paths with the same words of the network may share what was computed for *)
(* them: scoring word by word on merged nodes is scoring every path on its  *)
(* own, for all networks of one unit over two words with the previous word  *)
(* in the direct connections.                                               *)
EXTENDS Rnn, TLC
CONSTANT MaxLen
VARIABLES net, nodes

Ids == {0, 1}
(* a node: the words up to it and what the implementation keeps of them *)
Init == /\ \E e0, e1, m, n0, n1 \in {-1, 1}, t \in [1..9 -> {0, 1}] :
             /\ t[1] = 0 /\ t[2] = 0 /\ t[3] = 0 /\ t[4] = 0 /\ t[7] = 0
             /\ net = [E |-> 1, V |-> 2, ord |-> 2, emb |-> <<<<e0>>, <<e1>>>>, nce |-> <<<<n0>>, <<n1>>>>,
                       mat |-> <<<<2 * m>>>>, tab |-> t, nc |-> 0, off |-> FALSE, unk |-> -1, ukc |-> 5, ukl |-> 1]
        /\ nodes = {[w |-> <<>>, ctx |-> Start(net), h |-> <<0>>, sum |-> 0]}
Next == \E n \in nodes, id \in Ids :
          /\ Len(n.w) < MaxLen
          /\ \A k \in nodes : k.w # Append(n.w, id)
          /\ nodes' = nodes \cup {[w |-> Append(n.w, id), ctx |-> After(net, n.ctx, id), h |-> Shift(n.h, id),
                                   sum |-> n.sum + Score(net, n.ctx, n.h, id, 1)]}
          /\ Cardinality(nodes) < MaxLen + 2
          /\ UNCHANGED net
Spec == Init /\ [][Next]_<<net, nodes>>

RECURSIVE CtxOf(_, _)
CtxOf(w, k) == IF k = 0 THEN Start(net) ELSE After(net, CtxOf(w, k - 1), w[k])
RECURSIVE SumOf(_, _)
SumOf(w, k) == IF k = 0 THEN 0
               ELSE Score(net, CtxOf(w, k - 1), <<IF k = 1 THEN 0 ELSE w[k - 1]>>, w[k], 1) + SumOf(w, k - 1)
Merge == \A n \in nodes : n.ctx = CtxOf(n.w, Len(n.w)) /\ n.sum = SumOf(n.w, Len(n.w))
Together == \A n, k \in nodes : n.w = k.w => n = k
=============================================================================
