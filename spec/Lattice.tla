------------------------------- MODULE Lattice -------------------------------
(* The lattice of one analysed sentence and the search over it.             *)
(*                                                                          *)
(* c.cp     characters of the sentence                                      *)
(* c.B[b+1] boundary b; 0 and 1 stand for the beginning of the sentence,    *)
(*          boundary p+2 lies before character p (from 0), N+2 is its end:  *)
(*   se  span <<from, to>> of every node that starts here                   *)
(*   e   nodes <<boundary, index>> that end here                            *)
(*   b   beam of every node: <<left, k, score, self, prev>>: reached from    *)
(*       the k-th way to reach the left-th node ending here                 *)
(*   ng  ng[left+1][k+1][node+1]: numbers of the weights of the n-grams     *)
(*   g   global beam: <<left, k>>                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE ConcatFrom(_, _)
ConcatFrom(s, i) == IF i > Len(s) THEN "" ELSE s[i] \o ConcatFrom(s, i + 1)

Num(c) == Len(c.cp)
Bd(c, b) == c.B[b + 1]
Span(c, b, i) == Bd(c, b).se[i + 1]
Beam(c, b, i) == Bd(c, b).b[i + 1]
NNodes(c, b) == Len(Bd(c, b).se)
End(c, b, l) == Bd(c, b).e[l + 1]

(* ---------------------------------------------------------- the lattice *)
NodesOk(c) == \A p \in 0..(Num(c) - 1) : \A i \in 1..NNodes(c, p + 2) :
                 LET s == Span(c, p + 2, i - 1) IN s[1] = p /\ s[2] > p /\ s[2] <= Num(c)

EndsOk(c) ==
    /\ Bd(c, 2).e = << <<1, 0>> >>
    /\ \A p \in 1..Num(c) :
         LET e == Bd(c, p + 2).e
             want == UNION {{<<b, i - 1>> : i \in {j \in 1..NNodes(c, b) : Span(c, b, j - 1)[2] = p}} : b \in 2..(p + 1)}
         IN {e[i] : i \in DOMAIN e} = want /\ Len(e) = Cardinality(want)

(* a beam element continues exactly the element it names *)
PtrOk(c, b, i, el) ==
    /\ el[4] = 1
    /\ el[1] + 1 \in DOMAIN Bd(c, b).e
    /\ LET n == End(c, b, el[1]) IN
       IF n[1] = 1 THEN el[2] = 0 /\ el[5] = <<1, 0, 0, 0>>
       ELSE /\ el[2] + 1 \in DOMAIN Beam(c, n[1], n[2])
            /\ LET q == Beam(c, n[1], n[2])[el[2] + 1] IN el[5] = <<n[1], n[2], q[1], q[2]>>

PtrsOk(c) == \A b \in 2..(Num(c) + 2) : \A i \in 0..(NNodes(c, b) - 1) :
                \A k \in DOMAIN Beam(c, b, i) : PtrOk(c, b, i, Beam(c, b, i)[k])

(* the path through an element, as nodes from the start of the sentence     *)
RECURSIVE Chain(_, _, _, _)
Chain(c, b, i, k) == LET el == Beam(c, b, i)[k + 1] n == End(c, b, el[1])
                     IN IF n[1] = 1 THEN << >>
                        ELSE Append(Chain(c, n[1], n[2], el[2]), n)

Tiles(c, path) ==
    /\ Len(path) > 0
    /\ Span(c, path[1][1], path[1][2])[1] = 0
    /\ \A j \in 2..Len(path) : Span(c, path[j][1], path[j][2])[1] = Span(c, path[j-1][1], path[j-1][2])[2]
    /\ Span(c, path[Len(path)][1], path[Len(path)][2])[2] = Num(c)

Best(c) == Chain(c, Num(c) + 2, 0, 0)
Reported(c) == [j \in DOMAIN c.p |-> <<c.p[j][1], c.p[j][2]>>]
PathOk(c) ==
    /\ Reported(c) = Best(c)
    /\ \A j \in DOMAIN c.p : <<c.p[j][3], c.p[j][4]>> = Span(c, c.p[j][1], c.p[j][2])

Tiling(c) ==
    IF Num(c) = 0 THEN c.p = << >> /\ c.in = ""
    ELSE /\ Len(c.B) = Num(c) + 3
         /\ ConcatFrom(c.cp, 1) = c.in
         /\ Bd(c, Num(c) + 2).se = << <<Num(c), Num(c)>> >>
         /\ NodesOk(c) /\ EndsOk(c) /\ PtrsOk(c)
         /\ Len(Beam(c, Num(c) + 2, 0)) > 0
         /\ \A k \in DOMAIN Beam(c, Num(c) + 2, 0) : Tiles(c, Chain(c, Num(c) + 2, 0, k - 1))
         /\ PathOk(c)

(* ------------------------------------------------------------ the search *)
Weight(seed, i) == (((i * 7919) + seed) % 17) - 8
RECURSIVE SumW(_, _, _)
SumW(seed, ix, j) == IF j = 0 THEN 0 ELSE Weight(seed, ix[j]) + SumW(seed, ix, j - 1)

NBeam(c, b, l) == LET n == End(c, b, l) IN IF n[1] = 1 THEN 1 ELSE Len(Beam(c, n[1], n[2]))
PrevScore(c, b, x) == LET n == End(c, b, x[1]) IN IF n[1] = 1 THEN 0 ELSE Beam(c, n[1], n[2])[x[2] + 1][3]
Local(c, b, x, i) == LET ix == Bd(c, b).ng[x[1] + 1][x[2] + 1][i + 1] IN SumW(c.w, ix, Len(ix))

(* all ways to arrive at boundary b                                         *)
Arrivals(c, b) == UNION {{<<l, k>> : k \in 0..(NBeam(c, b, l) - 1)} : l \in 0..(Len(Bd(c, b).e) - 1)}

(* els are the (at most K) best continuations of the arrivals in C at node i *)
IsBest(els, K, C, S) ==
    LET ch == {<<els[j][1], els[j][2]>> : j \in DOMAIN els} IN
    /\ Len(els) = Min2(K, Cardinality(C))
    /\ Cardinality(ch) = Len(els)
    /\ ch \subseteq C
    /\ \A j \in DOMAIN els : els[j][3] = S[<<els[j][1], els[j][2]>>]
    /\ \A j \in 2..Len(els) : els[j-1][3] >= els[j][3]
    /\ Len(els) > 0 => \A x \in C \ ch : S[x] <= els[Len(els)][3]

Scores(c, b, i, C) == [x \in C |-> PrevScore(c, b, x) + Local(c, b, x, i)]

FullBeams(c) == \A b \in 2..(Num(c) + 2) :
    LET C == Arrivals(c, b) IN
    \A i \in 0..(NNodes(c, b) - 1) : IsBest(Beam(c, b, i), c.k, C, Scores(c, b, i, C))

(* The global beam: only the G best arrivals are continued.  With a right   *)
(* check only the rbeam nodes that are best on the first h arrivals get all  *)
(* of them, the others only these h.                                        *)
GOk(c, b) ==
    LET C == Arrivals(c, b)
        g == Bd(c, b).g
        els == [j \in DOMAIN g |-> <<g[j][1], g[j][2], IF <<g[j][1], g[j][2]>> \in C THEN PrevScore(c, b, g[j]) ELSE 0>>]
    IN IsBest(els, c.G, C, [x \in C |-> PrevScore(c, b, x)])

Opt(c, f) == IF f \in DOMAIN c.c THEN c.c[f] ELSE 0
Cutoff(c, b, h) == [i \in 0..(NNodes(c, b) - 1) |->
    LET S[j \in 0..h] == IF j = 0 THEN 0 ELSE S[j-1] + Local(c, b, Bd(c, b).g[j], i) IN S[h]]

GBeams(c) == \A b \in 2..(Num(c) + 2) :
    NNodes(c, b) > 0 =>
    LET g == Bd(c, b).g
        n == NNodes(c, b)
        All == {g[j] : j \in DOMAIN g}
        h == Min2(Min2(Opt(c, "rcheck"), n), Len(g))
        First == {g[j] : j \in 1..h}
        keep == Min2(Opt(c, "rbeam"), n)
        cut == Cutoff(c, b, h)
        Full(i) == IsBest(Beam(c, b, i), c.k, All, Scores(c, b, i, All))
        Part(i) == IsBest(Beam(c, b, i), c.k, First, Scores(c, b, i, First))
        I == 0..(n - 1)
        \* surely kept: fewer than keep nodes are at least as good
        Above == {i \in I : Cardinality({j \in I \ {i} : cut[j] >= cut[i]}) < keep}
        Below == {i \in I : Cardinality({j \in I : cut[j] > cut[i]}) >= keep}
        Tie == I \ (Above \cup Below)
    IN /\ GOk(c, b)
       /\ IF Opt(c, "rcheck") = 0 \/ n <= keep THEN \A i \in I : Full(i)
          ELSE /\ \A i \in Above : Full(i)
               /\ \A i \in Below : Part(i)
               /\ \A i \in Tie : Full(i) \/ Part(i)
               /\ Cardinality({i \in Tie : ~Part(i)}) <= keep - Cardinality(Above)
               /\ Cardinality({i \in Tie : ~Full(i)}) <= Cardinality(Tie) - (keep - Cardinality(Above))

AutoSize(c) == IF Opt(c, "astep") = 0 THEN 0
               ELSE Max2(1, Min2(Opt(c, "abase") + (Num(c) \div Opt(c, "astep")), Opt(c, "amax")))
SizesOk(c) == IF Opt(c, "astep") = 0
              THEN c.k = Opt(c, "beam") /\ (Opt(c, "gbeam") > 0 => c.G = Opt(c, "gbeam"))
              ELSE c.k = AutoSize(c) /\ (Opt(c, "gbeam") > 0 => c.G = AutoSize(c))
=============================================================================
