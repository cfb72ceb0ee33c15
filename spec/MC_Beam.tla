------------------------------- MODULE MC_Beam --------------------------------
(* The search that Lattice.tla specifies (FullBeams, GBeams), as a machine    *)
(* that goes from boundary to boundary, over all weights of the trigrams of a *)
(* small lattice.  What the beams promise to users is checked on it:          *)
(*  - the score of every element is the sum over its own path, and paths      *)
(*    fit together;                                                           *)
(*  - beams that hold all paths find the best path of the lattice;            *)
(*  - narrow ones find a path, which is not better than that;                 *)
(*  - if weights depend on two neighbours only, even a beam of one finds it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* characters
          Shape,    \* which lattice
          Scores, Beams, Gbeams,
          Bigram    \* weights depend on the last two nodes only
VARIABLES w, opt, at, beams
vars == <<w, opt, at, beams>>

\* <<start, end, name>>
Nodes == CASE Shape = 1 -> {<<0, 1, 1>>, <<0, 1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>, <<0, 2, 1>>}
           [] Shape = 2 -> {<<0, 1, 1>>, <<1, 2, 1>>, <<2, 3, 1>>, <<0, 2, 1>>, <<1, 3, 1>>, <<0, 3, 1>>}
           [] Shape = 3 -> {<<0, 1, 1>>, <<0, 1, 2>>, <<1, 2, 1>>, <<1, 2, 2>>, <<2, 3, 1>>, <<2, 3, 2>>}
B0 == <<-1, -1, 0>>
B1 == <<-1, 0, 0>>
E == <<N, N + 1, 0>>
All == Nodes \cup {B0, B1, E}
Follows(x, y) == x[2] = y[1] /\ x # y
Triples == {t \in All \X All \X (Nodes \cup {E}) :
              /\ t[2] \notin {B0, E} /\ t[1] # E /\ Follows(t[2], t[3])
              /\ IF t[1] = B0 THEN t[2] = B1 ELSE Follows(t[1], t[2])}
Keys == IF Bigram THEN {<<t[2], t[3]>> : t \in Triples} ELSE Triples
W(x, y, z) == w[IF Bigram THEN <<y, z>> ELSE <<x, y, z>>]

RECURSIVE Sum(_, _)
Sum(p, i) == IF i > Len(p) THEN 0 ELSE W(p[i - 2], p[i - 1], p[i]) + Sum(p, i + 1)
Total(p) == Sum(p, 3)
RECURSIVE PathsTo(_)
PathsTo(x) == IF x = B1 THEN {<<B0, B1>>}
              ELSE UNION {{Append(p, x) : p \in PathsTo(y)} : y \in {z \in All \ {B0} : Follows(z, x)}}
SetMax(S) == CHOOSE m \in S : \A y \in S : y <= m

\* an element: the path it stands for and its score; the k best ones, in order
RECURSIVE Best(_, _)
Best(es, k) == IF k = 0 \/ es = {} THEN <<>>
               ELSE LET m == SetMax({e.s : e \in es})
                        e == CHOOSE e \in es : e.s = m
                    IN <<e>> \o Best(es \ {e}, k - 1)
Elems(q) == {q[i] : i \in DOMAIN q}

Init == /\ w \in [Keys -> Scores]
        /\ opt \in [k : Beams, g : Gbeams]
        /\ at = 0
        /\ beams = (B1 :> <<[p |-> <<B0, B1>>, s |-> 0]>>)
Ext(e, x) == [p |-> Append(e.p, x), s |-> e.s + W(e.p[Len(e.p) - 1], e.p[Len(e.p)], x)]
Step == /\ at <= N
        /\ LET left == UNION {Elems(beams[y]) : y \in {z \in DOMAIN beams : z[2] = at}}
               arr == IF opt.g = 0 THEN left ELSE Elems(Best(left, opt.g))
               ns == {x \in Nodes \cup {E} : x[1] = at}
           IN beams' = [x \in DOMAIN beams \cup ns |->
                          IF x \in ns THEN Best({Ext(e, x) : e \in arr}, opt.k) ELSE beams[x]]
        /\ at' = at + 1
        /\ UNCHANGED <<w, opt>>
Spec == Init /\ [][Step]_vars

Sums == \A x \in DOMAIN beams : x # B1 => \A i \in DOMAIN beams[x] :
            LET e == beams[x][i] IN
            /\ e.p \in PathsTo(x)
            /\ e.s = Total(e.p)
            /\ i > 1 => beams[x][i - 1].s >= e.s
            /\ \A j \in DOMAIN beams[x] : j # i => beams[x][j].p # e.p
Optimum == SetMax({Total(p) : p \in PathsTo(E)})
Wide == /\ \A x \in Nodes \cup {E} : Cardinality(PathsTo(x)) <= opt.k
        /\ opt.g = 0 \/ \A b \in 0..N : Cardinality(UNION {PathsTo(x) : x \in {y \in Nodes : y[2] = b}}) <= opt.g
Found == at > N => /\ beams[E] # <<>>
                   /\ beams[E][1].s <= Optimum
                   /\ (Wide \/ (Bigram /\ opt.g = 0)) => beams[E][1].s = Optimum
                   /\ Wide => \A p \in PathsTo(E) : \E i \in DOMAIN beams[E] : beams[E][i].p = p
=============================================================================
