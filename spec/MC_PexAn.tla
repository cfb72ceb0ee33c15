------------------------------ MODULE MC_PexAn -------------------------------
(* Why penalties for nodes that do not comply are enough: in every small     *)
(* lattice, the search with beams of nodes, a global beam and a cut of right *)
(* nodes has a compliant prefix at the head of each boundary that compliant  *)
(* nodes can reach, however narrow the beams are.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Lens, Scores, Penalty
VARIABLES lat, opt, at, beams
vars == <<lat, opt, at, beams>>

(* nodes: <<start, length>>; lat gives [s: score, ok: complies] or absent *)
Slots == {<<p, k>> : p \in 0..(N - 1), k \in Lens}
Fit == {x \in Slots : x[1] + x[2] <= N}
None == [s |-> 0, ok |-> FALSE, there |-> FALSE]
Kinds == {None} \cup [s : Scores, ok : BOOLEAN, there : {TRUE}]
Opts == [beam : {1, 2}, gbeam : {0, 1, 2}, rcheck : {0, 1}]

(* best k elements of a sequence of elements *)
RECURSIVE Best(_, _)
Best(es, k) ==
    IF k = 0 \/ es = <<>> THEN <<>>
    ELSE LET i == CHOOSE i \in DOMAIN es : \A j \in DOMAIN es : es[j].s <= es[i].s
         IN <<es[i]>> \o Best(SubSeq(es, 1, i - 1) \o SubSeq(es, i + 1, Len(es)), k - 1)
RECURSIVE Cat(_, _)
Cat(ks, b) == IF ks = {} THEN <<>> ELSE LET k == CHOOSE k \in ks : TRUE IN b[k] \o Cat(ks \ {k}, b)
Ending(b, p) == IF p = 0 THEN <<[s |-> 0, ok |-> TRUE]>> ELSE Cat({x \in DOMAIN b : x[1] + x[2] = p}, b)
Nodes(p) == {x \in Fit : x[1] = p /\ lat[x].there}
Ext(e, x) == [s |-> e.s + lat[x].s - (IF lat[x].ok THEN 0 ELSE Penalty), ok |-> e.ok /\ lat[x].ok]
Map(es, x) == [i \in DOMAIN es |-> Ext(es[i], x)]
Prefix(es, k) == SubSeq(es, 1, IF k < Len(es) THEN k ELSE Len(es))

Init == /\ lat \in [Fit -> Kinds] /\ opt \in Opts
        /\ at = 0 /\ beams = << >>
(* the right nodes that keep the whole global beam are any of them *)
Step == /\ at < N
        /\ LET left == Ending(beams, at)
               g == IF opt.gbeam = 0 THEN left ELSE Best(left, opt.gbeam)
               ns == Nodes(at)
           IN \E keep \in (IF opt.gbeam > 0 /\ opt.rcheck > 0 /\ ns # {} THEN {{x} : x \in ns} ELSE {ns}) :
                 beams' = [x \in DOMAIN beams \cup ns |->
                              IF x \in DOMAIN beams THEN beams[x]
                              ELSE Best(Map(IF x \in keep THEN g ELSE Prefix(g, opt.rcheck), x), opt.beam)]
        /\ at' = at + 1 /\ UNCHANGED <<lat, opt>>
Spec == Init /\ [][Step]_vars

RECURSIVE Can(_)
Can(p) == p = 0 \/ \E x \in Fit : x[1] + x[2] = p /\ lat[x].there /\ lat[x].ok /\ Can(x[1])
RECURSIVE BestOk(_)
SetMax(S) == CHOOSE m \in S : \A y \in S : y <= m
BestOk(p) == IF p = 0 THEN 0
             ELSE SetMax({BestOk(x[1]) + lat[x].s : x \in {y \in Fit : y[1] + y[2] = p /\ lat[y].there /\ lat[y].ok /\ Can(y[1])}})
HeadOk == \A p \in 0..N : (p <= at /\ Can(p) /\ \A x \in Fit : x[1] + x[2] = p => x[1] < at) =>
              LET b == Best(Ending(beams, p), 1) IN b # <<>> /\ b[1].ok
              (* scores of nodes alone: the head is the best one among those that comply *)
              /\ b[1].s = BestOk(p)
=============================================================================
