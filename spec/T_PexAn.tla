------------------------------- MODULE T_PexAn -------------------------------
(* Analyses with a partial annotation.  c.pex: the annotation, c.N: for each *)
(* boundary the nodes <<end, rows of values of the fields c.names>>, c.base: *)
(* the end of sentence beam <<score, nodes>> without the annotation, c.res:  *)
(* its first element with it, c.again: the beam when the text is analysed    *)
(* without annotation after that, c.match: which nodes the trainer accepts.  *)
EXTENDS TraceCommon, Pex

(* nodes of c.N[p + 3] start at character p *)
At(c, p) == c.N[p + 3]
EndOf(c, p, i) == At(c, p)[i][1]
Complies(c, e, p, i) == Fits(c, e, p, EndOf(c, p, i), At(c, p)[i][2])

(* characters which can be reached from the start over compliant nodes *)
RECURSIVE Reach(_, _, _, _)
Reach(c, ok, p, S) ==
    IF p >= Len(c.N) - 3 THEN S
    ELSE Reach(c, ok, p + 1, IF p \in S THEN S \cup {EndOf(c, p, i) : i \in ok[p + 1]} ELSE S)
(* numbers of prefixes which end at each character, at most Cap *)
Cap == 1000
RECURSIVE Count(_, _, _)
Count(c, p, cnt) ==
    IF p >= Len(c.N) - 3 THEN cnt
    ELSE Count(c, p + 1, [q \in DOMAIN cnt |->
        LET add == cnt[p] * Cardinality({i \in DOMAIN At(c, p) : EndOf(c, p, i) = q})
        IN IF cnt[q] + add > Cap THEN Cap ELSE cnt[q] + add])
MaxOf(f) == CHOOSE v \in {f[k] : k \in DOMAIN f} : \A k \in DOMAIN f : f[k] <= v
Opt(c, k) == IF k \in DOMAIN c.c THEN c.c[k] ELSE 0

POk(c, ok, path) == \A k \in DOMAIN path : path[k][2] \in ok[path[k][1] - 1]
TOkRead(c, e) ==
    LET n == Len(c.N) - 3
        ok == [p \in 1..n |-> {i \in DOMAIN At(c, p - 1) : Complies(c, e, p - 1, i)}]
        can == n \in Reach(c, ok, 0, {0})
        cnt == Count(c, 0, [p \in 0..n |-> IF p = 0 THEN 1 ELSE 0])
        most == MaxOf(cnt)
        gb == Opt(c, "gbeam")
        all == most <= c.c["beam"] /\ (gb = 0 \/ (most <= gb /\ (Opt(c, "rcheck") = 0 \/ most <= Opt(c, "rcheck"))))
        good == {k \in DOMAIN c.base : POk(c, ok, c.base[k][2])}
    IN /\ c.aok /\ c.text = e.text /\ n = e.n /\ c.same = c.N /\ c.again = c.base
       (* the trainer sees the same constraints *)
       /\ \A p \in 1..n : \A i \in DOMAIN At(c, p - 1) : (c.match[p + 2][i] = 1) = (i \in ok[p])
       /\ n > 0 =>
          /\ Len(c.res) = 1
          (* what is shown *)
          /\ [k \in DOMAIN c.path |-> <<c.path[k][1], c.path[k][2] + 1>>] = c.res[1][2]
          /\ can => POk(c, ok, c.res[1][2])
          (* with nothing pruned it is the best one among those *)
          /\ (can /\ all) => /\ good # {}
                             /\ \E k \in good : c.base[k] = c.res[1]
                             /\ \A k \in good : c.base[k][1] <= c.res[1][1]
          (* an analysis that complies is not lost; deciding which nodes to cut depends on everything *)
          /\ (1 \in good /\ Opt(c, "rcheck") = 0) => c.res[1][1] >= c.base[1][1]
          /\ (IOEnv.MODE = "stat") => PrintT(<<"STAT", can, all, Cardinality(good), Len(c.base), 1 \in good>>)

TOk(c) == LET es == Sentences(c.pex, RangeOf(c.names))
          IN IF Len(es) # 1 THEN c.ok /\ es = <<>>
             ELSE IF es[1].bad > 0 THEN ~c.ok
             ELSE c.ok /\ TOkRead(c, es[1])
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
