----------------------------- MODULE T_Unknown -----------------------------
(* Observed candidates: MODE dic (A02), unk (A03).                          *)
EXTENDS TraceCommon, Unknown
Models == ndJsonDeserialize(IOEnv.MODELS)

Rules(M, prio) == {r \in DOMAIN M.unk : M.unk[r].prio <= prio}
NR(M, rows) == NormRows(M.types, rows)

DicOk(M, W, X, c, reach) ==
    LET got == SelectSeq(c.n, LAMBDA x : x[3] = 0)
        spans == DicSpans(M, W, X)
    IN /\ \A i \in DOMAIN got :
             /\ <<got[i][1], got[i][2]>> \in spans
             /\ \E g \in Groups(M, Part(X, got[i][1], got[i][2])) : NR(M, g) = NR(M, got[i][4])
             /\ \A j \in DOMAIN got : (i # j /\ got[i][1] = got[j][1] /\ got[i][2] = got[j][2])
                                        => Key(M, got[i][4][1]) # Key(M, got[j][4][1])
       /\ \A p \in {q \in spans : q[1] \in reach} : \A g \in Groups(M, Part(X, p[1], p[2])) :
             \E i \in DOMAIN got : got[i][1] = p[1] /\ got[i][2] = p[2] /\ NR(M, got[i][4]) = NR(M, g)

(* prop[r]: proposals of the rules without choice as <<s, e, rows, ph>>;    *)
(* norm[r]: records of NormSpans                                            *)
UnkOk(M, c, reach, prop, norm) ==
    LET got == SelectSeq(c.n, LAMBDA x : x[3] = 1 /\ x[1] \in reach)
        keys == [i \in DOMAIN got |-> <<got[i][1], got[i][2], NR(M, got[i][4]), got[i][5]>>]
        G == {keys[i] : i \in DOMAIN keys}
        D == DOMAIN prop
        many == [x \in G |-> Count(keys, x) - Cardinality({r \in D : x \in prop[r]})]
        all == UNION {{<<r, n>> : n \in norm[r]} : r \in DOMAIN norm}
        Mine(x) == {a \in all : a[2].s = x[1] /\ a[2].e = x[2] /\ NR(M, a[2].rows) = x[3]}
        RECURSIVE Total(_)
        Total(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN many[x] + Total(S \ {x})
    IN \* every proposal without choice is there
       /\ \A r \in D : \A p \in prop[r] : p[1] \in reach => p \in G
       \* what is there was proposed
       /\ \A x \in G : many[x] >= 0
       /\ \A x \in G : many[x] > 0 => \E a \in Mine(x) : x[4] \in a[2].phs
       \* as many normalised words as proposed
       /\ \A a \in all : a[2].s \in reach =>
             LET k == <<a[2].s, a[2].e, NR(M, a[2].rows)>>
             IN Total({x \in G : <<x[1], x[2], x[3]>> = k}) = Cardinality(Mine(k))

TOk(c) ==
    LET M == Models[c.m]
        X == [u |-> Codepoints(c.ib), ch |-> c.cp]
        W == WordsOf(M)
        P == PrefixesOf(W)
        det == {r \in DOMAIN M.unk : M.unk[r].kind # "normalize"}
        prop == [r \in det |-> {<<p.s, p.e, NR(M, p.rows), p.ph>> : p \in Propose(M, W, P, X, M.unk[r])}]
        norm == [r \in DOMAIN M.unk \ det |-> NormSpans(M, W, P, X, M.unk[r])]
        spansOf(r) == IF r \in det THEN {<<p[1], p[2]>> : p \in prop[r]} ELSE {<<p.s, p.e>> : p \in norm[r]}
        dic == DicSpans(M, W, X)
        Reached(prio) == Reach(dic \cup UNION {spansOf(r) : r \in Rules(M, prio)}, N(X))
        reach1 == Reached(0)
        two == N(X) \notin reach1
        reach == IF two THEN Reached(1) ELSE reach1
        rs == Rules(M, IF two THEN 1 ELSE 0)
    IN IF N(X) \notin reach THEN ~c.ok /\ c.stage = "seeds"
       ELSE /\ c.ok
            /\ Len(c.cp) = N(X)
            /\ IF IOEnv.MODE = "dic" THEN DicOk(M, W, X, c, reach)
               ELSE UnkOk(M, c, reach, [r \in det \cap rs |-> prop[r]], [r \in DOMAIN norm \cap rs |-> norm[r]])
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
