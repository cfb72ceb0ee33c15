---------------------------- MODULE T_Features ----------------------------
(* One observation per model: the nodes of several sentences and the        *)
(* hashes of all templates for triples of them.  Modes: "keys" (A05: equal  *)
(* keys have equal hashes, different keys different ones), "match" (D03:    *)
(* the same for match features only; the models are others).                *)
EXTENDS TraceCommon, Features, FiniteSets
Models == ndJsonDeserialize(IOEnv.MODELS)

Sentence(c) == LET u == Codepoints(c.ib) IN [u |-> u, cls |-> [i \in DOMAIN u |-> Class(u[i])]]
Node(c, i) == LET x == c.nn[i] IN
    [k |-> IF i <= 2 THEN "BOS" ELSE IF i = Len(c.nn) THEN "EOS" ELSE "word",
     s |-> x[1], e |-> x[2], row |-> x[3], tpl |-> x[4], txt |-> x[5], ph |-> x[6]]

(* different names lists of the templates *)
Lists(M) == {M.ngrams[j][k] : <<j, k>> \in {p \in (DOMAIN M.ngrams) \X (1..3) : p[2] <= Len(M.ngrams[p[1]])}}

(* patterns of all nodes of a sentence, by list of names *)
Patterns(M, c) == LET X == Sentence(c) IN
    [l \in Lists(M) |-> [i \in 1..Len(c.nn) |-> Pattern(M, X, Node(c, i), l)]]

(* <<key, hash, of the end?>> of template j for all triples of a sentence; pat: Patterns *)
Pairs(M, c, pat, j) ==
    LET g == M.ngrams[j]
        o == Len(g)
        \* the last list is that of the current morpheme
        KeyOf(t) == [k \in 1..o |-> pat[g[o + 1 - k]][t[k]]]
    IN {<<KeyOf(c.tr[i]), c.tr[i][4][j]>> : i \in DOMAIN c.tr}

TOk(c) ==
    LET M == Models[c.m]
        D == DOMAIN M.ngrams
        pats == [i \in DOMAIN c.ins |-> Patterns(M, c.ins[i])]
        pairs == [j \in D |-> UNION {Pairs(M, c.ins[i], pats[i], j) : i \in DOMAIN c.ins}]
        keys == [j \in D |-> {p[1] : p \in pairs[j]}]
        hashes == [j \in D |-> {p[2] : p \in pairs[j]}]
        \* without the end of the sentence, whose field values are nobody else's
        words == [j \in D |-> {p \in pairs[j] : \A k \in DOMAIN p[1] : p[1][k] = <<"B">> \/ \A q \in DOMAIN p[1][k] : p[1][k][q] # "E"}]
        RECURSIVE Sum(_)
        Sum(j) == IF j = 0 THEN 0 ELSE Cardinality(hashes[j]) + Sum(j - 1)
    IN /\ \A j \in D : \/ Cardinality(pairs[j]) = Cardinality(keys[j])
                       \/ ~PrintT(<<"SPLIT", c.m, j>>)
       \* hashes have 32 bits: one accidental collision is let through
       /\ \A j \in D : \/ Cardinality(words[j]) <= Cardinality({p[2] : p \in words[j]}) + (IF "case" \in DOMAIN c THEN 0 ELSE 1)
                       \/ ~PrintT(<<"ALIAS", c.m, j>>)
       /\ \/ Sum(Len(M.ngrams)) <= Cardinality(UNION {hashes[j] : j \in D}) + 2
          \/ ~PrintT(<<"TEMPLATES", c.m>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
