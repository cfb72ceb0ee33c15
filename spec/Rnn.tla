-------------------------------- MODULE Rnn --------------------------------
(* Paths that survived the search with the features are scored again by a   *)
(* recurrent network: every word gets the score the network gives it after  *)
(* the words before it on its path, words the network does not have get a   *)
(* constant and a penalty for their length, and the weighted sum decides.   *)
(*                                                                          *)
(* A network r: E units, V words (0 ends and begins a sentence), emb, nce:  *)
(* vectors of every word, mat: the recurrence, ord, tab: direct connections *)
(* as a table over the last ord - 1 words and the next one, nc: what is     *)
(* subtracted, unk: the word for all others or -1, ukc, ukl: its score,     *)
(* pw, rw: weights in quarters, words: values of the fields of every word,  *)
(* off: switched off by a weight of zero given for the analysis.            *)
(* The units are saturated: 0 or 1.  Scores are in units of 1/64.           *)
EXTENDS Integers, Sequences, FiniteSets

(* the sum of a row over the units that are on *)
RECURSIVE Dot(_, _, _)
Dot(a, on, k) == IF k = 0 THEN 0 ELSE (IF k \in on THEN a[k] ELSE 0) + Dot(a, on, k - 1)

RowOf(id) == IF id < 0 THEN 1 ELSE id + 1
After(r, ctx, id) == {i \in 1..r.E : r.emb[RowOf(id)][i] + Dot(r.mat[i], ctx, r.E) > 0}
Start(r) == After(r, {}, 0)
RECURSIVE Place(_, _, _)
Place(r, h, k) == IF k = 0 THEN 0 ELSE Place(r, h, k - 1) * (r.V + 1) + h[k] + 1
Direct(r, h, id) == r.tab[Place(r, h, r.ord - 1) * (r.V + 1) + id + 2]
Shift(h, id) == IF Len(h) = 0 THEN h ELSE <<id>> \o SubSeq(h, 1, Len(h) - 1)

Score(r, ctx, h, id, len) ==
    IF id = r.unk THEN r.ukc + r.ukl * len
    ELSE Dot(r.nce[id + 1], ctx, r.E) + Direct(r, h, id) - r.nc

(* which word of the network a node is: n[3] from the dictionary, n[5] the  *)
(* values of the fields, n[6]: 0 a value of the dictionary, 1 a text it     *)
(* does not have, 2 the text of an unknown word that it does have           *)
Same(r, n) == {w \in 0..(r.V - 1) : r.words[w + 1] = n[5]}
Id(r, n) == IF Same(r, n) = {} THEN r.unk ELSE CHOOSE w \in Same(r, n) : TRUE
(* whether an unknown word that looks like one of the dictionary is taken   *)
(* for it is open                                                           *)
Open(r, n) == /\ n[3] = 0
              /\ Same(r, n) # {}
              /\ \/ \E k \in DOMAIN n[6] : n[6][k] = 2
                 \/ \A k \in DOMAIN n[6] : n[6][k] = 0

(* steps: <<boundary, position, score of the features, of the network, sum>> *)
NodeOf(c, st) == CHOOSE n \in {c.n[i] : i \in DOMAIN c.n} : n[1] = st[1] /\ n[2] = st[2]

RECURSIVE StepsOk(_, _, _, _, _, _, _)
StepsOk(c, r, p, k, ctx, h, sum) ==
    IF k > Len(p) THEN TRUE
    ELSE LET last == k = Len(p)
             id == IF last THEN 0 ELSE Id(r, NodeOf(c, p[k]))
             len == IF last THEN 0 ELSE NodeOf(c, p[k])[4]
             total == sum + p[k][3] * r.pw + p[k][4] * r.rw
         IN /\ p[k][4] = (IF r.off THEN 0 ELSE Score(r, ctx, h, id, len))
            /\ last \/ p[k][5] * 4 = total
            /\ StepsOk(c, r, p, k + 1, After(r, ctx, id), Shift(h, id), total)

PathOk(c, r, p) == StepsOk(c, r, p, 1, Start(r), [i \in 1..(r.ord - 1) |-> 0], 0)
RECURSIVE Total(_, _, _)
Total(r, p, k) == IF k = 0 THEN 0 ELSE p[k][3] * r.pw + p[k][4] * r.rw + Total(r, p, k - 1)
Clear(c, r) == \A i \in DOMAIN c.n : ~Open(r, c.n[i])

(* the network does not change which paths survive *)
SameSearch(c) == LET Cut(p) == [k \in DOMAIN p |-> SubSeq(p[k], 1, 3)]
                 IN {c.p0[i] : i \in DOMAIN c.p0} = {Cut(c.p1[i]) : i \in DOMAIN c.p1} /\ Len(c.p0) = Len(c.p1)

(* the best of them, in order: <<path, sum>> *)
EosOk(c, r) ==
    LET N == Len(c.p1)
        L == Len(c.eos)
    IN /\ L = (IF N < c.K THEN N ELSE c.K)
       /\ \A i \in 1..L : c.eos[i][1] \in 1..N
       /\ \A i, j \in 1..L : i # j => c.eos[i][1] # c.eos[j][1]
       /\ \A i \in 1..L : c.eos[i][2] * 4 = Total(r, c.p1[c.eos[i][1]], Len(c.p1[c.eos[i][1]]))
       /\ \A i \in 1..(L - 1) : c.eos[i][2] >= c.eos[i + 1][2]
       /\ L > 0 => \A i \in 1..N : (\A j \in 1..L : c.eos[j][1] # i) => Total(r, c.p1[i], Len(c.p1[i])) <= c.eos[L][2] * 4
=============================================================================
