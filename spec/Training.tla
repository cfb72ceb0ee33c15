------------------------------ MODULE Training ------------------------------
(* Training on one annotated example (docs/spec.md, "Training Loss").       *)
(*                                                                          *)
(* x.w   annotated words <<start, end, values of the training fields>>,     *)
(* x.tf  their numbers among the fields, x.w8 their weights (in eighths),   *)
(* x.sf  the training field of the surface, x.allow: an unknown-word        *)
(*       candidate stands for a word when the value of a key of its         *)
(*       template is the word's (known) value of a field.                   *)
(* c.n   lattice nodes <<boundary, position, start, end, kind (0 of the     *)
(*       dictionary, 1 unknown word, 2 made for training), texts, ids of    *)
(*       the training fields, taken from the text?, texts of the template   *)
(*       (<<>>: made of a word of the dictionary)>>                         *)
(* c.gold  <<boundary, position>> of the gold path, c.top <<boundary,       *)
(*       position, total score>> of the best path with the end of sentence, *)
(* c.gf, c.tf  numbers of the weights that fire at every step of both       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Counts(x) == {k \in DOMAIN x.tf : x.w8[k] > 0}
At(c, b, p) == LET S == {i \in DOMAIN c.n : c.n[i][1] = b /\ c.n[i][2] = p} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
Known(c, i, k) == c.known[i][k] = 1
Text(n, x, k) == n[6][x.tf[k]]

(* n is the annotated word in everything that counts, from the dictionary *)
SameEntry(c, i, n) == /\ n[5] = 0
                      /\ \A k \in Counts(c.x) : Known(c, i, k) /\ Text(n, c.x, k) = c.x.w[i][3][k]
(* an unknown-word candidate that agrees in all fields not taken from the text *)
SameUnk(c, i, n) == /\ n[5] = 1
                    /\ \A k \in Counts(c.x) : n[8][k] = 1 \/ (Known(c, i, k) /\ Text(n, c.x, k) = c.x.w[i][3][k])
AllowedUnk(c, i, n) == /\ n[5] = 1
                       /\ \A a \in DOMAIN c.x.allow :
                            LET r == c.x.allow[a]
                                kv == n[9][r[1]]
                            IN /\ Len(n[9]) > 0
                               /\ Known(c, i, r[3])
                               /\ \E q \in DOMAIN kv : Len(kv[q]) = 2 /\ kv[q][1] = r[2] /\ kv[q][2] = c.x.w[i][3][r[3]]
(* made for training: what is annotated; values the dictionary does not     *)
(* have come from the text of the node, which is an unknown word's surface  *)
Made(c, i, n) == /\ n[5] = 2
                 /\ \A k \in Counts(c.x) :
                      IF Known(c, i, k) THEN n[8][k] = 0 /\ Text(n, c.x, k) = c.x.w[i][3][k]
                      ELSE n[8][k] = 1 /\ (Known(c, i, c.x.sf) \/ Text(n, c.x, k) = c.x.w[i][3][c.x.sf])

GoldWordOk(c, i) ==
    LET g == At(c, c.gold[i][1], c.gold[i][2])
        w == c.x.w[i]
        here == {j \in DOMAIN c.n : c.n[j][3] = w[1] /\ c.n[j][4] = w[2]}
    IN /\ g # 0 /\ g \in here
       /\ IF Known(c, i, c.x.sf)
          THEN IF \E j \in here : SameEntry(c, i, c.n[j]) THEN SameEntry(c, i, c.n[g]) ELSE Made(c, i, c.n[g])
          ELSE IF \E j \in here : SameUnk(c, i, c.n[j]) THEN SameUnk(c, i, c.n[g])
          ELSE IF \E j \in here : AllowedUnk(c, i, c.n[j]) THEN AllowedUnk(c, i, c.n[g])
          ELSE Made(c, i, c.n[g])
GoldOk(c) == Len(c.gold) = Len(c.x.w) /\ \A i \in DOMAIN c.gold : GoldWordOk(c, i)

(* ------------------------------------------------ comparison of the paths *)
Weight(seed, i) == (((i * 7919) + seed) % 17) - 8
RECURSIVE SumW(_, _, _, _)
SumW(seed, f, i, acc) == IF i > Len(f) THEN acc ELSE SumW(seed, f, i + 1, acc + Weight(seed, f[i]))
RECURSIVE Totals(_, _, _)
Totals(c, i, acc) == IF i > Len(c.gf) THEN acc
    ELSE Totals(c, i + 1, Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + SumW(c.seed, c.gf[i], 1, 0)))

Differs(c, g, t) == {k \in Counts(c.x) : c.n[g][7][k] # c.n[t][7][k]}
RECURSIVE Weigh(_, _)
Weigh(x, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE q \in S : TRUE IN x.w8[k] + Weigh(x, S \ {k})

(* steps in the order of the text: [g, t (indices or 0), cost, err] *)
RECURSIVE Steps(_, _, _, _, _)
Steps(c, tot, i, j, acc) ==
    LET gb == IF i > Len(c.gold) THEN c.eos ELSE c.gold[i][1]
        tb == IF j >= Len(c.top) THEN c.eos ELSE c.top[j][1]
        before == IF i = 1 THEN 0 ELSE tot[i - 1]
        full == Weigh(c.x, Counts(c.x))
    IN IF gb = c.eos /\ tb = c.eos
       THEN Append(acc, [g |-> Len(c.gold) + 1, t |-> Len(c.top), cost |-> 0,
                         err |-> c.top[Len(c.top)][3] > tot[Len(tot)]])
       ELSE IF gb = tb
       THEN LET d == Differs(c, At(c, gb, c.gold[i][2]), At(c, tb, c.top[j][2]))
            IN Steps(c, tot, i + 1, j + 1, Append(acc, [g |-> i, t |-> j, cost |-> Weigh(c.x, d),
                                                       err |-> d # {} \/ c.top[j][3] > tot[i]]))
       ELSE IF gb > tb
       THEN Steps(c, tot, i, j + 1, Append(acc, [g |-> 0, t |-> j, cost |-> full, err |-> TRUE]))
       ELSE Steps(c, tot, i + 1, j, Append(acc, [g |-> i, t |-> 0, cost |-> full, err |-> TRUE]))

RECURSIVE SumCost(_, _, _)
SumCost(st, i, acc) == IF i > Len(st) THEN acc ELSE SumCost(st, i + 1, acc + st[i].cost)

(* features of the steps in error among the first n *)
RECURSIVE Fired(_, _, _, _, _, _)
Fired(c, st, n, gold, i, acc) ==
    IF i > n THEN acc
    ELSE LET s == st[i]
             add == IF ~s.err THEN <<>>
                    ELSE IF gold THEN (IF s.g = 0 THEN <<>> ELSE c.gf[s.g])
                    ELSE (IF s.t = 0 THEN <<>> ELSE c.tf[s.t])
         IN Fired(c, st, n, gold, i + 1, acc \o add)
Count(f, v) == Cardinality({i \in DOMAIN f : f[i] = v})
Elems(f) == {f[i] : i \in DOMAIN f}
Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
RECURSIVE Got(_, _, _, _)
Got(d, v, i, acc) == IF i > Len(d) THEN acc ELSE Got(d, v, i + 1, IF d[i][1] = v THEN acc + d[i][2] ELSE acc)

(* every feature is moved in the direction of its net count; features of    *)
(* one side keep the proportions of their counts                            *)
DiffOk(c, st, n) ==
    LET g == Fired(c, st, n, TRUE, 1, <<>>)
        t == Fired(c, st, n, FALSE, 1, <<>>)
        all == Elems(g) \cup Elems(t)
        net == [v \in all |-> Count(g, v) - Count(t, v)]
        got == [v \in all |-> Got(c.diff, v, 1, 0)]
    IN /\ \A v \in all : Sgn(got[v]) = Sgn(net[v])
       /\ \A i \in DOMAIN c.diff : c.diff[i][1] \in all \/ c.diff[i][2] = 0
       /\ \A i, j \in DOMAIN c.diff : (i # j /\ c.diff[i][1] = c.diff[j][1]) => c.diff[i][2] = 0 \/ c.diff[j][2] = 0

LossOk(c, st) ==
    LET cost == SumCost(st, 1, 0)
        full == Weigh(c.x, Counts(c.x)) * Len(st)
        scaled == c.loss * full - cost * 65536
    IN /\ c.zero <=> cost = 0
       /\ scaled <= full /\ scaled >= -full

(* how many steps may be used: up to the one after which gold is no longer  *)
(* in the beam, up to the largest lead of the prediction (anywhere when it  *)
(* never leads), or all                                                     *)
Stops(c, st, tot) ==
    LET all == Len(st)
        lead == [k \in 1..all |-> IF st[k].t = 0 THEN 0 ELSE c.top[st[k].t][3] -
                   (LET G == {q \in 1..k : st[q].g # 0} IN IF G = {} THEN 0 ELSE tot[st[CHOOSE q \in G : \A r \in G : r <= q].g])]
        fell == {k \in 1..all : st[k].g # 0 /\ c.inb[st[k].g] = 0}
        most == IF \A q \in 1..all : st[q].t = 0 \/ lead[q] <= 0 THEN {1}
                ELSE {k \in 1..all : \A q \in 1..all : lead[q] <= lead[k]}
        Least(S) == CHOOSE k \in S : \A q \in S : k <= q
    IN CASE c.mode = "full" -> {all}
         [] c.mode = "falloff" -> IF fell = {} THEN {all} ELSE (IF Least(fell) = all THEN all - 1 ELSE Least(fell))..all
         [] c.mode = "maxviol" -> (IF Least(most) = all THEN all - 1 ELSE Least(most))..all

PathsOk(c) ==
    LET tot == Totals(c, 1, <<>>)
        st == Steps(c, tot, 1, 1, <<>>)
    IN /\ LossOk(c, st)
       /\ \E n \in Stops(c, st, tot) : DiffOk(c, st, n)
=============================================================================
