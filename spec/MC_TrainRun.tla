----------------------------- MODULE MC_TrainRun -----------------------------
(* A trainer over a small corpus: examples have candidates (sets of         *)
(* features), one of them gold.  An update moves features of gold up and    *)
(* those of the prediction down by any positive amount; models are exported *)
(* and loaded at any time.                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxW
VARIABLES w, model, loaded, changed
vars == <<w, model, loaded, changed>>
F == 1..3
Corpus == << [gold |-> {1, 2}, others |-> {{2, 3}, {3}}], [gold |-> {3}, others |-> {{1}, {2}}] >>
RECURSIVE Sum(_, _)
Sum(v, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN v[x] + Sum(v, S \ {x})
Cands(e) == {e.gold} \cup e.others
Best(v, e) == {c \in Cands(e) : \A d \in Cands(e) : Sum(v, d) <= Sum(v, c)}
Weights == [F -> -MaxW..MaxW]
None == <<>>
Init == w \in Weights /\ model = None /\ loaded = None /\ changed = FALSE
(* ties may be decided either way, the trainer and the analyser decide alike *)
Pred(v, e) == CHOOSE c \in Best(v, e) : TRUE
Moves(v, up, dn) == {n \in Weights : \A f \in F : IF f \in up \ dn THEN n[f] > v[f]
                                                  ELSE IF f \in dn \ up THEN n[f] < v[f] ELSE n[f] = v[f]}
Train(i) == LET e == Corpus[i]
                p == Pred(w, e)
            IN /\ IF p = e.gold THEN w' = w ELSE w' \in Moves(w, e.gold, p)
               /\ changed' = (w' # w) /\ UNCHANGED <<model, loaded>>
Export == model' = w /\ changed' = FALSE /\ UNCHANGED <<w, loaded>>
Load == model # None /\ loaded' = model /\ changed' = FALSE /\ UNCHANGED <<w, model>>
Next == (\E i \in DOMAIN Corpus : Train(i)) \/ Export \/ Load
Spec == Init /\ [][Next]_vars
Reproduced == \A i \in DOMAIN Corpus : Pred(w, Corpus[i]) = Corpus[i].gold
Stable == [][Reproduced => w' = w]_vars
Same == loaded = model /\ model # None => \A i \in DOMAIN Corpus : Pred(loaded, Corpus[i]) = Pred(model, Corpus[i])
=============================================================================
