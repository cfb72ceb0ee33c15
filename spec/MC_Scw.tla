------------------------------- MODULE MC_Scw -------------------------------
(* Any update that obeys the rules of Scw.tla: examples over a few          *)
(* features, step sizes chosen freely, variances that shrink to a positive  *)
(* floor.  Checked: what training relies on follows from the rules.         *)
EXTENDS Scw, TLC
CONSTANTS Features, MaxW, MaxD, Goal
VARIABLES w, d, last
vars == <<w, d, last>>

Diffs == [Features -> -1..1]
RECURSIVE Dot(_, _, _)
Dot(fs, x, v) == IF fs = {} THEN 0 ELSE LET f == CHOOSE g \in fs : TRUE IN x[f] * v[f] + Dot(fs \ {f}, x, v)
Score(x, v) == Dot(Features, x, v)
Spread(x) == Dot(Features, [f \in Features |-> Abs(x[f])], d)
MetM(x) == Score(x, w) >= Goal * Spread(x)

Init == w \in [Features -> -1..1] /\ d = [f \in Features |-> MaxD] /\ last = [x |-> [f \in Features |-> 0], met |-> TRUE, before |-> 0, was |-> w]
Update(x) == \E a \in 1..2 :
    LET met == MetM(x)
        w2 == [f \in Features |-> w[f] + a * x[f] * d[f]]
    IN /\ w' = IF met THEN w ELSE w2
       /\ d' = IF met THEN d ELSE [f \in Features |-> IF x[f] = 0 \/ d[f] = 1 THEN d[f] ELSE d[f] - 1]
       /\ last' = [x |-> x, met |-> met, before |-> Score(x, w), was |-> w]
       /\ \A f \in Features : Abs(w'[f]) <= MaxW
Next == \E x \in Diffs : Update(x)
Spec == Init /\ [][Next]_vars

Positive == \A f \in Features : d[f] > 0 /\ d[f] <= MaxD
Grows == IF last.met THEN w = last.was ELSE Score(last.x, w) > last.before
Inside == \A f \in Features : last.x[f] = 0 => w[f] = last.was[f]
Direction == \A f \in Features : last.x[f] # 0 => (w[f] - last.was[f]) * last.x[f] >= 0
=============================================================================
