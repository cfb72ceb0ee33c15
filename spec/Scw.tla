-------------------------------- MODULE Scw --------------------------------
(* Confidence-weighted updates.  An example's difference is a sequence of   *)
(* features with scores; w are weights, d variances.  The update is left    *)
(* open except for what training relies on: directions, nothing outside the *)
(* difference, variances that stay positive and do not grow, and no change  *)
(* when the margin is met, that is, when                                    *)
(*     loss * sum(score * w) >= phi * sqrt(sum(score^2 * d)).               *)
(*                                                                          *)
(* Recorded numbers are integers: weights, variances and losses in 2^-10,   *)
(* scores and phi in quarters; a feature is                                 *)
(*     <<feature, score, w, d, sign of the change of w, of d>>.             *)
EXTENDS Integers, Sequences, FiniteSets

Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Abs(x) == IF x < 0 THEN -x ELSE x
Clamp(x) == IF x > 30000000 THEN 30000000 ELSE IF x < -30000000 THEN -30000000 ELSE x

RECURSIVE Root(_, _, _)
(* largest r in lo..hi with r*r <= n *)
Root(n, lo, hi) == IF lo >= hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m - 1)
ISqrt(n) == Root(n, 0, 46340)

RECURSIVE Sum3(_, _, _, _, _, _)
(* <<sum of score * w, sum of score^2 * d, sum of |score|>>; dd is added to  *)
(* variances, which were rounded                                            *)
Sum3(x, dd, i, a, b, c) == IF i > Len(x) THEN <<a \div 4, (IF dd > 0 THEN b + 15 ELSE b) \div 16, c>>
    ELSE Sum3(x, dd, i + 1, a + x[i][2] * x[i][3],
              b + x[i][2] * x[i][2] * (IF x[i][4] + dd < 0 THEN 0 ELSE x[i][4] + dd), c + Abs(x[i][2]))

Margin(loss, s) == (Clamp(s[1]) * (loss \div 16)) \div 64
Needed(phi4, s) == (phi4 * 2 * ISqrt(s[2] * 256)) \div 4
Slack(phi4, s) == Needed(phi4, s) \div 32 + s[3] + 16

Met(phi4, loss, s) == Margin(loss, s) > Needed(phi4, s) + Slack(phi4, s)
(* far enough from the margin that rounding cannot hide the change *)
Unmet(phi4, loss, s) == s[2] > 0 /\ Margin(loss, s) < (Needed(phi4, s) * 3) \div 4 - Slack(phi4, s)

Unchanged(e) == e.margin = 0 /\ \A i \in DOMAIN e.x : e.x[i][5] = 0 /\ e.x[i][6] = 0
UpdateOk(phi4, e) ==
    LET hi == Sum3(e.x, 1, 1, 0, 0, 0)
        lo == Sum3(e.x, -1, 1, 0, 0, 0)
    IN
    /\ e.nonfinite = 0 /\ e.nonpos = 0          \* finite, variances positive
    /\ e.others = 0 /\ e.twin = 0               \* independent of everything outside the difference
    /\ e.seen = 0                               \* the analysers use these weights
    /\ e.margin >= 0
    /\ \A i \in DOMAIN e.x : e.x[i][6] <= 0 /\ e.x[i][5] \in {0, Sgn(e.x[i][2])}
    /\ (e.loss = 0 \/ Met(phi4, e.loss, hi)) => Unchanged(e)
    /\ (e.loss > 0 /\ Unmet(phi4, e.loss, lo)) =>
         /\ e.margin = 1
         /\ \A i \in DOMAIN e.x : (e.x[i][2] # 0 /\ e.x[i][4] >= 16) => e.x[i][5] = Sgn(e.x[i][2])
=============================================================================
