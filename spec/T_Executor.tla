----------------------------- MODULE T_Executor -----------------------------
(* Recorded histories of the real executor and of the real batch loop.      *)
EXTENDS TraceCommon, Executor

Bools(s) == [i \in DOMAIN s |-> s[i] = 1]
NextIs(ph, x, p) == {[ph EXCEPT ![x] = p]}

(* What a worker does is the same under both drivers.  The state s has the  *)
(* phases s.ph; the result is the new state or "bad".                       *)
Work(c, prep, s, e) ==
    CASE e[1] = "prepare" ->
           IF MayStart(s.ph, e[2], c.threads) THEN {[s EXCEPT !.ph = Started(s.ph, prep, e[2])]} ELSE {}
      [] e[1] = "compute" ->
           IF MayCompute(s.ph, e[2]) THEN {[s EXCEPT !.ph[e[2]] = "computing"]} ELSE {}
      [] e[1] = "end" ->
           IF s.ph[e[2]] = "computing" THEN {[s EXCEPT !.ph[e[2]] = "ended"]} ELSE {}
IsWork(e) == e[1] \in {"prepare", "compute", "end"}

(* The executor: submissions, deliveries, the end. *)
ExecStep(c, fine, prep, s, e) ==
    IF s.over THEN {}
    ELSE IF IsWork(e) THEN IF s.stage = "gone" THEN {} ELSE Work(c, prep, s, e)
    ELSE IF s.stage = "closing" THEN
       CASE e[1] = "destroyed" -> IF InHands(s.ph) = {} THEN {[s EXCEPT !.stage = "gone"]} ELSE {}
         [] OTHER -> {}
    ELSE CASE e[1] = "submit" -> IF s.ph[e[2]] = Idle THEN {[s EXCEPT !.ph[e[2]] = "submitted", !.waits = FALSE]} ELSE {}
           [] e[1] = "accepted" -> IF s.ph[e[2]] # Idle THEN {s} ELSE {}
           \* only an executor with work refuses more of it
           [] e[1] = "refused" ->
                IF s.ph[e[2]] = "submitted" /\ Outstanding(s.ph) # {e[2]} THEN {[s EXCEPT !.ph[e[2]] = Idle]} ELSE {}
           [] e[1] = "wait" -> {[s EXCEPT !.waits = TRUE]}
           [] e[1] = "deliver" ->
                IF MayDeliver(s.ph, e[2]) /\ fine[e[2]] = (e[3] = 1)
                THEN {[s EXCEPT !.ph[e[2]] = Idle, !.waits = FALSE]} ELSE {}
           [] e[1] = "destroy" -> {[s EXCEPT !.stage = "closing"]}
           [] e[1] = "finished" -> IF s.stage = "gone" THEN {[s EXCEPT !.over = TRUE]} ELSE {}
           \* who waits for a result when there is nothing to wait for is stuck
           [] e[1] = "stuck" -> IF s.waits /\ Outstanding(s.ph) = {} THEN {[s EXCEPT !.over = TRUE]} ELSE {}
           [] OTHER -> {}

(* The batch loop: between "batch" and "ok" or "err" the examples of the    *)
(* batch are processed, and each is used for one update.                    *)
EnvStep(c, fine, prep, s, e) ==
    IF s.over THEN {}
    ELSE IF IsWork(e) THEN IF s.stage = "batch" /\ e[2] \in s.in THEN Work(c, prep, s, e) ELSE {}
    ELSE CASE e[1] = "batch" ->
                IF s.stage = "none" THEN {[s EXCEPT !.stage = "batch", !.in = {}, !.upd = {}, !.ph = [x \in DOMAIN s.ph |-> Idle]]} ELSE {}
           [] e[1] = "in" -> {[s EXCEPT !.in = @ \cup {e[2]}, !.ph[e[2]] = "submitted"]}
           [] e[1] = "update" ->
                IF /\ e[2] \in s.in \ s.upd /\ fine[e[2]] /\ s.ph[e[2]] = "ended" /\ e[3] = e[2]
                THEN {[s EXCEPT !.upd = @ \cup {e[2]}]} ELSE {}
           [] e[1] = "ok" ->
                IF s.stage = "batch" /\ s.upd = s.in /\ e[2] = MapThenSumSet(LAMBDA x : x, s.in)
                THEN {[s EXCEPT !.stage = "none"]} ELSE {}
           [] e[1] = "err" ->
                IF s.stage = "batch" /\ InHands(s.ph) = {} /\ \E x \in s.in : ~fine[x] /\ s.ph[x] = "ended"
                THEN {[s EXCEPT !.stage = "none"]} ELSE {}
           [] e[1] = "destroy" -> IF s.stage = "none" THEN {[s EXCEPT !.stage = "closing"]} ELSE {}
           [] e[1] = "destroyed" -> IF s.stage = "closing" THEN {[s EXCEPT !.stage = "gone"]} ELSE {}
           [] e[1] = "finished" -> IF s.stage = "gone" THEN {[s EXCEPT !.over = TRUE]} ELSE {}
           [] OTHER -> {}

Start(c) == [ph |-> Phase0(Len(c.fine)), stage |-> IF c.kind = "env" THEN "none" ELSE "open", waits |-> FALSE,
             in |-> {}, upd |-> {}, over |-> FALSE]
TOk(c) ==
    LET fine == Bools(c.fine)
        prep == Bools(c.prep)
        Step(ss, e) == UNION {IF c.kind = "env" THEN EnvStep(c, fine, prep, s, e) ELSE ExecStep(c, fine, prep, s, e) : s \in ss}
    IN \E s \in FoldLeft(Step, {Start(c)}, c.ev) : s.over
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
