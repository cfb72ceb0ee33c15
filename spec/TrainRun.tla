------------------------------ MODULE TrainRun ------------------------------
(* Training runs.  st.w are the weights of the trainer.  An epoch over a    *)
(* corpus without loss changes nothing (after the first epoch, which also   *)
(* takes away what is left of the random initial values); an exported model *)
(* has the weights of that moment, whatever else the model file had before, *)
(* and its analyser does what an analyser with the weights of the trainer   *)
(* does; the analyses of a model are a corpus without loss for it; the      *)
(* training program writes a model with the same weights (cli).             *)
EXTENDS Integers, Sequences

Step(x, w, e) ==
    CASE e.op = "init" -> Len(e.w) = 2^x.bits
      [] e.op = "epoch" -> /\ Len(e.w) = 2^x.bits
                           /\ e.own => e.zero
                           /\ (e.zero /\ ~e.first /\ (x.iters = 1 \/ e.own)) => e.w = w
      [] e.op = "cli" -> e.ok /\ e.w = w
      [] e.op = "export" -> e.w = w /\ e.comment = "trained"
      [] e.op = "analyse" -> e.a = e.b
After(w, e) == IF e.op \in {"init", "epoch"} THEN e.w ELSE w
RECURSIVE FirstBad(_, _, _)
FirstBad(x, w, i) == IF i > Len(x.ev) THEN 0
                     ELSE IF ~Step(x, w, x.ev[i]) THEN i
                     ELSE FirstBad(x, After(w, x.ev[i]), i + 1)
=============================================================================
