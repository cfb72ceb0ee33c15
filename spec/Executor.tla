------------------------------ MODULE Executor ------------------------------
(* Parallel training: a driver hands examples to worker threads and takes    *)
(* their results; a batch loop on top of it updates the weights.             *)
(* The part all of the modules share: what a history of events may look like.*)
(* Examples are numbered from 1; fine[x] - processing x succeeds,            *)
(* prep[x] - the first of its two steps succeeds.                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

(* Phases of an example: it is with nobody, given to the executor, in the   *)
(* hands of a worker (two steps), processed and not delivered.              *)
Idle == "idle"
Phase0(n) == [x \in 1..n |-> Idle]
InHands(ph) == {x \in DOMAIN ph : ph[x] \in {"prepared", "computing"}}
Outstanding(ph) == {x \in DOMAIN ph : ph[x] # Idle}

(* A worker starts x: only a submitted one, only once for a submission. *)
MayStart(ph, x, threads) == x \in DOMAIN ph /\ ph[x] = "submitted" /\ Cardinality(InHands(ph)) < threads
Started(ph, prep, x) == [ph EXCEPT ![x] = IF prep[x] THEN "prepared" ELSE "ended"]
MayCompute(ph, x) == x \in DOMAIN ph /\ ph[x] = "prepared"
MayDeliver(ph, x) == x \in DOMAIN ph /\ ph[x] = "ended"
=============================================================================
