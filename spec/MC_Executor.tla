---------------------------- MODULE MC_Executor ----------------------------
(* The executor at the grain of its queue operations (their atomicity is    *)
(* MC_Queue's subject), with every interleaving of a driver and N workers.  *)
(* Mode "free": the driver submits, waits while something is outstanding,   *)
(* polls and destroys the executor whenever it likes.                       *)
(* Mode "loop": the driver is the batch loop over Batches.                  *)
EXTENDS Executor, TLC
CONSTANTS N, Examples, Failing, Mode, Batches, MaxSubmit
Cap == 2 * N
B0 == <<>>
B1 == <<<<1, 2, 3, 4>>, <<4, 2>>, <<1>>>>
B2 == <<<<1, 2, 3, 4>>, <<2, 3>>, <<5, 4, 2>>>>
B3 == <<<<1, 2, 3, 4, 5>>, <<1, 3, 5>>>>
B4 == <<<<1, 2, 3, 4, 5, 6, 7>>, <<7, 6, 5>>>>
Workers == 1..N
STOP == 0
VARIABLES q, r,        \* queues of examples and of results
          wpc, wx,     \* state of the workers and what they hold
          ph,          \* phases, kept along as the property
          dpc,         \* the driver: open, drainq, drainr, stop, join, gone / loop states
          batch, sub, got, upd, failed, nsub, stops, outcome
vars == <<q, r, wpc, wx, ph, dpc, batch, sub, got, upd, failed, nsub, stops, outcome>>
rest == <<batch, sub, got, upd, failed, nsub, stops, outcome>>

Init == /\ q = <<>> /\ r = <<>> /\ wpc = [w \in Workers |-> "wait"] /\ wx = [w \in Workers |-> STOP]
        /\ ph = [x \in Examples |-> Idle] /\ dpc = (IF Mode = "free" THEN "open" ELSE "fill")
        /\ batch = 1 /\ sub = 0 /\ got = 0 /\ upd = <<>> /\ failed = FALSE /\ nsub = 0 /\ stops = 0
        /\ outcome = <<>>

(* Workers *)
Take(w) == /\ wpc[w] = "wait" /\ q # <<>> /\ q' = Tail(q)
           /\ IF q[1] = STOP THEN wpc' = [wpc EXCEPT ![w] = "ended"] /\ UNCHANGED <<wx, ph>>
              ELSE /\ wpc' = [wpc EXCEPT ![w] = "work"] /\ wx' = [wx EXCEPT ![w] = q[1]]
                   /\ ph' = [ph EXCEPT ![q[1]] = "prepared"]
           /\ UNCHANGED <<r, dpc>> /\ UNCHANGED rest
Finish(w) == /\ wpc[w] = "work" /\ wpc' = [wpc EXCEPT ![w] = "give"] /\ ph' = [ph EXCEPT ![wx[w]] = "ended"]
             /\ UNCHANGED <<q, r, wx, dpc>> /\ UNCHANGED rest
Give(w) == /\ wpc[w] = "give" /\ Len(r) < Cap /\ r' = Append(r, wx[w]) /\ wpc' = [wpc EXCEPT ![w] = "wait"]
           /\ UNCHANGED <<q, wx, ph, dpc>> /\ UNCHANGED rest

(* Driver, free *)
Submit(x) == /\ dpc = "open" /\ Mode = "free" /\ nsub < MaxSubmit /\ ph[x] = Idle /\ Len(q) < Cap
             /\ q' = Append(q, x) /\ ph' = [ph EXCEPT ![x] = "submitted"] /\ nsub' = nsub + 1
             /\ UNCHANGED <<r, wpc, wx, dpc, batch, sub, got, upd, failed, stops, outcome>>
Receive == /\ dpc = "open" /\ Mode = "free" /\ r # <<>> /\ r' = Tail(r)
           /\ ph' = [ph EXCEPT ![r[1]] = Idle]
           /\ UNCHANGED <<q, wpc, wx, dpc>> /\ UNCHANGED rest
Destroy == /\ dpc = "open" /\ dpc' = "drainq" /\ UNCHANGED <<q, r, wpc, wx, ph>> /\ UNCHANGED rest

(* Shutdown: drop queued examples, drop results, one stop mark per worker.  *)
DrainQ == /\ dpc = "drainq" /\ IF q = <<>> THEN dpc' = "drainr" /\ UNCHANGED <<q, ph>>
                               ELSE q' = Tail(q) /\ ph' = [ph EXCEPT ![q[1]] = Idle] /\ UNCHANGED dpc
          /\ UNCHANGED <<r, wpc, wx>> /\ UNCHANGED rest
DrainR == /\ dpc = "drainr" /\ IF r = <<>> THEN dpc' = "stop" /\ UNCHANGED r ELSE r' = Tail(r) /\ UNCHANGED dpc
          /\ UNCHANGED <<q, wpc, wx, ph>> /\ UNCHANGED rest
Stop == /\ dpc = "stop" /\ stops' = stops + 1 /\ dpc' = (IF stops' = N THEN "join" ELSE "stop")
        /\ q' = (IF Len(q) < Cap THEN Append(q, STOP) ELSE q)   \* nobody looks at a refusal
        /\ UNCHANGED <<r, wpc, wx, ph, batch, sub, got, upd, failed, nsub, outcome>>
Join == /\ dpc = "join" /\ \A w \in Workers : wpc[w] = "ended" /\ dpc' = "gone"
        /\ UNCHANGED <<q, r, wpc, wx, ph>> /\ UNCHANGED rest

(* Driver, batch loop *)
Cur == Batches[batch]
Fill == /\ dpc = "fill" /\ batch <= Len(Batches)
        /\ IF sub < Len(Cur) /\ Len(q) < Cap
           THEN /\ q' = Append(q, Cur[sub + 1]) /\ ph' = [ph EXCEPT ![Cur[sub + 1]] = "submitted"] /\ sub' = sub + 1
                /\ UNCHANGED dpc
           ELSE dpc' = "await" /\ UNCHANGED <<q, ph, sub>>
        /\ UNCHANGED <<r, wpc, wx, batch, got, upd, failed, nsub, stops, outcome>>
EndBatch(res) == /\ outcome' = Append(outcome, res) /\ batch' = batch + 1 /\ sub' = 0 /\ got' = 0 /\ failed' = FALSE
                 /\ dpc' = (IF batch' > Len(Batches) THEN "drainq" ELSE "fill")
Await == /\ dpc = "await" /\ r # <<>> /\ r' = Tail(r) /\ ph' = [ph EXCEPT ![r[1]] = Idle]
         /\ IF failed \/ r[1] \in Failing
            THEN \* the others of the batch are waited for, nobody is submitted any more
                 /\ UNCHANGED upd
                 /\ IF got + 1 = sub THEN EndBatch("err")
                    ELSE got' = got + 1 /\ failed' = TRUE /\ UNCHANGED <<batch, sub, outcome, dpc>>
            ELSE /\ upd' = Append(upd, <<batch, r[1]>>)
                 /\ IF got + 1 = Len(Cur) THEN EndBatch("ok")
                    ELSE got' = got + 1 /\ dpc' = "fill" /\ UNCHANGED <<batch, sub, outcome, failed>>
         /\ UNCHANGED <<q, wpc, wx, nsub, stops>>

Done == dpc = "gone" /\ UNCHANGED vars
Worker(w) == Take(w) \/ Finish(w) \/ Give(w)
DriverStep == (\E x \in Examples : Submit(x)) \/ Receive \/ Destroy
Closing == DrainQ \/ DrainR \/ Stop \/ Join
Loop == Fill \/ Await
Next == (\E w \in Workers : Worker(w)) \/ DriverStep \/ Closing \/ Loop \/ Done
Spec == Init /\ [][Next]_vars /\ \A w \in Workers : WF_vars(Worker(w)) /\ WF_vars(Closing) /\ WF_vars(Loop)

(* Properties *)
Bounded == Len(q) <= Cap /\ Len(r) <= Cap
Places(x) == Cardinality({i \in DOMAIN q : q[i] = x}) + Cardinality({i \in DOMAIN r : r[i] = x})
             + Cardinality({w \in Workers : wx[w] = x /\ wpc[w] \in {"work", "give"}})
(* An example is in one place: nothing is processed or delivered twice, and  *)
(* nothing is lost.                                                          *)
Once == dpc \in {"open", "fill", "await"} => \A x \in Examples : Places(x) = (IF ph[x] = Idle THEN 0 ELSE 1)
NothingLeft == dpc = "gone" => InHands(ph) = {}
StopsFit == dpc = "join" => stops = N /\ Len(SelectSeq(q, LAMBDA x : x = STOP)) + Cardinality({w \in Workers : wpc[w] = "ended"}) = N
BatchesApart ==
    /\ \A i, j \in DOMAIN upd : i # j => upd[i] # upd[j]
    /\ \A i \in DOMAIN upd : \E k \in DOMAIN Batches[upd[i][1]] : Batches[upd[i][1]][k] = upd[i][2]
    /\ \A b \in DOMAIN outcome :
         outcome[b] = "ok" <=> /\ \A k \in DOMAIN Batches[b] : Batches[b][k] \notin Failing
                               /\ \A k \in DOMAIN Batches[b] : \E i \in DOMAIN upd : upd[i] = <<b, Batches[b][k]>>
Ends == (dpc = "drainq") ~> (dpc = "gone")
LoopEnds == (dpc = "fill") ~> (dpc = "gone")
=============================================================================
