------------------------------ MODULE MC_Queue ------------------------------
(* The queue as built from a lock, a condition variable and a ring of       *)
(* Cap slots: every interleaving, with spurious wake-ups, of producers that *)
(* offer, consumers that wait and pollers.                                  *)
EXTENDS BoundedQueue, TLC
CONSTANTS Cap, Producers, Waiters, Pollers, PerThread
VARIABLES owner,      \* thread that holds the lock, or "none"
          ring, head, tail,
          pc, left,   \* program counter and operations left of each thread
          asleep,     \* threads waiting on the condition variable
          accepted, delivered, hist, confs
vars == <<owner, ring, head, tail, pc, left, asleep, accepted, delivered, hist, confs>>
Threads == Producers \cup Waiters \cup Pollers
Kind(t) == IF t \in Producers THEN "offer" ELSE IF t \in Waiters THEN "wait" ELSE "poll"
NextItem(t) == PerThread * (CHOOSE i \in 1..9 : ToString(i) = t) + left[t]

Init == /\ owner = "none" /\ ring = [i \in 0..(Cap - 1) |-> 0] /\ head = 0 /\ tail = 0
        /\ pc = [t \in Threads |-> "idle"] /\ left = [t \in Threads |-> PerThread]
        /\ asleep = {} /\ accepted = <<>> /\ delivered = <<>> /\ hist = <<>>
        /\ confs = {Conf0(Threads)}

Log(e) == hist' = hist \* histories themselves are not kept: the set of
                       \* configurations of the atomic object is
Ev(e) == confs' = OnEvent(Cap, confs, e)
Size == head - tail

Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ Ev([e |-> "call", t |-> t, op |-> Kind(t), v |-> NextItem(t), r |-> 0])
           /\ pc' = [pc EXCEPT ![t] = "lock"]
           /\ UNCHANGED <<owner, ring, head, tail, left, asleep, accepted, delivered, hist>>
Lock(t) == /\ pc[t] \in {"lock", "relock"} /\ owner = "none"
           /\ owner' = t /\ pc' = [pc EXCEPT ![t] = "body"]
           /\ UNCHANGED <<ring, head, tail, left, asleep, accepted, delivered, hist, confs>>
Return(t, res) == /\ Ev([e |-> "ret", t |-> t, v |-> res])
                  /\ left' = [left EXCEPT ![t] = @ - 1]
                  /\ pc' = [pc EXCEPT ![t] = "idle"]
                  /\ owner' = "none"
OfferFull(t) == /\ pc[t] = "body" /\ Kind(t) = "offer" /\ Cap - Size <= 0
                /\ Return(t, Refused) /\ UNCHANGED <<ring, head, tail, asleep, accepted, delivered, hist>>
OfferPut(t) == /\ pc[t] = "body" /\ Kind(t) = "offer" /\ Cap - Size > 0
               /\ ring' = [ring EXCEPT ![head % Cap] = NextItem(t)] /\ head' = head + 1
               /\ accepted' = Append(accepted, NextItem(t))
               /\ pc' = [pc EXCEPT ![t] = "notify"]
               /\ UNCHANGED <<owner, tail, left, asleep, delivered, hist, confs>>
Notify(t) == /\ pc[t] = "notify"
             /\ IF asleep = {} THEN UNCHANGED asleep ELSE \E u \in asleep : asleep' = asleep \ {u}
             /\ Return(t, Accepted)
             /\ UNCHANGED <<ring, head, tail, accepted, delivered, hist>>
Take(t) == /\ pc[t] = "body" /\ Kind(t) # "offer" /\ Size > 0
           /\ delivered' = Append(delivered, ring[tail % Cap]) /\ tail' = tail + 1
           /\ Return(t, ring[tail % Cap])
           /\ UNCHANGED <<ring, head, asleep, accepted, hist>>
PollEmpty(t) == /\ pc[t] = "body" /\ Kind(t) = "poll" /\ Size = 0
                /\ Return(t, Refused) /\ UNCHANGED <<ring, head, tail, asleep, accepted, delivered, hist>>
Sleep(t) == /\ pc[t] = "body" /\ Kind(t) = "wait" /\ Size = 0
            /\ asleep' = asleep \cup {t} /\ owner' = "none" /\ pc' = [pc EXCEPT ![t] = "relock"]
            /\ UNCHANGED <<ring, head, tail, left, accepted, delivered, hist, confs>>
Wake(t) == /\ t \in asleep /\ asleep' = asleep \ {t}   \* spurious
           /\ UNCHANGED <<owner, ring, head, tail, pc, left, accepted, delivered, hist, confs>>
LockAwake(t) == t \notin asleep /\ Lock(t)

Next == \E t \in Threads : Call(t) \/ LockAwake(t) \/ OfferFull(t) \/ OfferPut(t) \/ Notify(t)
                           \/ Take(t) \/ PollEmpty(t) \/ Sleep(t) \/ Wake(t)
Spec == Init /\ [][Next]_vars

Bounded == Size >= 0 /\ Size <= Cap
Fifo == delivered = SubSeq(accepted, 1, Len(delivered))
Once == Cardinality({accepted[i] : i \in DOMAIN accepted}) = Len(accepted)
Atomic == confs # {}
(* No lost wake-up: a sleeper that nobody will wake waits for an empty queue. *)
Runnable(t) == pc[t] \in {"body", "notify"} \/ (pc[t] = "idle" /\ left[t] > 0)
               \/ (pc[t] \in {"lock", "relock"} /\ t \notin asleep)
NoLostWakeup == (\A t \in Threads : ~Runnable(t)) /\ asleep # {} => Size = 0
=============================================================================
