------------------------------- MODULE T_Queue -------------------------------
EXTENDS TraceCommon, BoundedQueue
(* kind "history": cap, threads (1..n), events                              *)
(* kind "stress": accepted elements per producer in order, and what each    *)
(*   consumer received in order (elements are 1000 * producer + number)     *)
StressOk(c) ==
    LET sent == UNION {{c.accepted[p][i] : i \in DOMAIN c.accepted[p]} : p \in DOMAIN c.accepted}
        got == UNION {{c.got[k][i] : i \in DOMAIN c.got[k]} : k \in DOMAIN c.got}
        total(f) == FoldLeft(LAMBDA a, s : a + Len(s), 0, f)
    IN /\ got = sent
       /\ total(c.got) = Cardinality(got)
       /\ total(c.accepted) = Cardinality(sent)
       \* a consumer sees the elements of one producer in the order offered
       /\ \A k \in DOMAIN c.got : \A i \in 1..(Len(c.got[k]) - 1) :
            \A j \in (i + 1)..Len(c.got[k]) :
              (c.got[k][i] \div 1000 = c.got[k][j] \div 1000) => c.got[k][i] < c.got[k][j]
       /\ c.maxsize <= c.cap
TOk(c) == IF c.kind = "history" THEN Linearizable(c.cap, 1..c.n, c.ev)
          ELSE ~c.stuck /\ StressOk(c)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
