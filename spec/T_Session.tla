------------------------------ MODULE T_Session ------------------------------
(* A06: histories of one analyser.  One observation is a session:           *)
(*   conf   the settings it was created with                                *)
(*   calls  [op |-> "gb", v |-> <<left, check, right>>]                     *)
(*          [op |-> "cut", ib]      an analysis that was given up           *)
(*          [op |-> "in", ib, rep, o]  o: everything observable of it       *)
(*   alone  the answers of analysers that do nothing else:                  *)
(*          [gb, ib, o], one for every text and setting of the session      *)
EXTENDS TraceCommon, Analyser

Alone(c, gb, ib) == CHOOSE a \in {c.alone[k] : k \in DOMAIN c.alone} : a.gb = gb /\ a.ib = ib
HasAlone(c, gb, ib) == \E k \in DOMAIN c.alone : c.alone[k].gb = gb /\ c.alone[k].ib = ib

(* the state of the specification: the settings, nothing else *)
RECURSIVE Run(_, _, _)
Run(c, k, gb) ==
    IF k > Len(c.calls) THEN TRUE
    ELSE LET x == c.calls[k] IN
         CASE x.op = "gb" -> Run(c, k + 1, x.v)
           [] x.op = "cut" -> Run(c, k + 1, gb)
           [] OTHER -> /\ HasAlone(c, gb, x.ib)
                       /\ x.o = Alone(c, gb, x.ib).o
                       /\ (Refused([ib |-> x.ib, rep |-> 1], c.maxin) => ~x.o.ok)
                       /\ Run(c, k + 1, gb)

TOk(c) == Run(c, 1, c.gb)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
