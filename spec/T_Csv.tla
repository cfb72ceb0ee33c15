------------------------------- MODULE T_Csv -------------------------------
(* Observation: sep, quote, in, rows delivered, bad (stopped before the end *)
(* of the input), runaway (did not stop), again (a further call delivered   *)
(* a row after the reader had said there is none).                          *)
EXTENDS TraceCommon, CsvReader
TOk(c) ==
    LET e == Read(c.sep, c.quote, c.in)
    IN e.mode = "unspec" \/
       /\ ~c.runaway /\ ~c.again
       /\ c.rows = e.rows
       /\ c.bad = (e.mode = "bad")
       /\ c.lineno = Len(e.rows) + (IF e.mode = "bad" THEN 1 ELSE 0)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
