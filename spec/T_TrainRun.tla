----------------------------- MODULE T_TrainRun -----------------------------
EXTENDS TraceCommon, TrainRun
TOk(c) == IF ~c.ok THEN ~PrintT(<<"STATUS", idx, c.msg>>)
          ELSE LET b == FirstBad(c, <<>>, 1) IN b = 0 \/ ~PrintT(<<"EVENT", idx, b, c.ev[b].op>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
