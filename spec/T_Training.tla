----------------------------- MODULE T_Training -----------------------------
EXTENDS TraceCommon, Training
TOk(c) == IF ~c.ok THEN ~PrintT(<<"STATUS", c.stage>>)
          ELSE /\ GoldOk(c) \/ ~PrintT(<<"GOLD", idx, {i \in DOMAIN c.gold : ~GoldWordOk(c, i)}>>)
               /\ PathsOk(c) \/ ~PrintT(<<"PATHS", idx>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
