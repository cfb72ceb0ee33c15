------------------------------- MODULE T_Scw -------------------------------
EXTENDS TraceCommon, Scw
TOk(c) == \A i \in DOMAIN c.ev : UpdateOk(c.phi4, c.ev[i]) \/ ~PrintT(<<"EVENT", idx, i, c.ev[i]>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
