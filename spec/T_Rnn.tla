------------------------------- MODULE T_Rnn -------------------------------
EXTENDS TraceCommon, Rnn
Nets == ndJsonDeserialize(IOEnv.NETS)
TOk(c) ==
    LET r == Nets[c.r]
    IN /\ c.ok = c.ok0 \/ ~PrintT(<<"STATUS", idx>>)
       /\ (c.ok /\ ~c.empty) =>
            /\ SameSearch(c) \/ ~PrintT(<<"SEARCH", idx>>)
            /\ Clear(c, r) => (\A i \in DOMAIN c.p1 : PathOk(c, r, c.p1[i]) \/ ~PrintT(<<"PATH", idx, i>>))
            /\ EosOk(c, r) \/ ~PrintT(<<"EOS", idx>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
