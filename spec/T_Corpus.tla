------------------------------ MODULE T_Corpus ------------------------------
EXTENDS TraceCommon, Corpus
TOk(c) == LET x == Examples(c.fmt, c.text, c.x.nf, c.x.sf)
          IN Constrained(c.fmt, c.text, x) =>
             /\ ReadOk(c, x) \/ ~PrintT(<<"READ", idx, Len(x.ex), x.bad>>)
             /\ BatchesOk(c) \/ ~PrintT(<<"BATCHES", idx>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
