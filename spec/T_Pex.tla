-------------------------------- MODULE T_Pex --------------------------------
(* c.text: the stream; c.read: sentences from the file reader up to the     *)
(* first error (c.ok: there was none; c.at: numbers in its message);        *)
(* c.stream: what the stream reader gave, sentence by sentence: [ok, text,  *)
(* com]; c.x: names, known values and empty values of the training fields   *)
EXTENDS TraceCommon, Pex
Bads(es) == {i \in DOMAIN es : es[i].bad > 0}
ReadOk(c, es, tail) ==
    LET b == Bads(es)
        n == IF b = {} THEN Len(es) ELSE (CHOOSE i \in b : \A j \in b : i <= j) - 1
        os == SelectSeq(c.read, LAMBDA o : o.text # <<>>)
        ws == SelectSeq(SubSeq(es, 1, n), LAMBDA e : e.text # <<>>)
    IN /\ c.ok = (b = {} /\ ~tail)
       /\ (b # {}) => es[n + 1].bad \in RangeOf(c.at)
       (* a sentence that ends in a malformed part of the file is not there *)
       /\ LET m == IF b = {} /\ tail /\ Len(os) = Len(ws) - 1 THEN Len(ws) - 1 ELSE Len(ws)
          IN /\ Len(os) = m
             /\ \A i \in 1..m : ExIs(ws[i], os[i], c.x)
StreamOk(c, es) ==
    LET os == SelectSeq(c.stream, LAMBDA o : ~o.ok \/ o.text # <<>>)
        ws == SelectSeq(es, LAMBDA e : HasText(e))
    IN /\ Len(os) = Len(ws)
       /\ \A i \in DOMAIN os : IF ws[i].bad > 0 THEN ~os[i].ok
                               ELSE os[i].ok /\ os[i].text = ws[i].text /\ os[i].com = ws[i].com
LoneCr(t) == \E i \in DOMAIN t : t[i] = CR /\ ~(i < Len(t) /\ t[i + 1] = LF)
TOk(c) == LET es == Sentences(c.text, RangeOf(c.x.names))
              tail == Rows(c.text).bad
          IN (* a file without content can not be opened *)
             /\ c.text = <<>> \/ ReadOk(c, es, tail) \/ ~PrintT(<<"READ", idx, Len(es), tail>>)
             /\ (LoneCr(c.text) \/ NUL \in RangeOf(c.text)) \/ StreamOk(c, es) \/ ~PrintT(<<"STREAM", idx, Len(es)>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
