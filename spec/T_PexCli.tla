------------------------------ MODULE T_PexCli -------------------------------
(* What the program prints for a stream of sentences with annotations that   *)
(* are made of entries of the dictionary.  c.text: the stream, c.names,      *)
(* c.emp: fields as in Pex; c.blocks: for each sentence of the output        *)
(* [com, ms: <<surface, rows>> ...]                                          *)
EXTENDS TraceCommon, Pex
RECURSIVE Ends(_, _, _)
Ends(ms, i, acc) == IF i > Len(ms) THEN acc
                    ELSE Ends(ms, i + 1, Append(acc, (IF acc = <<>> THEN 0 ELSE acc[Len(acc)]) + Size(ms[i][1])))
BlockOk(c, e, b) ==
    LET ends == Ends(b.ms, 1, <<>>)
        P(i) == IF i = 1 THEN 0 ELSE ends[i - 1]
    IN /\ b.com = e.com
       /\ FlattenSeq([i \in DOMAIN b.ms |-> b.ms[i][1]]) = e.text
       /\ \A i \in DOMAIN b.ms : Fits(c, e, P(i), ends[i], b.ms[i][2])
TOk(c) == LET es == SelectSeq(Sentences(c.text, RangeOf(c.names)), LAMBDA e : e.text # <<>>)
              bs == SelectSeq(c.blocks, LAMBDA b : b.ms # <<>>)
          IN /\ c.rc = 0 /\ Len(es) = Len(bs)
             /\ \A i \in DOMAIN es : es[i].bad = 0 /\ BlockOk(c, es[i], bs[i])
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
