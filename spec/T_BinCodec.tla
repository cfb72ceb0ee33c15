---------------------------- MODULE T_BinCodec ----------------------------
EXTENDS TraceCommon, BinCodec
Types(ops) == [i \in DOMAIN ops |-> ops[i].t]
Vals(ops) == [i \in DOMAIN ops |-> ops[i].v]
(* ops:    what was written, bytes: what the writer produced, vals: what    *)
(*         the reader gave back, cuts[k+1]: values read from the first k    *)
(*         bytes before the first refusal (their number), overrun: the      *)
(*         reader left its data                                             *)
(* raw:    any bytes read as an integer                                     *)
(* struct: a structure written as ops (its flattened members), back: equal  *)
(*         after loading, cutok[k+1]: loading the first k bytes succeeded   *)
TOk(c) ==
    CASE c.kind = "ops" ->
           /\ c.bytes = EncAll(c.ops)
           /\ c.vals = Vals(c.ops) /\ c.consumed = Len(c.bytes) /\ ~c.overrun
           /\ \A k \in 0..(Len(c.bytes) - 1) :
                 c.cuts[k + 1] = Len(DecAll(Types(c.ops), SubSeq(c.bytes, 1, k), 1, <<>>).vals)
      [] c.kind = "raw" ->
           LET d == DecInt(c.in, 1) IN
           /\ c.ok = d.ok
           /\ d.ok => c.v = d.v /\ c.consumed = d.next - 1
      [] c.kind = "struct" ->
           /\ c.bytes = EncAll(c.ops)
           /\ c.back
           /\ \A k \in DOMAIN c.cutok : ~c.cutok[k]
           /\ ~c.extra
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
