---------------------------- MODULE MC_BinCodec ----------------------------
(* A writer appends operations; at every point everything written reads     *)
(* back, and every proper prefix of the bytes is noticed.                   *)
EXTENDS BinCodec
CONSTANTS MaxOps
VARIABLE ops
Ints == {<<0>>, <<127>>, <<0, 1>>, <<127, 127>>, <<1, 0, 0, 1>>, [i \in 1..10 |-> IF i = 10 THEN 1 ELSE 127]}
Strs == {<<>>, <<0>>, <<128, 128>>, <<1, 2, 3>>, [i \in 1..130 |-> i % 7]}
Words == {<<0, 0, 0, 0>>, <<255, 128, 127, 1>>}
Init == ops = <<>>
Next == Len(ops) < MaxOps /\
        \/ \E v \in Ints : ops' = Append(ops, [t |-> "int", v |-> v])
        \/ \E v \in Strs : ops' = Append(ops, [t |-> "str", v |-> v])
        \/ \E v \in Words : ops' = Append(ops, [t |-> "word", v |-> v])
Types == [i \in DOMAIN ops |-> ops[i].t]
Vals == [i \in DOMAIN ops |-> ops[i].v]
RoundTrip == LET s == EncAll(ops) d == DecAll(Types, s, 1, <<>>) IN d.vals = Vals /\ d.next = Len(s) + 1
Cut == LET s == EncAll(ops) IN \A k \in 0..(Len(s) - 1) :
          LET d == DecAll(Types, SubSeq(s, 1, k), 1, <<>>) IN
          d.next = 0 /\ IsPrefix(d.vals, Vals) /\ Len(d.vals) < Len(ops)
(* Data that follows is not disturbed and does not disturb. *)
Followed == LET s == EncAll(ops) \o <<200, 200>> d == DecAll(Types, s, 1, <<>>) IN d.vals = Vals /\ d.next = Len(s) - 1
=============================================================================
