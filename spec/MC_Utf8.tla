------------------------------ MODULE MC_Utf8 ------------------------------
EXTENDS Utf8
CONSTANTS Bytes, MaxLen
VARIABLES inp, st
Init == inp = <<>> /\ st = D0
Next == Len(inp) < MaxLen /\ \E b \in Bytes : inp' = Append(inp, b) /\ st' = Byte(st, b)
Spec == Init /\ [][Next]_<<inp, st>>
SumLen(cs) == FoldLeft(LAMBDA a, c : a + c[2], 0, cs)
(* Decoded characters and the pending part account for every byte. *)
Cover == st.ok => SumLen(st.chars) + (st.len - st.todo) * (IF st.todo > 0 THEN 1 ELSE 0) = Len(inp)
(* A string of canonical characters decodes to what was encoded. *)
Canonical == LET d == Decode(inp) IN d.ok =>
    LET cps == [i \in DOMAIN d.chars |-> d.chars[i][1]] IN Codepoints(EncodeAll(cps)) = cps
(* Failure is final and characters decoded are never revised. *)
Sticky == [][~st.ok => ~st'.ok]_<<inp, st>>
Monotone == [][IsPrefix(st.chars, st'.chars)]_<<inp, st>>
=============================================================================
