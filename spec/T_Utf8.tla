------------------------------- MODULE T_Utf8 -------------------------------
EXTENDS TraceCommon, Utf8
(* kind "decode": in, ok, chars <<codepoint, class, byte range ...>> as    *)
(*   recorded from the decoder; count from the character counter.           *)
(* kind "class": code points from.. and their classes.                      *)
Offsets(chars) == [i \in DOMAIN chars |-> FoldLeft(LAMBDA a, c : a + c[2], 0, SubSeq(chars, 1, i - 1))]
TOk(c) ==
    CASE c.kind = "decode" ->
           LET d == Decode(c.in) o == Offsets(d.chars) IN
           /\ c.ok = d.ok
           /\ d.ok => /\ Len(c.chars) = Len(d.chars)
                      /\ \A i \in DOMAIN d.chars :
                            c.chars[i] = <<d.chars[i][1], Class(d.chars[i][1]), o[i], o[i] + d.chars[i][2]>>
                      /\ c.count = Len(d.chars)
      [] c.kind = "class" -> \A i \in DOMAIN c.cls : c.cls[i] = Class(c.from + i - 1)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
