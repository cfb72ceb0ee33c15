----------------------------- MODULE T_Codegen -----------------------------
(* The same analysis twice: with interpreted features (c.a) and with the    *)
(* feature code generated from the specification (c.b).  Both are the same  *)
(* function of the model, the settings and the text: everything observed of *)
(* one is observed of the other.  (That the values are right is decided for *)
(* the generated code by Lattice.tla and Features.tla.)                     *)
EXTENDS TraceCommon
Same(a, b, f) == (f \in DOMAIN a) = (f \in DOMAIN b) /\ (f \in DOMAIN a => a[f] = b[f])
Fields == {"ok", "stage", "ib", "cp", "n", "k", "G", "nn", "p"}
\* the boundaries of the lattice; no global beam is made where nothing starts
Part(r, f) == IF f \in DOMAIN r THEN r[f] ELSE <<>>
SameB(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a :
    /\ \A f \in {"e", "se", "b"} : Part(a[i], f) = Part(b[i], f)
    /\ Len(a[i].se) > 0 => Part(a[i], "g") = Part(b[i], "g")
\* an empty text has nothing to score: its end node has no patterns
TOk(c) ==
    /\ \A f \in Fields : Same(c.a, c.b, f) \/ ~PrintT(<<"DIFFERS", f, idx>>)
    /\ SameB(Part(c.a, "B"), Part(c.b, "B")) \/ ~PrintT(<<"DIFFERS", "B", idx>>)
    /\ ("cp" \in DOMAIN c.a /\ Len(c.a.cp) > 0 => Same(c.a, c.b, "tr")) \/ ~PrintT(<<"DIFFERS", "tr", idx>>)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
