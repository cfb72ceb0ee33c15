------------------------------ MODULE T_Input ------------------------------
(* A07: accepted texts are exactly those within the limits; with a rule for *)
(* every single character all accepted texts are analysed.                  *)
EXTENDS TraceCommon, Analyser

MaxBytes(c) == IF "maxin" \in DOMAIN c.c THEN c.c.maxin ELSE 4096

PathOk(c) ==
    LET n == TextChars(c) IN
    IF "plen" \in DOMAIN c THEN c.joined /\ c.pend = n /\ (n > 0 => c.plen > 0)
    ELSE IF n = 0 THEN c.p = <<>>
    ELSE /\ Len(c.p) > 0
         /\ c.p[1][3] = 0
         /\ c.p[Len(c.p)][4] = n
         /\ \A i \in 2..Len(c.p) : c.p[i][3] = c.p[i - 1][4]

TOk(c) ==
    IF "upto" \in DOMAIN c THEN TRUE
    ELSE IF Refused(c, MaxBytes(c)) THEN ~c.ok /\ c.stage = "reset"
    ELSE \/ c.ok /\ PathOk(c)
         \/ MayRefuse(c, MaxBytes(c)) /\ ~c.ok /\ c.stage = "reset"
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
