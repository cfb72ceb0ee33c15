---------------------------- MODULE T_Dictionary ----------------------------
(* Observations: q = lookup of a key, t = the template rows.                *)
EXTENDS TraceCommon, Dictionary
Models == ndJsonDeserialize(IOEnv.MODELS)
Distinct(seq) == Cardinality({seq[i] : i \in DOMAIN seq}) = Len(seq)
(* Refused: malformed rows, or grouping by a field no feature refers to. *)
Refused(M) == M.bad \/ \E i \in DOMAIN M.alias : M.alias[i] \notin InFeat(M)
TOk(c) ==
    LET M == Models[c.m] IN
    CASE c.kind # "fail" /\ Refused(M) -> FALSE
      []  c.kind = "q" -> /\ c.st = Status(M, c.q)
                         /\ SameRows(M, c.rows, RowsOf(M, c.q))
      [] c.kind = "t" -> \A i \in DOMAIN c.t :
             LET row == c.t[i][1] got == c.t[i][2] IN
             IF row \in DOMAIN M.rows
             THEN NormRows(M.types, got) = NormRows(M.types, <<M.rows[row].v>>)
             ELSE TRUE
      [] c.kind = "fail" -> c.stage = "import_csv" /\ Refused(M)
      [] OTHER -> FALSE
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
