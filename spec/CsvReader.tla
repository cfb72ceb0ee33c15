----------------------------- MODULE CsvReader -----------------------------
(* The row reader for character separated files (dictionaries, feature      *)
(* files), as a state machine over the characters of the file.              *)
(*                                                                          *)
(* Rows end with LF, CRLF or the end of the file; a CR right after the LF   *)
(* belongs to the line end.  A field that starts with the quote character   *)
(* extends to the closing quote; a doubled quote inside stands for one      *)
(* quote.  A quote character inside an unquoted field, anything but a       *)
(* separator or line end after a closing quote, and a quote that is never   *)
(* closed make the file malformed from that row on: the rows before it have *)
(* been delivered, it is not, and neither is anything after it.             *)
EXTENDS Integers, Sequences, SequencesExt

LF == 10
CR == 13

St0 == [rows |-> <<>>, fields |-> <<>>, cur |-> <<>>, mode |-> "row"]

EndField(st) == [st EXCEPT !.fields = Append(@, st.cur), !.cur = <<>>]
EndRow(st, m) ==
    [st EXCEPT !.rows = Append(@, Append(st.fields, st.cur)),
               !.fields = <<>>, !.cur = <<>>, !.mode = m]
Put(st, c, m) == [st EXCEPT !.cur = Append(@, c), !.mode = m]

(* modes: row    nothing of the row has been read                           *)
(*        lf     as row, directly after an LF                               *)
(*        field  at the start of a field that is not the first              *)
(*        plain  inside an unquoted field                                   *)
(*        cr     inside an unquoted field, the last character was CR        *)
(*        quoted inside a quoted field                                      *)
(*        qend   after a quote inside a quoted field                        *)
(*        qcr    after the closing quote and CR                             *)
(*        bad    malformed          unspec  not constrained                 *)
RECURSIVE Feed(_, _, _, _)
Feed(sep, quote, st, c) ==
    CASE st.mode \in {"bad", "unspec"} -> st
      [] st.mode = "lf" /\ c = CR -> [st EXCEPT !.mode = "row"]
      [] st.mode \in {"row", "lf", "field"} ->
            CASE c = quote -> [st EXCEPT !.mode = "quoted"]
              [] c = sep -> [EndField(st) EXCEPT !.mode = "field"]
              [] c = LF -> EndRow(st, "lf")
              [] c = CR -> [st EXCEPT !.mode = "cr"]
              [] OTHER -> Put(st, c, "plain")
      [] st.mode = "plain" ->
            CASE c = quote -> [st EXCEPT !.mode = "bad"]
              [] c = sep -> [EndField(st) EXCEPT !.mode = "field"]
              [] c = LF -> EndRow(st, "lf")
              [] c = CR -> [st EXCEPT !.mode = "cr"]
              [] OTHER -> Put(st, c, "plain")
      [] st.mode = "cr" ->
            IF c = LF THEN EndRow(st, "row")
            ELSE Feed(sep, quote, Put(st, CR, "plain"), c)
      [] st.mode = "quoted" ->
            IF c = quote THEN [st EXCEPT !.mode = "qend"] ELSE Put(st, c, "quoted")
      [] st.mode = "qend" ->
            CASE c = quote -> Put(st, c, "quoted")
              [] c = sep -> [EndField(st) EXCEPT !.mode = "field"]
              [] c = LF -> EndRow(st, "lf")
              [] c = CR -> [st EXCEPT !.mode = "qcr"]
              [] OTHER -> [st EXCEPT !.mode = "bad"]
      [] st.mode = "qcr" ->
            IF c = LF THEN EndRow(st, "row") ELSE [st EXCEPT !.mode = "unspec"]

Finish(st) ==
    CASE st.mode \in {"row", "lf", "bad", "unspec"} -> st
      [] st.mode = "quoted" -> [st EXCEPT !.mode = "bad"]
      [] st.mode = "cr" -> EndRow(Put(st, CR, "plain"), "row")
      [] st.mode = "qcr" -> [st EXCEPT !.mode = "unspec"]
      [] OTHER -> EndRow(st, "row")

Read(sep, quote, s) ==
    Finish(FoldLeft(LAMBDA st, c : Feed(sep, quote, st, c), St0, s))

(* The way back: every field quoted, rows ended with LF. *)
QuoteField(quote, f) ==
    <<quote>> \o FoldLeft(LAMBDA acc, c : acc \o (IF c = quote THEN <<quote, quote>> ELSE <<c>>),
                          <<>>, f) \o <<quote>>
RECURSIVE Join(_, _)
Join(sep, fs) == IF Len(fs) = 0 THEN <<>>
                 ELSE IF Len(fs) = 1 THEN fs[1]
                 ELSE fs[1] \o <<sep>> \o Join(sep, Tail(fs))
Write(sep, quote, rows) ==
    FoldLeft(LAMBDA acc, r : acc \o Join(sep, [i \in DOMAIN r |-> QuoteField(quote, r[i])]) \o <<LF>>,
             <<>>, rows)
=============================================================================
