--------------------------------- MODULE Pex ---------------------------------
(* Streams of partially annotated sentences.  Lines of a sentence are       *)
(*   # text               a comment                                         *)
(*   text                 a stretch of text; & forbids a boundary           *)
(*   TAB word TAB f:v ... a word with values of its fields                  *)
(* and there is a boundary between what two lines have.  An empty line or   *)
(* the end of the stream ends the sentence.  Any other line is an error.    *)
EXTENDS Utf8, CsvReader, FiniteSets

TAB == 9
Amp == 38
Hash == 35
Colon == 58
NUL == 0

RawStep(s, c) ==
    LET st == Feed(TAB, NUL, s.st, c)
        skip == s.st.mode = "lf" /\ c = CR
        raw == IF skip THEN s.raw ELSE Append(s.raw, c)
    IN IF Len(st.rows) > Len(s.st.rows) THEN [st |-> st, raw |-> <<>>, raws |-> Append(s.raws, raw)]
       ELSE [s EXCEPT !.st = st, !.raw = raw]
RECURSIVE Chop(_)
Chop(r) == IF Len(r) > 0 /\ r[Len(r)] \in {LF, CR} THEN Chop(SubSeq(r, 1, Len(r) - 1)) ELSE r
Rows(text) ==
    LET s == FoldLeft(LAMBDA a, c : RawStep(a, c), [st |-> St0, raw |-> <<>>, raws |-> <<>>], text)
        st == Finish(s.st)
        raws == IF Len(st.rows) > Len(s.raws) THEN Append(s.raws, s.raw) ELSE s.raws
    IN [rows |-> [i \in DOMAIN st.rows |-> [f |-> st.rows[i], raw |-> Chop(raws[i])]], bad |-> st.mode = "bad"]

(* A sentence that is being read: length in characters, required and forbidden boundaries. *)
E0 == [text |-> <<>>, n |-> 0, req |-> {}, no |-> {}, words |-> <<>>, com |-> <<>>, line |-> 0, bad |-> 0]
Size(bytes) == Len(Decode(bytes).chars)
Stretch(e, bytes) ==
    LET cs == Codepoints(bytes)
        st == FoldLeft(LAMBDA a, c : IF c = Amp THEN [a EXCEPT !.no = @ \cup {a.n}] ELSE [a EXCEPT !.n = @ + 1],
                       [n |-> e.n, no |-> e.no], cs)
    IN [e EXCEPT !.text = @ \o SelectSeq(bytes, LAMBDA b : b # Amp), !.n = st.n, !.no = st.no, !.req = @ \cup {st.n}]
SplitAt(v) == {i \in DOMAIN v : v[i] = Colon /\ \A j \in 1..(i - 1) : v[j] # Colon}
TagOk(v, names) == /\ SplitAt(v) # {}
                   /\ LET i == CHOOSE k \in SplitAt(v) : TRUE
                      IN SubSeq(v, 1, i - 1) \in names /\ Valid(SubSeq(v, i + 1, Len(v)))
Tag(v) == LET i == CHOOSE k \in SplitAt(v) : TRUE IN <<SubSeq(v, 1, i - 1), SubSeq(v, i + 1, Len(v))>>
AWord(e, f) ==
    LET n == Size(f[2]) IN
    [e EXCEPT !.text = @ \o f[2], !.n = @ + n, !.no = @ \cup {e.n + i : i \in 1..(n - 1)}, !.req = @ \cup {e.n + n},
              !.words = Append(@, [at |-> e.n, n |-> n, s |-> f[2], tags |-> [i \in 1..(Len(f) - 2) |-> Tag(f[i + 2])]])]
Line(e0, row, k, names) ==
    LET e == IF e0.line = 0 THEN [e0 EXCEPT !.line = k] ELSE e0
        f == row.f
    IN IF e.bad > 0 THEN e
       ELSE IF Len(row.raw) >= 2 /\ row.raw[1] = Hash /\ row.raw[2] = 32 THEN [e EXCEPT !.com = SubSeq(row.raw, 3, Len(row.raw))]
       ELSE IF Len(f) = 1 THEN IF Valid(f[1]) THEN Stretch(e, f[1]) ELSE [e EXCEPT !.bad = k]
       ELSE IF f[1] # <<>> \/ f[2] = <<>> \/ ~Valid(f[2]) \/ \E i \in 3..Len(f) : ~TagOk(f[i], names) THEN [e EXCEPT !.bad = k]
       ELSE AWord(e, f)
IsBlank(row) == row.f = <<(<<>>)>>

RECURSIVE From(_, _, _, _, _)
From(rows, k, e, names, acc) ==
    IF k > Len(rows) THEN IF e.line = 0 THEN acc ELSE Append(acc, e)
    ELSE IF IsBlank(rows[k]) THEN From(rows, k + 1, E0, names, IF e.line = 0 THEN acc ELSE Append(acc, e))
    ELSE From(rows, k + 1, Line(e, rows[k], k, names), names, acc)
(* all sentences, those with errors too (bad is the line) *)
Sentences(text, names) == From(Rows(text).rows, 1, E0, names, <<>>)
HasText(e) == e.bad > 0 \/ e.text # <<>>

(* ------------------------------------------------- what the readers return *)
Inner(S, n) == {p \in S : p > 0 /\ p < n}
RangeOf(s) == {s[i] : i \in DOMAIN s}
Norm(v, e) == IF v = e THEN <<>> ELSE v
(* t = <<name, known, value>>; x has the names, known values and empty values of fields *)
TagIs(t, o, x) ==
    /\ t[1] = o[1]
    /\ LET k == CHOOSE i \in DOMAIN x.names : x.names[i] = t[1]
       IN IF o[2] = 1 THEN o[3] = Norm(t[2], x.emp[k]) ELSE o[3] = t[2] /\ ~(t[2] \in RangeOf(x.vals[k]))
WordIs(w, o, x) == /\ o.at = w.at /\ o.n = w.n /\ o.s = w.s /\ Len(o.tags) = Len(w.tags)
                   /\ \A i \in DOMAIN w.tags : TagIs(w.tags[i], o.tags[i], x)
ExIs(e, o, x) ==
    /\ o.text = e.text /\ o.com = e.com /\ o.line = e.line
    /\ Inner(RangeOf(o.req), e.n) = Inner(e.req, e.n) /\ Inner(RangeOf(o.no), e.n) = Inner(e.no, e.n)
    /\ Len(o.words) = Len(e.words)
    /\ \A i \in DOMAIN e.words : WordIs(e.words[i], o.words[i], x)

(* A morpheme from p to q with the rows of values (of the fields x.names) does *)
(* what the annotation e asks for.                                             *)
TagIn(x, row, t) == LET k == CHOOSE k \in DOMAIN x.names : x.names[k] = t[1]
                    IN Norm(row[k], x.emp[k]) = Norm(t[2], x.emp[k])
Fits(x, e, p, q, rows) ==
    /\ p \notin e.no /\ q \notin e.no
    /\ \A r \in e.req : ~(p < r /\ r < q)
    /\ \A k \in DOMAIN e.words : e.words[k].at = p =>
          LET w == e.words[k] IN
          /\ q = p + w.n
          /\ \E row \in RangeOf(rows) : \A t \in RangeOf(w.tags) : TagIn(x, row, t)
=============================================================================
