------------------------------- MODULE Corpus -------------------------------
(* Annotated corpora.                                                       *)
(*                                                                          *)
(* csv    one word per row of comma separated fields; an example ends with  *)
(*        an empty row, a row EOS or the end of the file; a line that       *)
(*        starts with "# " is the comment of its example                    *)
(* morph  one example per row; words are separated by spaces, their fields  *)
(*        by underscores; a word # starts the comment                       *)
(*                                                                          *)
(* A row that is not well-formed, has fewer fields than there are training  *)
(* fields, or whose surface is not UTF-8 is an error: examples before it    *)
(* are delivered, it is reported, and nothing is read as something else.    *)
(* Examples without words do not count.                                     *)
EXTENDS Utf8, CsvReader, FiniteSets

Quote == 34
Comma == 44
Hash == 35
Space == 32
Under == 95
EosRow == <<69, 79, 83>>

(* ---------------------------------------------- rows with their raw text *)
RawStep(sep, s, c) ==
    LET st == Feed(sep, Quote, s.st, c)
        skip == s.st.mode = "lf" /\ c = CR
        raw == IF skip THEN s.raw ELSE Append(s.raw, c)
    IN IF Len(st.rows) > Len(s.st.rows) THEN [st |-> st, raw |-> <<>>, raws |-> Append(s.raws, raw)]
       ELSE [s EXCEPT !.st = st, !.raw = raw]
RECURSIVE Chop(_)
Chop(r) == IF Len(r) > 0 /\ r[Len(r)] \in {LF, CR} THEN Chop(SubSeq(r, 1, Len(r) - 1)) ELSE r
Rows(sep, text) ==
    LET s == FoldLeft(LAMBDA a, c : RawStep(sep, a, c), [st |-> St0, raw |-> <<>>, raws |-> <<>>], text)
        st == Finish(s.st)
        raws == IF Len(st.rows) > Len(s.raws) THEN Append(s.raws, s.raw) ELSE s.raws
    IN [rows |-> [i \in DOMAIN st.rows |-> [f |-> st.rows[i], raw |-> Chop(raws[i])]],
        bad |-> st.mode = "bad", unspec |-> st.mode = "unspec"]

(* ---------------------------------------------------------- reading state *)
(* a word is the sequence of its first nf fields *)
R0 == [ex |-> <<>>, words |-> <<>>, com |-> <<>>, bad |-> FALSE, un |-> FALSE]
Close(r) == [r EXCEPT !.ex = IF r.words = <<>> THEN @ ELSE Append(@, [w |-> r.words, c |-> r.com]),
                      !.words = <<>>, !.com = <<>>]
Bad(r) == [r EXCEPT !.bad = TRUE, !.words = <<>>, !.com = <<>>]
Word(r, f, nf, sf) == IF Len(f) < nf \/ ~Valid(f[sf]) THEN Bad(r)
                      ELSE [r EXCEPT !.words = Append(@, SubSeq(f, 1, nf))]

CsvRow(r, row, nf, sf) ==
    IF r.bad THEN r
    ELSE IF row.f \in {<<(<<>>)>>, <<EosRow>>} THEN Close(r)
    ELSE IF Len(row.raw) >= 2 /\ row.raw[1] = Hash /\ row.raw[2] = Space
    THEN [r EXCEPT !.com = SubSeq(row.raw, 3, Len(row.raw))]
    ELSE Word(r, row.f, nf, sf)

RECURSIVE MorphWords(_, _, _, _, _)
MorphWords(r, f, i, nf, sf) ==
    IF r.bad THEN r
    ELSE IF i > Len(f) THEN Close(r)
    ELSE IF f[i] = <<Hash>> THEN Close([r EXCEPT !.com = Join(Space, SubSeq(f, i + 1, Len(f)))])
    ELSE LET t == Read(Under, Quote, f[i])
         IN MorphWords(IF t.mode = "unspec" THEN [Bad(r) EXCEPT !.un = TRUE] ELSE IF t.mode = "bad" \/ Len(t.rows) # 1 THEN Bad(r) ELSE Word(r, t.rows[1], nf, sf),
                       f, i + 1, nf, sf)

Examples(fmt, text, nf, sf) ==
    LET rs == Rows(IF fmt = "csv" THEN Comma ELSE Space, text)
        r == FoldLeft(LAMBDA a, row : IF fmt = "csv" THEN CsvRow(a, row, nf, sf)
                                      ELSE IF a.bad THEN a ELSE MorphWords(a, row.f, 1, nf, sf), R0, rs.rows)
    IN IF r.bad THEN r ELSE IF rs.bad THEN Bad(r) ELSE Close(r)
Constrained(fmt, text, x) == ~x.un /\ ~Rows(IF fmt = "csv" THEN Comma ELSE Space, text).unspec

(* ------------------------------------------------- what the reader returns *)
(* o = [s |-> text, c |-> comment, w |-> words <<length in characters,      *)
(* fields <<known?, value>>, text of an unknown surface>>]                  *)
RECURSIVE Surfaces(_, _, _, _)
Surfaces(ws, sf, i, acc) == IF i > Len(ws) THEN acc ELSE Surfaces(ws, sf, i + 1, acc \o ws[i][sf])
(* the empty value of a field is another way to write nothing *)
Norm(v, e) == IF v = e THEN <<>> ELSE v
InSeq(v, s) == \E i \in DOMAIN s : s[i] = v
WordOk(w, o, sf, vals, emp) ==
    /\ o[1] = Len(Decode(w[sf]).chars)
    /\ Len(o[2]) = Len(w)
    /\ \A k \in DOMAIN w : IF o[2][k][1] = 1 THEN o[2][k][2] = Norm(w[k], emp[k]) ELSE ~InSeq(w[k], vals[k])
    /\ o[2][sf][1] = 0 => o[3] = w[sf]
ExOk(e, o, sf, vals, emp) ==
    /\ o.s = Surfaces(e.w, sf, 1, <<>>)
    /\ o.c = e.c
    /\ Len(o.w) = Len(e.w)
    /\ \A i \in DOMAIN e.w : WordOk(e.w[i], o.w[i], sf, vals, emp)
NonEmpty(os) == SelectSeq(os, LAMBDA o : Len(o.w) > 0)

ReadOk(c, x) == LET os == NonEmpty(c.read)
                IN /\ c.ok = ~x.bad
                   /\ Len(os) = Len(x.ex)
                   /\ \A i \in DOMAIN os : ExOk(x.ex[i], os[i], c.x.sf, c.x.vals, c.x.emp)

(* batches hold consecutive examples, in any order inside of the batch *)
Same(a, b) == \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})
RECURSIVE BatchesFrom(_, _, _, _)
BatchesFrom(c, os, i, at) ==
    IF i > Len(c.batches) THEN IF c.bok THEN at = Len(os) ELSE TRUE
    ELSE LET b == NonEmpty(c.batches[i])
         IN /\ Len(c.batches[i]) <= c.size
            /\ at + Len(b) <= Len(os)
            /\ Same(b, SubSeq(os, at + 1, at + Len(b)))
            /\ BatchesFrom(c, os, i + 1, at + Len(b))
BatchesOk(c) == /\ c.bok = c.ok
                /\ BatchesFrom(c, NonEmpty(c.read), 1, 0)
=============================================================================
