------------------------------ MODULE MC_Corpus ------------------------------
(* Every way to write a small corpus is read back as that corpus, and every *)
(* short text is read with each byte accounted for.                         *)
EXTENDS Corpus
CONSTANTS Fmt, N, Sigma
VARIABLES ph, ex, text
vars == <<ph, ex, text>>

Vals == {<<97>>, <<>>, <<44>>, <<34>>, <<35>>, <<32, 95>>}
Surf == {<<97>>, <<35>>, <<32, 95>>, <<227, 129, 130>>}
Coms == {<<>>, <<98, 32, 98>>}
Exs == {[w |-> w, c |-> c] : w \in {<<(<<s, v>>)>> : s \in Surf, v \in Vals} \cup
                                   {<<(<<s, v>>), <<(<<97>>), (<<97>>)>>>> : s \in Surf, v \in Vals}, c \in Coms}

WriteWord(sep, w) == Join(sep, [k \in DOMAIN w |-> QuoteField(Quote, w[k])])
RECURSIVE WriteCsv(_, _)
WriteCsv(e, i) == IF i > Len(e.w) THEN <<>> ELSE WriteWord(Comma, e.w[i]) \o <<LF>> \o WriteCsv(e, i + 1)
Head1(e) == IF e.c = <<>> THEN <<>> ELSE <<Hash, Space>> \o e.c \o <<LF>>
(* a word of the morph format is itself one quoted field of the line *)
WriteMorph(e) == Join(Space, [i \in DOMAIN e.w |-> QuoteField(Quote, WriteWord(Under, e.w[i]))]) \o
                 (IF e.c = <<>> THEN <<>> ELSE <<Space, Hash, Space>> \o e.c)
Ends == IF Fmt = "csv" THEN {<<LF>>, <<CR, LF>>, <<69, 79, 83, LF>>, <<LF, LF>>} ELSE {<<LF>>, <<CR, LF>>}
Ex1(e) == IF Fmt = "csv" THEN Head1(e) \o WriteCsv(e, 1) ELSE WriteMorph(e)

Init == ph = "write" /\ ex = <<>> /\ text = <<>>
Put1 == ph = "write" /\ Len(ex) < N /\ \E e \in Exs, t \in Ends :
            ex' = Append(ex, e) /\ text' = text \o Ex1(e) \o t /\ ph' = "write"
(* the last example has no terminator *)
Last1 == ph = "write" /\ Len(ex) < N /\ \E e \in Exs :
            /\ ex' = Append(ex, e) /\ ph' = "end"
            /\ text' = text \o (IF Fmt = "csv" THEN Chop(Ex1(e)) ELSE Ex1(e))
(* any text *)
Raw == ph \in {"write", "raw"} /\ ex = <<>> /\ Len(text) < Sigma /\ ph' = "raw" /\ UNCHANGED ex
       /\ \E c \in {97, Comma, LF, Quote, Hash, Space, 200, Under} : text' = Append(text, c)
Next == Put1 \/ Last1 \/ Raw
Spec == Init /\ [][Next]_vars

BackOk == ph # "raw" => LET r == Examples(Fmt, text, 2, 1) IN ~r.bad /\ r.ex = ex
(* nothing but separators, quotes, comments and terminators is lost: a text *)
(* without quotes and comments which is read completely has all its letters *)
RECURSIVE Letters(_, _, _)
Letters(s, i, acc) == IF i > Len(s) THEN acc ELSE Letters(s, i + 1, IF s[i] = 97 THEN acc + 1 ELSE acc)
RECURSIVE ExLetters(_, _, _, _, _)
ExLetters(e, i, j, k, acc) ==
    IF i > Len(e) THEN acc ELSE IF j > Len(e[i].w) THEN ExLetters(e, i + 1, 1, 1, acc)
    ELSE IF k > Len(e[i].w[j]) THEN ExLetters(e, i, j + 1, 1, acc)
    ELSE ExLetters(e, i, j, k + 1, acc + Letters(e[i].w[j][k], 1, 0))
Total == (ph = "raw" /\ ~\E i \in DOMAIN text : text[i] = Hash) =>
            LET r == Examples(Fmt, text, 1, 1)
                few == \A i \in DOMAIN text : text[i] \notin {Comma, Under}
            IN (~r.bad /\ few) => ExLetters(r.ex, 1, 1, 1, 0) = Letters(text, 1, 0)
=============================================================================
