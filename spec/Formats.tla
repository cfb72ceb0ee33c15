------------------------------ MODULE Formats ------------------------------
(* The text formats.  A morpheme is [unk, norm, rows, ...]: whether it is   *)
(* unknown, the changes of a normalised spelling, and its rows (a morpheme  *)
(* that stands for several dictionary entries has more than one).  A row is *)
(* <<surface, reading, dictionary form, pos, sub-pos, conjugation type,     *)
(* conjugation form, canonic form, features>>, a feature is <<key>> or      *)
(* <<key, value>>.  T holds the tables of numbers of parts of speech and    *)
(* the labels.                                                              *)
EXTENDS Integers, Sequences, TLC, SequencesExt, NBest

Str(n) == ToString(n)
OrStar(s) == IF s = "" THEN "*" ELSE s
Tab == "\t"

RECURSIVE JoinStr(_, _, _, _)
JoinStr(ss, sep, i, acc) ==
    IF i > Len(ss) THEN acc
    ELSE JoinStr(ss, sep, i + 1, IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i])
Joined(ss, sep) == JoinStr(ss, sep, 1, "")
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)

(* a blank or a tabulator that is a word of its own is written visibly *)
Blank(T, s) == IF s = Tab THEN "\\t" ELSE IF s = " " THEN T.blank ELSE s
NoTab(s) == IF s = Tab THEN "\\t" ELSE s

(* ---- numbers of parts of speech; 0 - does not apply or is not known ----- *)
Find(t, a, b) == {i \in DOMAIN t : t[i][1] = a /\ t[i][2] = b}
PosIds(T, r) ==
    LET f == Find(T.pos, r[4], OrStar(r[5]))
    IN IF f = {} THEN <<0, 0>> ELSE LET e == T.pos[CHOOSE i \in f : \A j \in f : j <= i] IN <<e[3], e[4]>>
ConjIds(T, r) ==
    IF r[6] = "" THEN <<0, 0>>
    ELSE IF r[7] = "" THEN
           LET f == {i \in DOMAIN T.conj : T.conj[i][1] = r[6]}
           IN IF f = {} THEN <<0, 0>> ELSE <<T.conj[CHOOSE i \in f : TRUE][3], 0>>
    ELSE LET f == Find(T.conj, r[6], r[7])
         IN IF f = {} THEN <<0, 0>> ELSE LET e == T.conj[CHOOSE i \in f : \A j \in f : j <= i] IN <<e[3], e[4]>>

(* ---- semantic features --------------------------------------------------- *)
KV(f) == IF Len(f) = 2 THEN f[1] \o ":" \o f[2] ELSE f[1]
Letter == [x \in {"replace", "replace-small", "replace-prolong", "replace-erow", "delete", "delete-prolong",
                  "delete-small", "delete-hatsuon", "delete-last"} |->
           CASE x = "replace" -> "R" [] x = "replace-small" -> "s" [] x = "replace-prolong" -> "p"
             [] x = "replace-erow" -> "e" [] x = "delete" -> "D" [] x = "delete-prolong" -> "P"
             [] x = "delete-small" -> "S" [] x = "delete-hatsuon" -> "H" [] x = "delete-last" -> "L"]
Norm(T, n) == IF Len(n.norm) = 0 THEN <<>>
              ELSE <<T.nonstd \o Cat([i \in DOMAIN n.norm |-> Letter[n.norm[i]]])>>
Feats(r) == [i \in DOMAIN r[9] |-> KV(r[9][i])]

(* ---- JUMAN --------------------------------------------------------------- *)
JumanFeats(T, n, r) ==
    LET fs == (IF r[8] = "" THEN <<>> ELSE <<T.canonic \o r[8]>>) \o Feats(r) \o Norm(T, n)
    IN IF Len(fs) = 0 THEN {"NIL"} \union (IF n.unk THEN {"\"\""} ELSE {})
       ELSE {"\"" \o Joined(fs, " ") \o "\""}
JumanRow(T, n, r, alias) ==
    LET p == PosIds(T, r)
        c == ConjIds(T, r)
        head == (IF alias THEN "@ " ELSE "") \o
                Joined(<<Blank(T, r[1]), Blank(T, r[2]), Blank(T, r[3]), OrStar(r[4]), Str(p[1]),
                         OrStar(r[5]), Str(p[2]), OrStar(r[6]), Str(c[1]), OrStar(r[7]), Str(c[2])>>, " ")
    IN {head \o " " \o f \o "\n" : f \in JumanFeats(T, n, r)}
(* no choice is left but for unknown words without features *)
RECURSIVE Times(_, _, _)
Times(ss, i, acc) == IF i > Len(ss) THEN acc
                     ELSE Times(ss, i + 1, {a \o b : a \in acc, b \in ss[i]})
JumanNode(T, n) == Times([i \in DOMAIN n.rows |-> JumanRow(T, n, n.rows[i], i > 1)], 1, {""})
Comment(com) == IF com = "" THEN "" ELSE "# " \o com \o "\n"
RECURSIVE Starts(_, _, _, _)
(* texts are compared piece by piece: where the alternatives can stand next *)
Starts(text, at, ss, i) ==
    IF i > Len(ss) THEN {at}
    ELSE UNION {IF at + Len(s) - 1 <= Len(text) /\ SubSeq(text, at, at + Len(s) - 1) = s
                THEN Starts(text, at + Len(s), ss, i + 1) ELSE {} : s \in ss[i]}
Is(text, ss) == (Len(text) + 1) \in Starts(text, 1, ss, 1)

JumanOk(T, com, nodes, text) ==
    Is(text, <<{Comment(com)}>> \o FoldLeft(LAMBDA a, n : a \o [i \in DOMAIN n.rows |-> JumanRow(T, n, n.rows[i], i > 1)],
                                            <<>>, nodes) \o <<{"EOS\n"}>>)

(* ---- morph, segment ------------------------------------------------------ *)
Morph(r) == r[1] \o "_" \o r[4] \o ":" \o OrStar(r[5]) \o " "
FullMorph(r) == Joined(<<r[1], r[2], r[3], r[4], OrStar(r[5]), OrStar(r[6]), OrStar(r[7])>>, "_") \o " "
EndComment(com) == IF com = "" THEN "\n" ELSE "# " \o com \o "\n"
MorphText(com, nodes) == Cat([i \in DOMAIN nodes |-> Morph(nodes[i].rows[1])]) \o EndComment(com)
FullText(com, nodes) == Cat([i \in DOMAIN nodes |-> FullMorph(nodes[i].rows[1])]) \o EndComment(com)
SegText(sep, nodes) == Joined([i \in DOMAIN nodes |-> nodes[i].rows[1][1]], sep) \o "\n"

(* ---- lattice ------------------------------------------------------------- *)
(* scored: <<total score, path>> of all paths that are shown; at(k): the    *)
(* morpheme with that key                                                   *)
LatticeRow(T, n, e, r) ==
    LET p == PosIds(T, r)
        c == ConjIds(T, r)
        canonic == IF r[8] = "" THEN NoTab(r[3]) \o "/" \o NoTab(r[2]) ELSE r[8]
        tail == Feats(r) \o Norm(T, n) \o
                <<T.feature \o Str(e.score), T.total \o Str(e.score),
                  T.rank \o Joined([i \in DOMAIN e.ranks |-> Str(e.ranks[i])], ";")>>
    IN Joined(<<"-", Str(e.id), Joined([i \in DOMAIN e.prev |-> Str(e.prev[i])], ";"),
                Str(e.key[1] - 2), Str(n.end - 1), NoTab(r[1]), canonic, NoTab(r[2]), NoTab(r[3]),
                OrStar(r[4]), Str(p[1]), OrStar(r[5]), Str(p[2]), OrStar(r[6]), Str(c[1]), OrStar(r[7]), Str(c[2]),
                Joined(tail, "|")>>, Tab) \o "\n"
LatticeText(T, com, scored, at(_)) ==
    LET paths == [i \in DOMAIN scored |-> scored[i][2]]
        info == Info(paths)
        Entry(e) == LET n == at(e.key)
                    IN Cat([i \in DOMAIN n.rows |-> LatticeRow(T, n, e, n.rows[i])])
    IN (IF com # "" THEN Comment(com)
        ELSE IF Len(scored) = 0 THEN ""
        ELSE "# MA-SCORE\t" \o Cat([i \in DOMAIN scored |-> "rank" \o Str(i) \o ":" \o Str(scored[i][1]) \o " "]) \o "\n")
       \o Cat([i \in DOMAIN info |-> Entry(info[i])]) \o "EOS\n"

(* ---- subset of the dictionary (bytes) ------------------------------------ *)
RECURSIVE JoinSeq(_, _, _, _)
JoinSeq(ss, sep, i, acc) ==
    IF i > Len(ss) THEN acc
    ELSE JoinSeq(ss, sep, i + 1, IF i = 1 THEN ss[1] ELSE acc \o sep \o ss[i])
KVBytes(f) == IF Len(f) = 2 THEN f[1] \o <<58>> \o f[2] ELSE f[1]
Zero == <<48>>
CsvRow(r) == <<r[1], Zero, Zero, Zero, r[4], r[5], r[7], r[6], r[3], r[2], r[8],
               JoinSeq([i \in DOMAIN r[9] |-> KVBytes(r[9][i])], <<32>>, 1, <<>>)>>
=============================================================================
