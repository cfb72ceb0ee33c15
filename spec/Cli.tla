-------------------------------- MODULE Cli --------------------------------
(* The analyser program as a filter: files of lines in, blocks out.          *)
(* A line is [k, id]: k is                                                   *)
(*   "s"  a sentence that can be analysed (an empty line is one)             *)
(*   "b"  a sentence that cannot                                             *)
(*   "c"  a comment, "l" a comment longer than the program accepts           *)
(* A file is [lines, nl, open]: whether its last line is terminated and      *)
(* whether it can be opened.                                                 *)
EXTENDS Integers, Sequences, SequencesExt

None == 0        \* no comment
Empty == 1       \* the number of the empty sentence
Sentence(l) == l.k \in {"s", "b"}
(* A block: the comment and the sentence it belongs to, and whether the      *)
(* sentence could be handled.                                                *)
Block(c, l) == [c |-> c.id, s |-> l.id, ok |-> l.k = "s" /\ c.k # "l"]
NoComment == [k |-> "none", id |-> None]

(* State while reading a file: the comment waiting for its sentence.         *)
ReadLine(st, l) ==
    IF Sentence(l) THEN [pending |-> NoComment, out |-> Append(st.out, Block(st.pending, l))]
    ELSE [st EXCEPT !.pending = l]
AfterLines(f) == FoldLeft(ReadLine, [pending |-> NoComment, out |-> <<>>], f.lines)

(* A comment at the end of a file has no sentence: it is dropped, or it is   *)
(* taken for the comment of an empty one.                                    *)
FileBlocks(f) ==
    LET st == AfterLines(f)
    IN IF st.pending = NoComment THEN {st.out}
       ELSE {st.out, Append(st.out, Block(st.pending, [k |-> "s", id |-> Empty]))}

RECURSIVE AllBlocks(_, _)
AllBlocks(files, i) ==
    IF i > Len(files) THEN {<<>>}
    ELSE {a \o b : a \in (IF files[i].open THEN FileBlocks(files[i]) ELSE {<<>>}), b \in AllBlocks(files, i + 1)}

(* The possible results of a run: blocks and exit code. *)
Failed(files, bs) == (\E i \in DOMAIN files : ~files[i].open) \/ (\E i \in DOMAIN bs : ~bs[i].ok)
Results(files) ==
    {[out |-> b, rc |-> IF Failed(files, b) THEN 1 ELSE 0] : b \in AllBlocks(files, 1)}
    \* a first file that cannot be opened may end the program at once
    \cup (IF files # <<>> /\ ~files[1].open THEN {[out |-> <<>>, rc |-> 1]} ELSE {})
=============================================================================
