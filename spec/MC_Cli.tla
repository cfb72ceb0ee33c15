------------------------------- MODULE MC_Cli -------------------------------
(* The loop of the program over all small sets of files: look ahead, next    *)
(* file, read comments and a sentence, emit.                                 *)
EXTENDS Cli, TLC
CONSTANTS MaxFiles, MaxLines
Kinds == {[k |-> "s", id |-> 2], [k |-> "s", id |-> Empty], [k |-> "b", id |-> 3], [k |-> "c", id |-> 5], [k |-> "l", id |-> 6]}
Files == {f \in [lines : UNION {[1..n -> Kinds] : n \in 0..MaxLines}, nl : BOOLEAN, open : BOOLEAN] :
            /\ (~f.open => f.lines = <<>> /\ f.nl)
            /\ (f.lines = <<>> => f.nl)
            \* an empty last line exists only if it is terminated
            /\ (f.lines # <<>> /\ f.lines[Len(f.lines)].id = Empty => f.nl)}
VARIABLES files, cur, pos, eof, out, rc, done
vars == <<files, cur, pos, eof, out, rc, done>>
Init == /\ files \in UNION {[1..n -> Files] : n \in 1..MaxFiles}
        /\ cur = 0 /\ pos = 0 /\ eof = TRUE /\ out = <<>> /\ rc = 0 /\ done = FALSE

F == files[cur]
More == cur > 0 /\ ~eof /\ pos < Len(F.lines)      \* what peek() sees
NextFile == /\ ~done /\ ~More /\ cur < Len(files)
            /\ cur' = cur + 1 /\ pos' = 0 /\ eof' = ~files[cur + 1].open
            /\ rc' = IF files[cur + 1].open THEN rc ELSE 1
            /\ UNCHANGED <<files, out, done>>
Finish == ~done /\ ~More /\ cur = Len(files) /\ done' = TRUE /\ UNCHANGED <<files, cur, pos, eof, out, rc>>

(* getline until a line that is no comment; at the end of the file it gives  *)
(* an empty line. *)
RECURSIVE Skip(_, _)
Skip(p, c) == IF p >= Len(F.lines) THEN <<p, c, [k |-> "s", id |-> Empty]>>
              ELSE IF Sentence(F.lines[p + 1]) THEN <<p + 1, c, F.lines[p + 1]>>
              ELSE Skip(p + 1, F.lines[p + 1])
ReadOne == /\ ~done /\ More
           /\ LET r == Skip(pos, NoComment)
                  b == Block(r[2], r[3])
              IN /\ pos' = r[1] /\ out' = Append(out, b)
                 /\ eof' = (r[1] = Len(F.lines) /\ ~F.nl)
                 /\ rc' = IF b.ok THEN rc ELSE 1
           /\ UNCHANGED <<files, cur, done>>
Next == NextFile \/ ReadOne \/ Finish \/ (done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(NextFile \/ ReadOne \/ Finish)
Right == done => [out |-> out, rc |-> rc] \in Results(files)
Ends == <>done
=============================================================================
