------------------------------- MODULE T_Cli -------------------------------
(* Runs of the real program.  Output lines are numbered; c.blocks lists what *)
(* a process of its own prints for a comment and a sentence: <<comment,      *)
(* sentence, lines>>.                                                        *)
EXTENDS TraceCommon, Cli

(* MODE solo: the block of one sentence has the shape of its format.         *)
(* c.lines are the lines as text, c.com the comment ("" - none).             *)
IsError(l) == Len(l) >= 7 /\ SubSeq(l, 1, 7) = "# ERROR"
Ends(l, t) == Len(l) >= Len(t) /\ SubSeq(l, Len(l) - Len(t) + 1, Len(l)) = t
Count(s, x) == Len(SelectSeq(s, LAMBDA y : y = x))
SoloOk(c) ==
    /\ c.rc = (IF c.ok THEN 0 ELSE 1)
    /\ c.term   \* the output ends with the end of a line
    /\ IF ~c.ok
       THEN Len(SelectSeq(c.lines, IsError)) = 1
       ELSE CASE c.fmt \in {"juman", "lattice"} ->
                   /\ Count(c.lines, "EOS") = 1 /\ c.lines[Len(c.lines)] = "EOS"
                   /\ c.com # "" => c.lines[1] = "# " \o c.com
              [] c.fmt \in {"morph", "full-morph"} ->
                   Len(c.lines) = 1 /\ (c.com # "" => Ends(c.lines[1], "# " \o c.com))
              [] c.fmt = "segment" -> Len(c.lines) = 1
              [] OTHER -> Len(c.lines) >= 1

(* MODE run: a run over files. *)
Lines(c, b) == LET i == CHOOSE j \in DOMAIN c.blocks : c.blocks[j][1] = b.c /\ c.blocks[j][2] = b.s
               IN c.blocks[i][3]
RunOk(c) ==
    \E r \in Results(c.files) :
      /\ r.rc = c.rc
      /\ FoldLeft(LAMBDA a, b : a \o Lines(c, b), <<>>, r.out) = c.out

TOk(c) == IF IOEnv.MODE = "solo" THEN SoloOk(c) ELSE RunOk(c)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
