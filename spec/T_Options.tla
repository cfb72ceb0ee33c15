----------------------------- MODULE T_Options -----------------------------
(* c.s.kind = "args": c.s.cli, and c.s.named (file of --config), c.s.global,*)
(* c.s.user are <<>> or <<layer>>.  c.s.kind = "nest": c.s.chain, files that*)
(* name each other, c.s.depth.  c.s.beside: model names next to the file in *)
(* use, c.s.here: models in the working directory, c.s.dir: of that file.   *)
EXTENDS TraceCommon, Options

InSet(x, s) == \E k \in DOMAIN s : s[k] = x

Layers(s) ==
    IF Has(s.cli, "config") /\ LastOf(s.cli, "config") # ""
    THEN IF s.named = <<>> THEN <<>> ELSE <<s.cli, s.named[1]>>
    ELSE IF s.global # <<>> THEN <<s.cli, s.global[1]>>
    ELSE IF s.user # <<>> THEN <<s.cli, s.user[1]>>
    ELSE <<s.cli>>

ArgsOk(c) ==
    LET ls == Layers(c.s)
        good == ls # <<>> /\ \A k \in DOMAIN ls : LayerOk(ls[k])
        e == Effective(ls)
        m == e.model
        moved == /\ ~Has(c.s.cli, "model") /\ m # "" /\ Len(ls) = 2
                 /\ SubSeq(m, 1, 1) # "/" /\ ~InSet(m, c.s.here) /\ InSet(m, c.s.beside)
    IN IF good THEN c.ok /\ c.conf = [e EXCEPT !.model = IF moved THEN c.s.dir \o "/" \o m ELSE m]
       ELSE ~c.ok /\ c.msg

\* files that name each other, as deep as asked for; the one named first counts most
RECURSIVE ChainOf(_, _, _)
ChainOf(chain, k, depth) ==
    IF k > Len(chain) THEN <<"missing">>
    ELSE IF depth > 0 /\ LayerOk(chain[k]) /\ Has(chain[k], "config") THEN <<chain[k]>> \o ChainOf(chain, k + 1, depth - 1)
    ELSE <<chain[k]>>
NestOk(c) ==
    LET ls == ChainOf(c.s.chain, 1, c.s.depth)
        n == Len(ls)
    IN IF Len(ls) > Len(c.s.chain) \/ ~\A k \in DOMAIN ls : LayerOk(ls[k]) THEN ~c.ok /\ c.msg
       ELSE c.ok /\ c.conf = Effective(ls)

\* the program refuses bad options and files without output
RunOk(c) == IF c.bad THEN c.rc # 0 /\ c.err > 0 /\ c.out = 0 ELSE c.rc = 0
\* settings split over the layers give the output of the same settings on the command line
SameOk(c) == c.rc = 0 /\ c.rc2 = 0 /\ c.out1 = c.out2

TOk(c) == CASE c.s.kind = "args" -> ArgsOk(c)
            [] c.s.kind = "run" -> RunOk(c)
            [] c.s.kind = "same" -> SameOk(c)
            [] c.s.kind = "nest" -> NestOk(c)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
