----------------------------- MODULE MC_Options -----------------------------
(* Every option is layered independently of the others.                     *)
EXTENDS Options
CONSTANTS MaxItems
VARIABLES ls
vars == <<ls>>

Items == {[o |-> "beam", v |-> "3", n |-> TRUE], [o |-> "beam", v |-> "8", n |-> TRUE],
          [o |-> "lattice", v |-> "6", n |-> TRUE], [o |-> "auto-nbest", v |-> "1:2:3", n |-> TRUE],
          [o |-> "global-beam", v |-> "4", n |-> TRUE], [o |-> "morph", v |-> "", n |-> FALSE],
          [o |-> "output", v |-> "x", n |-> TRUE], [o |-> "", v |-> "y", n |-> TRUE]}
Group(f) == CASE f = "beam" -> {"beam", "lattice", "auto-nbest"}
              [] f = "gbeam" -> {"global-beam", "auto-nbest"}
              [] f = "N" -> {"lattice"}
              [] f = "type" -> {"morph", "lattice"}
              [] f = "output" -> {"output"}
              [] f = "input" -> {""}
              [] f \in {"auto", "step"} -> {"auto-nbest"}
Only(f) == [k \in DOMAIN ls |-> SelectSeq(ls[k], LAMBDA i : i.o \in Group(f))]
OneType(l) == Cardinality(TypeOpts(l)) <= 1

Init == ls = <<<<>>, <<>>>>
Next == \E k \in DOMAIN ls, i \in Items :
            /\ Len(ls[k]) < MaxItems
            /\ ls' = [ls EXCEPT ![k] = Append(@, i)]
            /\ OneType(ls'[k])
Spec == Init /\ [][Next]_vars

Fields == {"beam", "gbeam", "N", "type", "output", "input", "auto", "step"}
Independent == \A f \in Fields : Effective(ls)[f] = Effective(Only(f))[f]
\* what the first layer says about an option is not changed by the second
First == \A f \in {"output", "input", "N"} :
            (\E o \in Group(f) : Has(ls[1], o)) => Effective(ls)[f] = Effective(<<ls[1]>>)[f]
Enough == LET e == Effective(ls) IN e.auto \/ e.beam >= e.N
\* options of the command line alone never make a larger beam of the file smaller
Keeps == (~Has(ls[1], "beam") /\ ~Has(ls[1], "auto-nbest") /\ Has(ls[2], "beam")) =>
            Effective(ls).beam >= Effective(<<ls[2]>>).beam \/ Has(ls[2], "auto-nbest") \/ Has(ls[2], "lattice")
=============================================================================
