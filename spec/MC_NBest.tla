------------------------------ MODULE MC_NBest ------------------------------
(* All ways to choose up to R different paths of a small lattice: reading   *)
(* the entries back gives the paths.  W characters; at every place there    *)
(* are V morphemes of each length.                                          *)
EXTENDS NBest
CONSTANTS W, R, Scores

(* morphemes: boundary b (2 is the first character), position = kind        *)
V == 2
Ends(b, p) == b + 1 + (p % 2)    \* position 0: one character, 1: two
Nodes == {<<b, p>> \in (2..W + 1) \X (0..V - 1) : Ends(b, p) <= W + 2}
RECURSIVE Paths(_)
Paths(b) == IF b = W + 2 THEN {<<>>}
            ELSE UNION {{<<n>> \o p : p \in Paths(Ends(n[1], n[2]))} : n \in {m \in Nodes : m[1] = b}}

VARIABLES ps, sc
Scored(p, r) == [j \in DOMAIN p |-> <<p[j][1], p[j][2], IF j = 1 THEN sc[r] ELSE r>>]
Ps == [r \in DOMAIN ps |-> Scored(ps[r], r)]
Init == ps = <<>> /\ sc \in [1..R -> Scores]
Next == /\ Len(ps) < R
        /\ \E p \in Paths(2) : (\A i \in DOMAIN ps : ps[i] # p) /\ ps' = Append(ps, p)
        /\ UNCHANGED sc
Spec == Init /\ [][Next]_<<ps, sc>>

Readable ==
    LET info == Info(Ps)
    IN /\ \A r \in DOMAIN ps : Follow(info, r) = ps[r]
       /\ \A i \in DOMAIN info :
            /\ info[i].id = i
            /\ Len(info[i].ranks) > 0
            /\ \A j \in DOMAIN info[i].prev :
                 LET p == info[i].prev[j]
                 IN /\ p < i
                    /\ IF p = 0 THEN info[i].key[1] = 2
                       ELSE Ends(info[p].key[1], info[p].key[2]) = info[i].key[1]
=============================================================================
