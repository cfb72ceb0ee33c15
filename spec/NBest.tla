------------------------------- MODULE NBest -------------------------------
(* What the lattice output says about the N best paths.                     *)
(*                                                                          *)
(* A path is a sequence of morphemes <<boundary, position, score>> in the   *)
(* order of the text; score is that of the connection the path uses to get  *)
(* to the morpheme.  paths is the sequence of paths, best first.            *)
EXTENDS Integers, Sequences, FiniteSets

Key(m) == <<m[1], m[2]>>
Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])

Morphemes(paths) == UNION {{Key(paths[r][j]) : j \in DOMAIN paths[r]} : r \in DOMAIN paths}

RECURSIVE Sorted(_, _)
Sorted(S, acc) ==
    IF S = {} THEN acc
    ELSE LET m == CHOOSE x \in S : \A y \in S \ {x} : Before(x, y)
         IN Sorted(S \ {m}, Append(acc, m))

RECURSIVE SortInts(_, _)
SortInts(S, acc) ==
    IF S = {} THEN acc
    ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN SortInts(S \ {m}, Append(acc, m))

IdOf(order, k) == CHOOSE i \in DOMAIN order : order[i] = k

(* where path p has the morpheme k; 0 - nowhere *)
At(p, k) == IF \E j \in DOMAIN p : Key(p[j]) = k THEN CHOOSE j \in DOMAIN p : Key(p[j]) = k ELSE 0

Max(S) == CHOOSE x \in S : \A y \in S : y <= x

(* one entry for each morpheme: its number, those of the morphemes before   *)
(* it (0 - start of the sentence), the ranks of the paths it is on, and the *)
(* score of the best of the connections that lead to it                     *)
Info(paths) ==
    LET order == Sorted(Morphemes(paths), <<>>)
        Entry(i) ==
          LET k == order[i]
              on == {r \in DOMAIN paths : At(paths[r], k) # 0}
              PrevId(r) == LET j == At(paths[r], k) IN IF j = 1 THEN 0 ELSE IdOf(order, Key(paths[r][j - 1]))
          IN [key |-> k, id |-> i,
              prev |-> SortInts({PrevId(r) : r \in on}, <<>>),
              ranks |-> SortInts(on, <<>>),
              score |-> Max({paths[r][At(paths[r], k)][3] : r \in on})]
    IN [i \in DOMAIN order |-> Entry(i)]

(* ---- the reader's side: path k out of the entries, from end to start ---- *)
Has(s, x) == \E i \in DOMAIN s : s[i] = x
RECURSIVE Back(_, _, _, _)
Back(info, r, i, acc) ==
    IF i = 0 THEN acc
    ELSE LET c == {p \in {info[i].prev[j] : j \in DOMAIN info[i].prev} : p = 0 \/ Has(info[p].ranks, r)}
         IN IF Cardinality(c) > 1 /\ 0 \in c /\ info[i].key[1] > 2 THEN <<"ambiguous">>
            ELSE Back(info, r, Max(c), <<info[i].key>> \o acc)
(* the last morpheme of rank r is the one with the greatest number *)
Follow(info, r) ==
    LET mine == {i \in DOMAIN info : Has(info[i].ranks, r)}
    IN IF mine = {} THEN <<>> ELSE Back(info, r, Max(mine), <<>>)
=============================================================================
