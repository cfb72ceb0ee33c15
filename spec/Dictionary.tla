----------------------------- MODULE Dictionary -----------------------------
(* What a dictionary is: a bag of rows.  A row has a surface s (with bytes  *)
(* b), one value per declared field and a mark t for the rows that only     *)
(* serve as templates of unknown word rules; these are not looked up.       *)
(* A dictionary that has been built, saved and loaded again answers every   *)
(* question exactly as the bag of rows it was made from.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Count(seq, x) == Cardinality({i \in DOMAIN seq : seq[i] = x})
AsBag(seq) == [x \in {seq[i] : i \in DOMAIN seq} |-> Count(seq, x)]
SameBag(a, b) == Len(a) = Len(b) /\ AsBag(a) = AsBag(b)

(* Lists have no order: a value of a list field stands for a bag.           *)
Norm(types, v) == [i \in DOMAIN types |->
    IF types[i] \in {"string_list", "kv_list"} THEN AsBag(v[i]) ELSE v[i]]
NormRows(types, rows) == [i \in DOMAIN rows |-> Norm(types, rows[i])]

IsPrefixOf(p, b) == Len(p) <= Len(b) /\ \A i \in DOMAIN p : p[i] = b[i]

Live(M) == SelectSeq(M.rows, LAMBDA r : ~r.t)
HasWord(M, bytes) == \E i \in DOMAIN M.rows : ~M.rows[i].t /\ M.rows[i].b = bytes
HasPrefix(M, bytes) == \E i \in DOMAIN M.rows : ~M.rows[i].t /\ IsPrefixOf(bytes, M.rows[i].b)

Status(M, bytes) == IF HasWord(M, bytes) THEN "ok"
                    ELSE IF HasPrefix(M, bytes) THEN "prefix" ELSE "none"

(* Rows that agree in the grouping fields (M.alias) are one candidate: the  *)
(* fields used by features (M.feat) have the values of the first row of the *)
(* group, all other fields keep their own values.                           *)
Key(M, v) == [i \in DOMAIN M.alias |-> v[M.alias[i]]]
InFeat(M) == {M.feat[j] : j \in DOMAIN M.feat}
First(M, r) == LET j == CHOOSE j \in DOMAIN M.rows :
                       /\ ~M.rows[j].t /\ M.rows[j].s = r.s /\ Key(M, M.rows[j].v) = Key(M, r.v)
                       /\ \A h \in 1..(j-1) : ~(/\ ~M.rows[h].t /\ M.rows[h].s = r.s
                                                /\ Key(M, M.rows[h].v) = Key(M, r.v))
               IN M.rows[j]
Visible(M, r) == LET f == First(M, r).v
                 IN [i \in DOMAIN r.v |-> IF i \in InFeat(M) THEN f[i] ELSE r.v[i]]

RowsOfSurface(M, s) == LET R == SelectSeq(M.rows, LAMBDA r : ~r.t /\ r.s = s)
                       IN [i \in DOMAIN R |-> Visible(M, R[i])]
RowsOf(M, bytes) == LET R == SelectSeq(M.rows, LAMBDA r : ~r.t /\ r.b = bytes)
                    IN [i \in DOMAIN R |-> Visible(M, R[i])]

(* The rows of a group come in the order of the file.                       *)
OfGroup(M, rows, k) == SelectSeq(rows, LAMBDA v : Key(M, v) = k)
SameRows(M, got, exp) ==
    /\ Len(got) = Len(exp)
    /\ \A i \in DOMAIN exp :
         LET k == Key(M, exp[i]) IN
         NormRows(M.types, OfGroup(M, got, k)) = NormRows(M.types, OfGroup(M, exp, k))
=============================================================================
