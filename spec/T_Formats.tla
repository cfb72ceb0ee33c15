----------------------------- MODULE T_Formats -----------------------------
(* Texts of all formats for one analysis.  c.P: the paths kept at the end   *)
(* of the sentence, c.N: the morphemes on them, c.E: rows of the dictionary *)
(* entries in the lattice, each entry once.                                 *)
EXTENDS TraceCommon, Formats, CsvReader

T == ndJsonDeserialize(IOEnv.MODELS)[1]

NodeOf(c, k) == LET i == CHOOSE j \in DOMAIN c.N : c.N[j][1] = k[1] /\ c.N[j][2] = k[2]
                IN [end |-> c.N[i][3] , unk |-> c.N[i][4] = 1, norm |-> c.N[i][5], rows |-> c.N[i][6]]
Best(c) == IF Len(c.P) = 0 THEN <<>>
           ELSE [i \in DOMAIN c.P[1][2] |-> NodeOf(c, Key(c.P[1][2][i]))]
AutoSize(c) == IF c.c.astep = 0 THEN 0 ELSE c.K
Shown(c) == LET n == IF c.c.astep > 0 THEN c.K ELSE c.c.n
            IN SubSeq(c.P, 1, IF n < Len(c.P) THEN n ELSE Len(c.P))

LatticeOk(c) == c.lattice = LatticeText(T, c.com, Shown(c), LAMBDA k : NodeOf(c, k))

SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : a[j] = a[i]}) = Cardinality({j \in DOMAIN b : b[j] = a[i]})
\* the order of the values of a list and of key-value pairs is not part of an entry
RowEq(a, b) == /\ Len(a) = Len(b)
               /\ \A i \in 1..(Len(a) - 1) : a[i] = b[i]
               /\ SameBag(a[Len(a)], b[Len(b)])
SameRows(a, b) == /\ Len(a) = Len(b)
                  /\ \A i \in DOMAIN a : Cardinality({j \in DOMAIN a : RowEq(a[j], a[i])}) = Cardinality({j \in DOMAIN b : RowEq(b[j], a[i])})
Flat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
SubsetOk(c) ==
    LET st == Read(44, 34, c.mdic)
        rows == Flat(c.E)
    IN /\ c.head = "#### MRPH output ####\n" \o FullText(c.com, Best(c)) \o "\n\n### SUBSET OF DICTIONARY\n"
       /\ st.mode \notin {"bad", "unspec"}
       /\ SameBag(st.rows, [i \in DOMAIN rows |-> CsvRow(rows[i])])
       /\ "rtok" \in DOMAIN c => c.rtok /\ SameRows(Flat(c.E2), rows)

TextsOk(c) ==
    LET b == Best(c)
    IN /\ JumanOk(T, c.com, b, c.juman) \/ (PrintT(<<"JUMAN", idx>>) /\ FALSE)
       /\ c.morph = MorphText(c.com, b) \/ (PrintT(<<"MORPH", idx>>) /\ FALSE)
       /\ c.full = FullText(c.com, b) \/ (PrintT(<<"FULL", idx>>) /\ FALSE)
       /\ c.segment = SegText(c.sep, b) \/ (PrintT(<<"SEG", idx>>) /\ FALSE)
       /\ SubsetOk(c) \/ (PrintT(<<"SUBSET", idx>>) /\ FALSE)

TOk(c) == CASE IOEnv.MODE = "lattice" -> LatticeOk(c)
            [] IOEnv.MODE = "texts" -> TextsOk(c)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
