------------------------------ MODULE Unknown ------------------------------
(* Candidates of the lattice: words of the dictionary (Dictionary.tla) and  *)
(* the words that the declared rules propose.                               *)
(*                                                                          *)
(* A sentence is X = [u, ch]: code points and texts of its characters.      *)
(* A rule is R = [kind, cls, row, ph, srf, prio].  A proposal is            *)
(*   [s, e (span, from 0), row (field values), ph (placeholder values)].    *)
EXTENDS Dictionary, Utf8, FiniteSetsExt

N(X) == Len(X.u)
U(X, i) == X.u[i + 1]
Cls(X, i) == Class(X.u[i + 1])
In(X, i, bits) == i < N(X) /\ HasClass(Cls(X, i), bits)
RECURSIVE TextOf(_, _, _)
TextOf(X, s, e) == IF s >= e THEN "" ELSE X.ch[s + 1] \o TextOf(X, s + 1, e)
Part(X, s, e) == SubSeq(X.u, s + 1, e)

(* The words of the dictionary M and their beginnings, as code points.      *)
WordsOf(M) == {M.rows[i].u : i \in {j \in DOMAIN M.rows : ~M.rows[j].t}}
PrefixesOf(W) == UNION {{SubSeq(w, 1, k) : k \in 1..Len(w)} : w \in W}

ClassBits(name) ==
    CASE name = "KANJI" -> KANJI [] name = "HIRAGANA" -> HIRAGANA [] name = "KATAKANA" -> KATAKANA
      [] name = "ALPH" -> ALPH [] name = "FIGURE" -> FIGURE [] name = "KANJI_FIGURE" -> KANJI_FIGURE
      [] name = "FAMILY_KANA" -> KATAKANA + HIRAGANA + HANKAKU_KANA + SMALL_KANA
      [] name = "FAMILY_DIGITS" -> FIGURE + KANJI_FIGURE + FIGURE_DIGIT
      [] name = "FAMILY_FIGURE" -> FIGURE + PERIOD + MIDDLE_DOT + KANJI_FIGURE + SLASH + COLON
      [] name = "FAMILY_EXCEPTION" -> FIGURE + KANJI_FIGURE + FIGURE_EXCEPTION
      [] name = "FAMILY_KANJI" -> KANJI + KANJI_FIGURE
      [] name = "FAMILY_DOUBLE" -> KATAKANA + HIRAGANA + HANKAKU_KANA + SMALL_KANA + KANJI + CHOON
      [] name = "FAMILY_ANYTHING" -> 2097151
FullKana == HIRAGANA + KATAKANA
Prolongable == KANJI + HIRAGANA + KATAKANA
NumPeriod == PERIOD + MIDDLE_DOT
Exception == FIGURE + KANJI_FIGURE + FIGURE_EXCEPTION
Double == KATAKANA + HIRAGANA + HANKAKU_KANA + SMALL_KANA + KANJI + CHOON

RECURSIVE BitsFrom(_, _)
BitsFrom(names, acc) == IF names = {} THEN acc
    ELSE LET n == CHOOSE x \in names : TRUE
             b == ClassBits(n)
             new(k) == (b \div (2 ^ k)) % 2 = 1 /\ (acc \div (2 ^ k)) % 2 = 0
             RECURSIVE Add(_, _)
             Add(k, a) == IF k > 20 THEN a ELSE Add(k + 1, IF new(k) THEN a + (2 ^ k) ELSE a)
         IN BitsFrom(names \ {n}, Add(0, acc))
Bits(R) == BitsFrom({R.cls[i] : i \in DOMAIN R.cls}, 0)

(* ------------------------------------------------- what a rule proposes *)
(* fields of the template, those in srf replaced by the text of the span;   *)
(* the placeholder of the rule has the given value, all others are 0        *)
Fields(X, R, base, s, e) == [i \in DOMAIN base |->
    IF \E j \in DOMAIN R.srf : R.srf[j] = i THEN TextOf(X, s, e) ELSE base[i]]
Holders(M, R, v) == [j \in 1..M.nph |-> IF j = R.ph THEN v ELSE 0]

NotPrefix(P, X, s, e) == IF Part(X, s, e) \in P THEN 0 ELSE 1
Proposal(M, X, R, s, e, v) == [s |-> s, e |-> e, rows |-> <<Fields(X, R, M.rows[R.row].v, s, e)>>,
                               ph |-> Holders(M, R, v)]

(* single: one character of the class that is no word                       *)
Single(M, W, P, X, R) ==
    {Proposal(M, X, R, i, i + 1, NotPrefix(P, X, i, i + 1)) :
        i \in {j \in 0..(N(X) - 1) : In(X, j, Bits(R)) /\ Part(X, j, j + 1) \notin W}}

(* chunking: all stretches of characters of the class that are no words     *)
Stretches(X, bits) == {p \in (0..(N(X) - 1)) \X (1..N(X)) :
                          p[1] < p[2] /\ \A k \in p[1]..(p[2] - 1) : In(X, k, bits)}
Chunking(M, W, P, X, R) ==
    {Proposal(M, X, R, p[1], p[2], NotPrefix(P, X, p[1], p[2])) :
        p \in {q \in Stretches(X, Bits(R)) : Part(X, q[1], q[2]) \notin W}}

(* onomatopoeia: a stretch of 2..4 characters repeated once, all of them    *)
(* sharing a class with the first                                           *)
Repeats(X, i, h) == /\ i + 2 * h <= N(X)
                    /\ Part(X, i, i + h) = Part(X, i + h, i + 2 * h)
                    /\ \A k \in i..(i + h - 1) : HasClass(Cls(X, k), Cls(X, i))
Onomatopoeia(M, W, P, X, R) ==
    {Proposal(M, X, R, p[1], p[1] + 2 * p[2], NotPrefix(P, X, p[1], p[1] + 2 * p[2])) :
        p \in {q \in (0..(N(X) - 1)) \X (2..4) :
                 /\ In(X, q[1], Bits(R)) /\ Repeats(X, q[1], q[2])
                 /\ Part(X, q[1], q[1] + 2 * q[2]) \notin W}}

(* numeric: the longest number from every position.  Besides characters of  *)
(* the class a number may have 数 何 幾 before a digit or a unit, 分の and   *)
(* ぶんの between digits, a unit prefix (キロ ...) after a digit or 数 何 幾, *)
(* a comma before exactly three figures and a period between digits.        *)
At(X, i, s) == i + Len(s) <= N(X) /\ Part(X, i, i + Len(s)) = s
Inter == {<<12406, 12435, 12398>>, <<20998, 12398>>}
Units == {<<12461, 12525>>, <<12513, 12460>>, <<12462, 12460>>, <<12486, 12521>>, <<12511, 12522>>}

UnitLen(X, i) == IF i > 0 /\ In(X, i - 1, Exception) /\ \E s \in Units : At(X, i, s) THEN 2 ELSE 0
PrefixLen(X, i) == IF U(X, i) \in KanjiExceptions /\ i + 1 < N(X) /\ (In(X, i + 1, FIGURE_DIGIT) \/ UnitLen(X, i + 1) > 0)
                   THEN 1 + UnitLen(X, i + 1) ELSE 0
InterLen(X, i, c) == IF In(X, i - 1, c) /\ \E s \in Inter : At(X, i, s) /\ In(X, i + Len(s), c)
                     THEN Len(CHOOSE s \in Inter : At(X, i, s)) ELSE 0
CommaLen(X, i) == IF In(X, i, COMMA) /\ \A k \in 1..3 : In(X, i + k, FIGURE) /\ ~In(X, i + 4, FIGURE) THEN 1 ELSE 0
PeriodLen(X, i, c) == IF In(X, i, NumPeriod) /\ In(X, i - 1, c) /\ In(X, i + 1, c) THEN 1 ELSE 0

FirstPos(s) == IF \E k \in DOMAIN s : s[k] > 0 THEN s[CHOOSE k \in DOMAIN s : s[k] > 0 /\ \A j \in 1..(k - 1) : s[j] = 0] ELSE 0
Extra(X, start, i, c) ==
    IF i = start THEN PrefixLen(X, i)
    ELSE FirstPos(<<PrefixLen(X, i), InterLen(X, i, c), UnitLen(X, i), CommaLen(X, i), PeriodLen(X, i, c)>>)
RECURSIVE NumberFrom(_, _, _, _)
NumberFrom(X, start, i, c) ==
    IF i >= N(X) \/ i - start > 64 THEN i
    ELSE IF In(X, i, c) THEN NumberFrom(X, start, i + 1, c)
    ELSE LET k == Extra(X, start, i, c) IN IF k = 0 THEN i ELSE NumberFrom(X, start, i + k, c)
(* a number that is a word of the dictionary is proposed only if no entry   *)
(* of this word looks like the template                                     *)
LooksLike(M, R, v) == \A j \in DOMAIN M.feat :
    (\E k \in DOMAIN R.srf : R.srf[k] = M.feat[j]) \/ v[M.feat[j]] = M.rows[R.row].v[M.feat[j]]
Numeric(M, W, P, X, R) ==
    LET c == Bits(R)
        spans == {<<i, NumberFrom(X, i, i, c)>> : i \in 0..(N(X) - 1)}
        Known(p) == Part(X, p[1], p[2]) \in W
        Shown(p) == LET rows == RowsOfSurface(M, TextOf(X, p[1], p[2])) IN
                    \A i \in DOMAIN rows : ~LooksLike(M, R, rows[i])
    IN {Proposal(M, X, R, p[1], p[2], NotPrefix(P, X, p[1], p[2])) :
          p \in {q \in spans : q[1] < q[2] /\ (Known(q) => Shown(q))}}

(* normalize: spellings of words with prolonged sounds and small letters    *)
(* small letter -> large letter *)
Upper(c) ==
    CASE c \in {12353} -> 12354
      [] c \in {12355} -> 12356
      [] c \in {12357} -> 12358
      [] c \in {12359} -> 12360
      [] c \in {12361} -> 12362
      [] c \in {12430} -> 12431
      [] c \in {12534} -> 12465
      [] c \in {12465} -> 12534
      [] OTHER -> 0
(* vowel a prolongation mark can stand for after c *)
Prolonged(c) ==
    CASE c \in {12363, 12364, 12400, 12414, 12419} -> 12354
      [] c \in {12356, 12365, 12375, 12385, 12395, 12402, 12376, 12369, 12379, 12408, 12417, 12428, 12370, 12380, 12391, 12409, 12410, 12360, 12397} -> 12356
      [] c \in {12367, 12377, 12388, 12405, 12422, 12368, 12378, 12407, 12421, 12362, 12371, 12381, 12392, 12398, 12411, 12418, 12424, 12429, 12372, 12382, 12393, 12412, 12413, 12423} -> 12358
      [] OTHER -> 0
(* ... second choice *)
ProlongedE(c) ==
    CASE c \in {12360, 12369, 12370, 12379, 12380, 12390, 12391, 12397, 12408, 12409, 12417, 12428} -> 12360
      [] OTHER -> 0
(* small letter that only stretches the sound of c *)
Lower(c) ==
    CASE c \in {12363, 12373, 12383, 12394, 12399, 12414, 12420, 12425, 12431, 12364, 12374, 12384, 12400, 12401} -> 12353
      [] c \in {12356, 12375, 12395, 12426, 12366, 12376, 12397, 12428, 12380} -> 12355
      [] c \in {12358, 12367, 12377, 12405, 12416, 12427, 12424} -> 12357
      [] c \in {12369, 12379, 12390, 12417, 12391} -> 12359
      [] c \in {12371, 12381, 12398, 12418, 12429, 12382, 12393} -> 12361
      [] OTHER -> 0

fORIGINAL == 1  fREPLACE_SMALLKANA == 2  fREPLACE == 4  fDELETE == 8  fREPLACE_PROLONG == 16  fDELETE_LAST == 32
fDELETE_PROLONG == 64  fDELETE_HATSUON == 128  fDELETE_SMALLKANA == 256  fEROW == 512

Mark(X, i) == In(X, i, CHOON) /\ In(X, i, Double)
SmallTsu == {12387, 12483}
AlwaysDelete == SPACE + IDEOGRAPHIC_PUNC + FIGURE + PERIOD + MIDDLE_DOT + ALPH + SYMBOL + BRACKET + SLASH + COLON + COMMA
CanDrop(D, X, i) ==  \* kind of deletion at i; D: the character before can be deleted
    CASE i = 0 \/ ~In(X, i, Double) -> 0
      [] Mark(X, i) /\ (D \/ In(X, i - 1, Prolongable)) -> fDELETE_PROLONG
      [] /\ U(X, i) \in SmallTsu
         /\ \/ D \/ i + 1 = N(X)
            \/ In(X, i + 1, AlwaysDelete)
            \/ U(X, i + 1) = U(X, i)
            \/ \E b \in {HIRAGANA, KATAKANA} : In(X, i - 1, b) /\ In(X, i, b) /\ In(X, i + 1, b)
         -> fDELETE_HATSUON
      [] \/ Lower(U(X, i - 1)) = U(X, i)
         \/ D /\ U(X, i) \in {12353, 12355, 12357, 12359, 12361} /\ U(X, i) = U(X, i - 1)
         -> fDELETE_SMALLKANA
      [] OTHER -> 0
RECURSIVE Drops(_, _)
Drops(X, i) == IF i < 0 THEN <<>>
               ELSE LET d == Drops(X, i - 1)
                    IN Append(d, CanDrop(i > 0 /\ d[i] > 0, X, i))  \* d[i] is position i - 1
(* other readings of the character at i: <<character or 0, flags>>          *)
Readings(X, i, drop) ==
    LET pr == IF i > 0 /\ Mark(X, i) THEN Prolonged(U(X, i - 1)) ELSE 0
        pe == IF i > 0 /\ Mark(X, i) THEN ProlongedE(U(X, i - 1)) ELSE 0
    IN {<<U(X, i), {}>>}
       \cup (IF pr > 0 THEN {<<pr, {fREPLACE, fREPLACE_PROLONG}>>} ELSE {})
       \cup (IF pr > 0 /\ pe > 0 THEN {<<pe, {fREPLACE, fREPLACE_PROLONG, fEROW}>>} ELSE {})
       \cup (IF pr = 0 /\ In(X, i, Double) /\ Upper(U(X, i)) > 0 THEN {<<Upper(U(X, i)), {fREPLACE, fREPLACE_SMALLKANA}>>} ELSE {})
       \cup (IF drop > 0 THEN {<<0, {fDELETE, drop}>>} ELSE {})

(* derivations that start at b and end before e: <<word so far, flags, last *)
(* character deleted>>; the first character is always kept                  *)
RECURSIVE Derive(_, _, _, _, _)
Derive(P, X, dr, b, e) ==
    IF e = b + 1 THEN {d \in {<<Part(X, b, e), {}, FALSE>>} : d[1] \in P}
    ELSE UNION {{n \in {<<IF r[1] = 0 THEN d[1] ELSE Append(d[1], r[1]), d[2] \cup r[2], r[1] = 0>>
                            : r \in Readings(X, e - 1, dr[e])} : n[1] \in P}
                : d \in Derive(P, X, dr, b, e - 1)}
Flags(d) == fORIGINAL + SumSet(d[2]) + (IF d[3] THEN fDELETE_LAST ELSE 0)

(* groups of a word: the rows that share a candidate                        *)
Groups(M, word) == LET rs == SelectSeq(M.rows, LAMBDA r : ~r.t /\ r.u = word)
                       vis == [i \in DOMAIN rs |-> Visible(M, rs[i])]
                   IN {SelectSeq(vis, LAMBDA v : Key(M, v) = Key(M, vis[i])) : i \in DOMAIN vis}
(* one proposal per group and span, with the flags of some derivation:      *)
(* {[s, e, word, rows, phs (set of possible placeholder values)]}           *)
NormSpans(M, W, P, X, R) ==
    LET dr == Drops(X, N(X) - 1) IN
    UNION {LET ds == {d \in Derive(P, X, dr, p[1], p[2]) : d[1] \in W /\ d[2] # {}}
           IN UNION {{[s |-> p[1], e |-> p[2], g |-> g,
                       rows |-> [i \in DOMAIN g |-> Fields(X, R, g[i], p[1], p[2])],
                       phs |-> {Holders(M, R, Flags(d)) : d \in {x \in ds : x[1] = w}}] : g \in Groups(M, w)}
                     : w \in {d[1] : d \in ds}}
           : p \in {q \in (0..(N(X) - 1)) \X (1..N(X)) : q[1] < q[2]}}

Propose(M, W, P, X, R) ==
    CASE R.kind = "single" -> Single(M, W, P, X, R)
      [] R.kind = "chunking" -> Chunking(M, W, P, X, R)
      [] R.kind = "onomatopeia" -> Onomatopoeia(M, W, P, X, R)
      [] R.kind = "numeric" -> Numeric(M, W, P, X, R)
      [] OTHER -> {}

(* -------------------------------------------------------- the whole lattice *)
DicSpans(M, W, X) == {p \in (0..(N(X) - 1)) \X (1..N(X)) : p[1] < p[2] /\ Part(X, p[1], p[2]) \in W}
RECURSIVE ReachTo(_, _, _, _)
ReachTo(spans, i, n, acc) == IF i > n THEN acc
    ELSE ReachTo(spans, i + 1, n, IF \E p \in spans : p[2] = i /\ p[1] \in acc THEN acc \cup {i} ELSE acc)
Reach(spans, n) == ReachTo(spans, 1, n, {0})
=============================================================================
