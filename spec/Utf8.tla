-------------------------------- MODULE Utf8 --------------------------------
(* Decoding of a byte string into characters, byte by byte, and the         *)
(* character classes of code points.                                        *)
EXTENDS Integers, Sequences, SequencesExt

(* Number of bytes a lead byte announces; 0: not a lead byte. *)
Announces(b) == CASE b \in 0..127 -> 1
                  [] b \in 192..223 -> 2
                  [] b \in 224..239 -> 3
                  [] b \in 240..247 -> 4
                  [] OTHER -> 0
Payload(b) == CASE b \in 0..127 -> b
                [] b \in 192..223 -> b - 192
                [] b \in 224..239 -> b - 224
                [] OTHER -> b - 240
IsCont(b) == b \in 128..191

(* st: chars decoded so far <<codepoint, length>>, cp/len of the current    *)
(* one, todo continuation bytes outstanding, ok                             *)
D0 == [chars |-> <<>>, cp |-> 0, len |-> 0, todo |-> 0, ok |-> TRUE]
Emit(st) == IF st.todo = 0
            THEN [st EXCEPT !.chars = Append(@, <<st.cp, st.len>>), !.cp = 0, !.len = 0]
            ELSE st
Byte(st, b) ==
    CASE ~st.ok -> st
      [] st.todo = 0 ->
            IF Announces(b) = 0 THEN [st EXCEPT !.ok = FALSE]
            ELSE Emit([st EXCEPT !.cp = Payload(b), !.len = Announces(b), !.todo = Announces(b) - 1])
      [] OTHER ->
            IF ~IsCont(b) THEN [st EXCEPT !.ok = FALSE]
            ELSE Emit([st EXCEPT !.cp = @ * 64 + (b - 128), !.todo = @ - 1])
Decode(s) == LET st == FoldLeft(Byte, D0, s)
             IN [ok |-> st.ok /\ st.todo = 0, chars |-> st.chars]
Valid(s) == Decode(s).ok

Encode(cp) ==
    CASE cp < 128 -> <<cp>>
      [] cp < 2048 -> <<192 + (cp \div 64), 128 + (cp % 64)>>
      [] cp < 65536 -> <<224 + (cp \div 4096), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
      [] OTHER -> <<240 + (cp \div 262144), 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
EncodeAll(cps) == FoldLeft(LAMBDA acc, c : acc \o Encode(c), <<>>, cps)
Codepoints(s) == LET d == Decode(s) IN [i \in DOMAIN d.chars |-> d.chars[i][1]]

-----------------------------------------------------------------------------
(* Character classes (bit values). *)
SPACE == 1          IDEOGRAPHIC_PUNC == 2   KANJI == 4          FIGURE == 8
PERIOD == 16        MIDDLE_DOT == 32        COMMA == 64         ALPH == 128
SYMBOL == 256       KATAKANA == 512         HIRAGANA == 1024    KANJI_FIGURE == 2048
SLASH == 4096       COLON == 8192           ERA == 16384        CHOON == 32768
HANKAKU_KANA == 65536  BRACKET == 131072    FIGURE_EXCEPTION == 262144
FIGURE_DIGIT == 524288 SMALL_KANA == 1048576

SmallHiragana == {12353, 12355, 12357, 12359, 12361, 12387, 12419, 12421, 12423, 12430, 12437, 12438}
SmallKatakana == {12449, 12451, 12453, 12455, 12457, 12483, 12515, 12517, 12519, 12526, 12533, 12534}
Spaces == {32, 12288, 160, 5760, 6158, 8239, 8287, 65279} \cup 8192..8203
Brackets ==
    {40, 41, 91, 93, 123, 125, 5787, 5788, 8261, 8262, 8317, 8318, 8333, 8334, 9001, 9002,
     10181, 10182, 65371, 65373, 65339, 65341, 65288, 65289}
    \cup 3898..3901 \cup 8968..8971 \cup 10088..10101 \cup 10214..10223
    \cup 10627..10648 \cup 10712..10715 \cup 10748..10749 \cup 11810..11817
    \cup 12296..12305 \cup 12308..12315 \cup 65113..65118 \cup 65375..65376 \cup 65378..65379
KanjiDigits == {9675, 12295, 38646, 19968, 20108, 19977, 22235, 20116, 20845, 19971, 20843, 20061}
KanjiPowers == {21313, 30334, 21315, 19975, 20740, 20806}
KanjiExceptions == {25968, 20309, 24190}
Prolongation == {12540, 12316, 65374, 8764}

Class(c) ==
    CASE c \in Spaces -> SPACE
      [] c \in 12289..12290 -> IDEOGRAPHIC_PUNC
      [] c \in 13179..13182 -> SYMBOL + ERA
      [] c \in 12352..12447 -> HIRAGANA + (IF c \in SmallHiragana THEN SMALL_KANA ELSE 0)
      [] c \in 12448..12538 \/ c \in 12541..12543 ->
            KATAKANA + (IF c \in SmallKatakana THEN SMALL_KANA ELSE 0)
      [] c \in Prolongation -> HIRAGANA + KATAKANA + CHOON
      [] c = 65392 -> HANKAKU_KANA + CHOON
      [] c \in 65382..65439 -> HANKAKU_KANA
      [] c \in {183, 12539} -> MIDDLE_DOT
      [] c \in {44, 65292} -> COMMA
      [] c \in {47, 65295} -> SLASH
      [] c \in {58, 65306} -> COLON
      [] c = 65294 -> PERIOD
      [] c \in 48..57 \/ c \in 65296..65305 -> FIGURE
      [] c \in KanjiDigits -> KANJI_FIGURE + KANJI
      [] c \in KanjiExceptions -> FIGURE_EXCEPTION + KANJI
      [] c \in KanjiPowers -> KANJI_FIGURE + FIGURE_DIGIT
      [] \/ c \in 64..91 \/ c \in 96..123 \/ c \in 191..256
         \/ c \in 65312..65339 \/ c \in 65344..65371
         \/ c \in 880..1023 \/ c \in 1024..1279 -> ALPH
      [] c \in 19968..40959 \/ c = 12293 -> KANJI
      [] c \in Brackets -> BRACKET
      [] OTHER -> SYMBOL

HasClass(cls, bits) == \E k \in 0..20 : (cls \div (2 ^ k)) % 2 = 1 /\ (bits \div (2 ^ k)) % 2 = 1
=============================================================================
