------------------------------ MODULE Options ------------------------------
(* Options of the analyser program.  A layer (the command line, or one      *)
(* configuration file) is a sequence of items [o |-> option, v |-> value];  *)
(* "" is a file name given without an option.  Values are texts.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

Ints   == {"beam", "global-beam", "right-beam", "right-check", "log-level", "lattice"}
Floats == {"rnn-nce-bias", "rnn-unk-constant", "rnn-unk-length",
           "feature-weight-perceptron", "feature-weight-rnn"}
Texts  == {"output", "model", "rnn-model", "graphviz-dir", "segment-separator",
           "rnn-unk", "rnn-eos", "rnn-separator"}
Flags  == {"juman", "morph", "full-morph", "dic-subset", "segment", "partial-input", "model-info", "version"}
Others == {"config", "auto-nbest", "format", "rnn-fields", ""}
Known  == Ints \cup Floats \cup Texts \cup Flags \cup Others

Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Ch(s, i) == SubSeq(s, i, i)
DigitsAt(s, from) == Len(s) >= from /\ \A i \in from..Len(s) : Ch(s, i) \in Digits
DigitVal(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE NumAt(_, _, _)
NumAt(s, i, acc) == IF i > Len(s) THEN acc ELSE NumAt(s, i + 1, (acc * 10) + DigitVal(Ch(s, i)))
\* integers of up to nine digits, with a sign or not; longer ones do not fit
Neg(s) == Len(s) > 0 /\ Ch(s, 1) = "-"
IntOk(s) == LET f == IF Neg(s) THEN 2 ELSE 1 IN DigitsAt(s, f) /\ Len(s) - f < 9
IntVal(s) == IF Neg(s) THEN 0 - NumAt(s, 2, 0) ELSE NumAt(s, 1, 0)

RECURSIVE SplitAt(_, _, _, _, _)
SplitAt(s, c, i, cur, acc) ==
    IF i > Len(s) THEN Append(acc, cur)
    ELSE IF Ch(s, i) = c THEN SplitAt(s, c, i + 1, "", Append(acc, cur))
    ELSE SplitAt(s, c, i + 1, cur \o Ch(s, i), acc)
Split(s, c) == SplitAt(s, c, 1, "", <<>>)
AutoOk(s) == LET p == Split(s, ":") IN Len(p) = 3 /\ \A i \in 1..3 : DigitsAt(p[i], 1) /\ Len(p[i]) <= 9
AutoVal(s) == LET p == Split(s, ":") IN <<NumAt(p[1], 1, 0), NumAt(p[2], 1, 0), NumAt(p[3], 1, 0)>>
\* decimals as the generator writes them: an integer, a point and digits
FloatOk(s) == LET p == Split(s, ".")
              IN /\ Len(p) \in {1, 2}
                 /\ IntOk(p[1])
                 /\ Len(p) = 2 => DigitsAt(p[2], 1)

Names == [juman |-> "Juman", morph |-> "Morph", lattice |-> "Lattice", segment |-> "Segmentation",
          full_morph |-> "FullMorph", dic_subset |-> "DicSubset", model_info |-> "ModelInfo", version |-> "Version"]
Order == <<"Invalid", "Version", "ModelInfo", "Segmentation", "Juman", "Morph", "FullMorph", "DicSubset", "Lattice">>
TypeNum(n) == (CHOOSE i \in DOMAIN Order : Order[i] = n) - 1
TypeOf(o) == CASE o = "juman" -> "Juman" [] o = "morph" -> "Morph" [] o = "full-morph" -> "FullMorph"
               [] o = "dic-subset" -> "DicSubset" [] o = "segment" -> "Segmentation" [] o = "lattice" -> "Lattice"
               [] o = "version" -> "Version" [] o = "model-info" -> "ModelInfo" [] OTHER -> "Invalid"
Formats == {"juman", "morph", "full-morph", "dic-subset", "segment", "lattice"}

\* i.n: the item has a value
ItemOk(i) ==
    /\ i.o \in Known
    /\ i.o \in Flags => ~i.n
    /\ i.o \notin Flags => i.n
    /\ i.o \in Ints => IntOk(i.v)
    /\ i.o \in Floats => FloatOk(i.v)
    /\ i.o = "auto-nbest" => AutoOk(i.v)
    /\ i.o = "format" => i.v \in Formats
LayerOk(l) == \A k \in DOMAIN l : ItemOk(l[k])

\* last value of an option in a layer
Has(l, o) == \E k \in DOMAIN l : l[k].o = o
LastOf(l, o) == l[CHOOSE k \in DOMAIN l : l[k].o = o /\ \A m \in (k + 1)..Len(l) : l[m].o # o].v
All(l, o) == LET s == SelectSeq(l, LAMBDA i : i.o = o) IN [k \in DOMAIN s |-> s[k].v]

\* Layers in the order of their precedence.  V(l): the layer gives a value.
Pick(ls, has(_), val(_), dflt) ==
    IF \E k \in DOMAIN ls : has(ls[k])
    THEN val(ls[CHOOSE k \in DOMAIN ls : has(ls[k]) /\ \A m \in 1..(k - 1) : ~has(ls[m])])
    ELSE dflt
PickText(ls, o, dflt) == Pick(ls, LAMBDA l : Has(l, o), LAMBDA l : LastOf(l, o), dflt)
\* the part p of automatic sizes replaces the option o in its layer
PickInt(ls, o, p, dflt) ==
    Pick(ls, LAMBDA l : Has(l, o) \/ (p > 0 /\ Has(l, "auto-nbest")),
         LAMBDA l : IF p > 0 /\ Has(l, "auto-nbest") THEN AutoVal(LastOf(l, "auto-nbest"))[p] ELSE IntVal(LastOf(l, o)), dflt)

TypeOpts(l) == {l[k].o : k \in DOMAIN l} \cap {"juman", "morph", "full-morph", "dic-subset", "segment", "lattice", "version", "model-info"}
LayerType(l) == IF Has(l, "format") THEN TypeOf(LastOf(l, "format"))
                ELSE TypeOf(CHOOSE o \in TypeOpts(l) : TRUE)

Effective(ls) ==
    LET auto == \E k \in DOMAIN ls : Has(ls[k], "auto-nbest")
        N == PickInt(ls, "lattice", 0, 1)
        beam == PickInt(ls, "beam", 1, 5)
    IN [config |-> PickText(ls, "config", ""),
        model |-> PickText(ls, "model", ""),
        type |-> TypeNum(Pick(ls, LAMBDA l : Has(l, "format") \/ TypeOpts(l) # {}, LayerType, "Juman")),
        itype |-> IF \E k \in DOMAIN ls : Has(ls[k], "partial-input") THEN 1 ELSE 0,
        output |-> PickText(ls, "output", "-"),
        input |-> Pick(ls, LAMBDA l : Has(l, ""), LAMBDA l : All(l, ""), <<>>),
        rnn_model |-> PickText(ls, "rnn-model", ""),
        graphviz |-> PickText(ls, "graphviz-dir", ""),
        N |-> N,
        beam |-> IF ~auto /\ beam < N THEN N ELSE beam,
        gbeam |-> PickInt(ls, "global-beam", 3, 6),
        rbeam |-> PickInt(ls, "right-beam", 0, 5),
        rcheck |-> PickInt(ls, "right-check", 0, 1),
        log |-> PickInt(ls, "log-level", 0, 0),
        auto |-> auto,
        step |-> PickInt(ls, "auto-nbest", 2, 0),
        sep |-> PickText(ls, "segment-separator", " "),
        bias |-> PickText(ls, "rnn-nce-bias", "-9"),
        uconst |-> PickText(ls, "rnn-unk-constant", "-6"),
        ulen |-> PickText(ls, "rnn-unk-length", "-1.5"),
        wperc |-> PickText(ls, "feature-weight-perceptron", "1"),
        wrnn |-> PickText(ls, "feature-weight-rnn", "1"),
        unk |-> PickText(ls, "rnn-unk", "<unk>"),
        eos |-> PickText(ls, "rnn-eos", "</s>"),
        fields |-> Pick(ls, LAMBDA l : Has(l, "rnn-fields"), LAMBDA l : Split(LastOf(l, "rnn-fields"), ","), <<>>),
        rsep |-> PickText(ls, "rnn-separator", "_")]
=============================================================================
