------------------------------ MODULE BinCodec ------------------------------
(* The binary encodings of model files: variable length integers (groups of *)
(* seven bits, least significant first, top bit set on all but the last),   *)
(* four byte little endian words, strings with a length prefix, raw bytes.  *)
(* Integers are sequences of base 128 digits, least significant first,      *)
(* without leading zeros (64 bit numbers do not fit TLC's integers).        *)
EXTENDS Integers, Sequences, SequencesExt

RECURSIVE Trim(_)
Trim(d) == IF Len(d) > 1 /\ d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
RECURSIVE Digits(_)
Digits(n) == IF n < 128 THEN <<n>> ELSE <<n % 128>> \o Digits(n \div 128)
(* Small values only (lengths). *)
RECURSIVE Val(_)
Val(d) == IF Len(d) = 0 THEN 0 ELSE d[1] + 128 * Val(Tail(d))

EncInt(d) == [i \in DOMAIN d |-> IF i < Len(d) THEN d[i] + 128 ELSE d[i]]

(* An operation of a writer: [t |-> "int", v |-> digits], [t |-> "word", v |-> 4 bytes], *)
(* [t |-> "str" or "raw", v |-> bytes]                                       *)
EncOp(op) == CASE op.t = "int" -> EncInt(op.v)
               [] op.t = "str" -> EncInt(Digits(Len(op.v))) \o op.v
               [] OTHER -> op.v
EncAll(ops) == FoldLeft(LAMBDA a, o : a \o EncOp(o), <<>>, ops)

Fail == [ok |-> FALSE, v |-> <<>>, next |-> 0]
(* Reads at position p (1-based) of bytes s. *)
DecInt(s, p) ==
    LET stop == {k \in p..Len(s) : k < p + 10 /\ s[k] < 128} IN
    IF stop = {} THEN Fail
    ELSE LET e == CHOOSE k \in stop : \A j \in stop : k <= j
             d == [i \in 1..(e - p + 1) |-> IF i = 10 THEN s[p + i - 1] % 2 ELSE s[p + i - 1] % 128]
         IN [ok |-> TRUE, v |-> Trim(d), next |-> e + 1]
(* A length that is read must not exceed what is there. *)
DecStr(s, p) ==
    LET l == DecInt(s, p) IN
    IF ~l.ok \/ Len(l.v) > 3 THEN Fail
    ELSE LET n == Val(l.v) IN
         IF l.next + n - 1 > Len(s) THEN Fail
         ELSE [ok |-> TRUE, v |-> SubSeq(s, l.next, l.next + n - 1), next |-> l.next + n]
DecOp(t, s, p, n) ==
    CASE t = "int" -> DecInt(s, p)
      [] t = "str" -> DecStr(s, p)
      [] OTHER -> IF p + n - 1 > Len(s) THEN Fail ELSE [ok |-> TRUE, v |-> SubSeq(s, p, p + n - 1), next |-> p + n]

(* Reads a list of types; stops at the first failure. *)
RECURSIVE DecAll(_, _, _, _)
DecAll(ts, s, p, acc) ==
    IF ts = <<>> THEN [vals |-> acc, next |-> p]
    ELSE LET r == DecOp(Head(ts), s, p, 4) IN
         IF ~r.ok THEN [vals |-> acc, next |-> 0]
         ELSE DecAll(Tail(ts), s, r.next, Append(acc, r.v))
=============================================================================
