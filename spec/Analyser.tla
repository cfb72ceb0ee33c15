------------------------------ MODULE Analyser ------------------------------
(* An analyser object as its users see it: it is asked for analyses one     *)
(* after the other, and its settings can be changed in between.             *)
(* What it answers is a function of the text and of the settings in force;  *)
(* nothing of earlier texts, rejected texts or interrupted analyses is left.*)
EXTENDS Utf8

(* Positions (two starts, the characters, one end) are numbered with 16     *)
(* bits: no more than MaxCharacters fit, SureCharacters fit even if one of  *)
(* the bits is a sign.                                                      *)
MaxCharacters == 65533
SureCharacters == 32765

(* unit repeated rep times: bytes of a text are given in this form *)
TextLen(t) == Len(t.ib) * t.rep
TextOk(t) == Valid(t.ib)
TextChars(t) == Len(Decode(t.ib).chars) * t.rep

(* the outcomes of the first step *)
Refused(t, maxBytes) == \/ TextLen(t) > maxBytes
                        \/ ~TextOk(t)
                        \/ TextChars(t) > MaxCharacters
MayRefuse(t, maxBytes) == Refused(t, maxBytes) \/ TextChars(t) > SureCharacters
=============================================================================
