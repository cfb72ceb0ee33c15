------------------------------ MODULE Features ------------------------------
(* Features of the linear model (docs/spec.md): what the templates name.    *)
(*                                                                          *)
(* A model M has fields (types, names, trie: the number of the indexed      *)
(* field), primitive features prims[name] and templates ngrams, each a      *)
(* sequence of one to three lists of names (oldest morpheme first).         *)
(* A sentence X has code points u.  A morpheme is                           *)
(*   [k ("BOS", "EOS", "word"), s, e, row (field values), tpl (values that  *)
(*    the dictionary had for it), txt (is the field taken from the          *)
(*    text?), ph (placeholder values)].                                     *)
(*                                                                          *)
(* The value of a primitive feature is a sequence of strings; the key of a  *)
(* template in a context is what the weight is allowed to depend on.        *)
EXTENDS Utf8, Bitwise

FldStr(M, n, f) ==
    IF M.types[f] = "string" THEN (IF n.txt[f] = 1 THEN "T" ELSE "D") \o n.row[f] ELSE ToString(n.row[f])
Chars(M, n, f) == IF f = M.trie \/ n.txt[f] = 1 THEN n.e - n.s ELSE M.cplen[n.row[f]]

RECURSIVE OrClasses(_, _, _, _)
OrClasses(X, i, e, acc) == IF i >= e THEN acc ELSE OrClasses(X, i + 1, e, acc | X.cls[i + 1])
(* position (from 0) of the k-th character after the end (k > 0) or before  *)
(* the start (k < 0), -1 if there is none                                   *)
Offset(X, n, k) == LET p == IF k > 0 THEN n.e + k - 1 ELSE n.s + k
                   IN IF p >= 0 /\ p < Len(X.u) THEN p ELSE -1

(* condition of a match feature, by what the dictionary has for the entry   *)
Items(M, f, v) ==
    IF M.types[f] = "string" THEN {v}
    ELSE IF M.types[f] = "string_list" THEN {v[i] : i \in DOMAIN v}
    ELSE {v[i][1] : i \in DOMAIN v}
Fires(M, p, row) == \E i \in DOMAIN p.vals : \A j \in DOMAIN p.fs : p.vals[i][j] \in Items(M, p.fs[j], row[p.fs[j]])
Matches(M, p, n) == Fires(M, p, IF n.tpl = <<>> THEN n.row ELSE n.tpl)

RECURSIVE FieldValues(_, _, _, _)
FieldValues(M, n, fs, acc) == IF fs = <<>> THEN acc
    ELSE FieldValues(M, n, SubSeq(fs, 2, Len(fs)), Append(acc, FldStr(M, n, fs[1])))
Value(M, X, n, name) ==
    LET p == M.prims[name]
        eos == n.k = "EOS"
    IN CASE p.k = "field" -> <<IF eos THEN "E" ELSE FldStr(M, n, p.f)>>
         [] p.k = "bytes" -> <<ToString(IF eos THEN 0 ELSE Len(n.row[p.f]))>>
         [] p.k = "chars" -> <<ToString(IF eos THEN 0 ELSE Chars(M, n, p.f))>>
         [] p.k = "cp" -> LET i == Offset(X, n, p.n) IN <<IF i = -1 THEN "none" ELSE ToString(X.u[i + 1])>>
         [] p.k = "ct" -> LET i == Offset(X, n, p.n) IN
               <<ToString(IF p.n = 0 THEN OrClasses(X, n.s, n.e, 0) ELSE IF i = -1 THEN 0 ELSE X.cls[i + 1])>>
         [] p.k = "ph" -> <<ToString(IF eos THEN 0 ELSE n.ph[p.n])>>
         [] p.k = "match" ->
               IF eos THEN <<"E">>
               ELSE IF p.then = <<>> THEN <<IF Matches(M, p, n) THEN "1" ELSE "0">>
               ELSE FieldValues(M, n, IF Matches(M, p, n) THEN p.then ELSE p.else, <<>>)

(* all values of a list of names *)
RECURSIVE Values(_, _, _, _, _)
Values(M, X, n, names, acc) == IF names = <<>> THEN acc
    ELSE Values(M, X, n, SubSeq(names, 2, Len(names)), acc \o Value(M, X, n, names[1]))
Pattern(M, X, n, names) == IF n.k = "BOS" THEN <<"B">> ELSE Values(M, X, n, names, <<>>)
=============================================================================
