------------------------------- MODULE MC_Pex --------------------------------
(* Sentences of pieces written in every way are read back with the cuts,    *)
(* joins and words that were meant; for all short texts what is read is     *)
(* consistent and nothing is carried over from one sentence to the next.    *)
EXTENDS Pex
CONSTANTS N, Sigma
VARIABLES ph, ex, text
vars == <<ph, ex, text>>

A == <<97>>
Hira == <<227, 129, 130>>
Fld == <<102>>
Names == {Fld}
(* a piece is a sequence of characters, a set of joins, tags, or a comment *)
Stretches == {[k |-> "s", cs |-> c, j |-> {}, t |-> <<>>] : c \in {<<A>>, <<Hira, A>>, <<(<<Hash>>)>>}} \cup
             {[k |-> "s", cs |-> <<A, Hira, A>>, j |-> {1}, t |-> <<>>], [k |-> "s", cs |-> <<A, A>>, j |-> {0, 1}, t |-> <<>>]}
AWords == {[k |-> "w", cs |-> c, j |-> 1..(Len(c) - 1), t |-> t] :
              c \in {<<A>>, <<A, Hira>>, <<A, (<<Amp>>), A>>}, t \in {<<>>, <<(<<Fld, A>>)>>, <<(<<Fld, <<>>>>), (<<Fld, <<Colon, 97>>>>)>>}}
Cs == {[k |-> "c", cs |-> c, j |-> {}, t |-> <<>>] : c \in {<<>>, <<A, (<<Hash>>)>>}}

RECURSIVE Bytes(_, _, _)
Bytes(cs, j, i) == IF i > Len(cs) THEN <<>>
                   ELSE (IF (i - 1) \in j THEN <<Amp>> ELSE <<>>) \o cs[i] \o Bytes(cs, j, i + 1)
RECURSIVE TagBytes(_, _)
TagBytes(t, i) == IF i > Len(t) THEN <<>> ELSE <<TAB>> \o t[i][1] \o <<Colon>> \o t[i][2] \o TagBytes(t, i + 1)
WritePiece(p) == CASE p.k = "s" -> Bytes(p.cs, p.j, 1)
              [] p.k = "w" -> <<TAB>> \o Bytes(p.cs, {}, 1) \o TagBytes(p.t, 1)
              [] p.k = "c" -> <<Hash, 32>> \o Bytes(p.cs, {}, 1)

(* ex: sentences, each a sequence of pieces; the last one is being written *)
Init == ph = "write" /\ ex = <<(<<>>)>> /\ text = <<>>
Cur == ex[Len(ex)]
Total1 == FoldLeft(LAMBDA a, s : a + Len(s), 0, ex)
Put1 == ph = "write" /\ Total1 < N
        /\ \E p \in Stretches \cup AWords \cup Cs, e \in {<<LF>>, <<CR, LF>>} :
              /\ ex' = [ex EXCEPT ![Len(ex)] = Append(@, p)]
              /\ text' = text \o WritePiece(p) \o e /\ ph' = "write"
End1 == ph = "write" /\ Cur # <<>> /\ Total1 < N /\ \E e \in {<<LF>>, <<CR, LF, LF>>} :
              ex' = Append(ex, <<>>) /\ text' = text \o e /\ ph' = "write"
Raw == ph \in {"write", "raw"} /\ ex = <<(<<>>)>> /\ Len(text) < Sigma /\ ph' = "raw" /\ UNCHANGED ex
       /\ \E c \in {97, TAB, LF, Amp, Hash, 32, Colon, 102, 200} : text' = Append(text, c)
Next == Put1 \/ End1 \/ Raw
Spec == Init /\ [][Next]_vars

(* what the pieces of a sentence mean *)
Chars(ps) == FlattenSeq([i \in DOMAIN ps |-> IF ps[i].k = "c" THEN <<>> ELSE ps[i].cs])
Before(ps, i) == Len(Chars(SubSeq(ps, 1, i - 1)))
Joins(ps) == UNION {{Before(ps, i) + x : x \in ps[i].j} : i \in {x \in DOMAIN ps : ps[x].k # "c"}}
Cuts(ps) == {Before(ps, i) : i \in {x \in DOMAIN ps : ps[x].k # "c"}}
TheWords(ps) == LET f(i) == [at |-> Before(ps, i), n |-> Len(ps[i].cs), s |-> FlattenSeq(ps[i].cs), tags |-> ps[i].t]
                    is == SetToSortSeq({i \in DOMAIN ps : ps[i].k = "w"}, LAMBDA x, y : x < y)
                IN [i \in DOMAIN is |-> f(is[i])]
Com(ps) == LET is == {i \in DOMAIN ps : ps[i].k = "c"} IN
           IF is = {} THEN <<>> ELSE FlattenSeq(ps[CHOOSE i \in is : \A j \in is : j <= i].cs)
Means(e, ps) ==
    LET n == Len(Chars(ps)) IN
    /\ e.bad = 0 /\ e.n = n /\ e.text = FlattenSeq(Chars(ps)) /\ e.com = Com(ps)
    /\ Inner(e.req, n) = Inner(Cuts(ps), n) /\ Inner(e.no, n) = Inner(Joins(ps), n)
    /\ e.words = TheWords(ps)
BackOk == ph = "write" =>
    LET es == Sentences(text, Names)
        ss == SelectSeq(ex, LAMBDA s : s # <<>>)
    IN Len(es) = Len(ss) /\ \A i \in DOMAIN es : Means(es[i], ss[i])

(* short texts *)
Same(a, b) == [a EXCEPT !.line = 0, !.bad = 0] = [b EXCEPT !.line = 0, !.bad = 0] /\ (a.bad > 0) = (b.bad > 0)
Twice == ph = "raw" =>
    LET es == Sentences(text, Names)
        tt == Sentences(text \o <<LF, LF>> \o text, Names)
    IN Len(tt) = 2 * Len(es) /\ \A i \in DOMAIN es : Same(es[i], tt[i]) /\ Same(es[i], tt[i + Len(es)])
Sound == ph = "raw" =>
    \A i \in DOMAIN Sentences(text, Names) :
        LET e == Sentences(text, Names)[i] IN e.bad = 0 =>
            /\ e.n = Len(Decode(e.text).chars)
            /\ e.req \subseteq 0..e.n /\ e.no \subseteq 0..e.n
            /\ \A k \in DOMAIN e.words :
                  LET w == e.words[k] IN
                  /\ w.n > 0 /\ w.at + w.n <= e.n /\ (w.at + w.n) \in e.req /\ (w.at = 0 \/ w.at \in e.req)
                  /\ \A p \in 1..(w.n - 1) : (w.at + p) \in e.no /\ ~((w.at + p) \in e.req)
                  /\ k > 1 => e.words[k - 1].at + e.words[k - 1].n <= w.at
=============================================================================
