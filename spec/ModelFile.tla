------------------------------ MODULE ModelFile ------------------------------
(* Model files.  The first page has a signature, the length of the header   *)
(* and the header: the list of parts with kind, comment and the extents of  *)
(* their blocks; then come the blocks.  A file is refused unless signature  *)
(* and header are complete and every block is inside of the file.           *)
EXTENDS BinCodec, FiniteSets

PageSize == 4096
Magic == <<106, 112, 50, 77, 100, 108, 33>>   \* jp2Mdl! (and a zero byte)
At(h, i) == IF i < Len(h) THEN h[i + 1] ELSE 0 \* byte i of the first page

(* Reads [n |-> number] or fails: numbers from 2^28 on are outside of any file here. *)
Bad == [ok |-> FALSE, v |-> <<>>, next |-> 0]
RECURSIVE DecBlocks(_, _, _, _)
DecBlocks(s, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, next |-> p]
    ELSE LET a == DecInt(s, p)
             b == DecInt(s, a.next)
         IN IF ~a.ok \/ ~b.ok THEN Bad
            ELSE DecBlocks(s, b.next, n - 1, Append(acc, [off |-> a.v, size |-> b.v]))
DecPart(s, p) ==
    LET k == DecInt(s, p)
        c == DecStr(s, k.next)
        n == DecInt(s, c.next)
        bs == DecBlocks(s, n.next, Val(n.v), <<>>)
        st == DecInt(s, bs.next)
        en == DecInt(s, st.next)
    IN IF ~k.ok \/ ~c.ok \/ ~n.ok \/ Len(n.v) > 2 \/ ~bs.ok \/ ~st.ok \/ ~en.ok THEN Bad
       ELSE [ok |-> TRUE, v |-> [kind |-> k.v, comment |-> c.v, blocks |-> bs.v], next |-> en.next]
RECURSIVE DecParts(_, _, _, _)
DecParts(s, p, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, v |-> acc, next |-> p]
    ELSE LET r == DecPart(s, p) IN
         IF ~r.ok THEN Bad ELSE DecParts(s, r.next, n - 1, Append(acc, r.v))

Num(d) == Len(d) <= 4
Inside(b, size) == \/ b.size = <<0>>
                   \/ Num(b.off) /\ Num(b.size) /\ Val(b.off) + Val(b.size) <= size
(* What a file of the given size with the first page h says: its parts, or a refusal. *)
Decode(h, size) ==
    LET page == [i \in 1..(IF size < PageSize THEN size ELSE PageSize) |-> At(h, i - 1)]
        len == DecInt(page, 9)
        hend == len.next + Val(len.v)
        s == SubSeq(page, 1, hend - 1)
        n == DecInt(s, len.next)
        ps == DecParts(s, n.next, Val(n.v), <<>>)
    IN IF size < 10 \/ SubSeq(page, 1, 7) # Magic THEN Bad
       ELSE IF ~len.ok \/ Len(len.v) > 2 \/ hend - 1 > Len(page) THEN Bad
       ELSE IF ~n.ok \/ Len(n.v) > 2 \/ ~ps.ok \/ ps.next # hend THEN Bad
       ELSE IF \E i \in DOMAIN ps.v : \E j \in DOMAIN ps.v[i].blocks : ~Inside(ps.v[i].blocks[j], size) THEN Bad
       ELSE ps

Sum(f, n) == FoldLeft(LAMBDA a, i : a + f[i], 0, [i \in 1..n |-> i])
=============================================================================
