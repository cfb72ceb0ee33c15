---------------------------- MODULE T_ModelFile ----------------------------
(* c.saved: the parts that were saved (kind, comment, blocks as [seed, size]);*)
(* c.ok: saving succeeded; c.h, c.size: first page (without zeros at its end) *)
(* and size of the file; c.load: what loading gave; c.limit: the file could   *)
(* not get bigger than that (0: no limit); c.cuts, c.dmg: copies of the file  *)
(* that were cut, or had bytes of the first page replaced.                    *)
EXTENDS TraceCommon, ModelFile
Byte(seed, i) == (seed + i * 7 + (i \div 256) * 13) % 251

RECURSIVE SetAll(_, _)
SetAll(h, ch) == IF ch = <<>> THEN h
                 ELSE LET p == ch[1][1]
                          n == IF p >= Len(h) THEN p + 1 ELSE Len(h)
                      IN SetAll([i \in 1..n |-> IF i = p + 1 THEN ch[1][2] ELSE At(h, i - 1)], SubSeq(ch, 2, Len(ch)))

(* the extents of the blocks as they were saved: sequence of [off, seed, size] *)
Extents(c, ps) == UNION {{[off |-> Val(ps[i].blocks[j].off), seed |-> c.saved[i].blocks[j][1], size |-> Val(ps[i].blocks[j].size)] :
                             j \in DOMAIN ps[i].blocks} : i \in DOMAIN ps}
(* -1: not known (between blocks, in a file which was there before) *)
FileByte(h, ex, o, fresh) ==
    IF o < PageSize THEN At(h, o)
    ELSE LET in == {e \in ex : e.off <= o /\ o < e.off + e.size}
         IN IF in = {} THEN (IF fresh THEN 0 ELSE -1) ELSE LET e == CHOOSE x \in in : TRUE IN Byte(e.seed, o - e.off)

(* a loaded block [n, up to four first bytes, up to four last bytes, seed if it is whole as it was saved] *)
Four(n) == IF n < 4 THEN n ELSE 4
BlockIs(h, ex, b, l, fresh) ==
    LET o == Val(b.off)
        n == Val(b.size)
    IN /\ l.n = n
       /\ Len(l.first) = Four(n) /\ Len(l.last) = Four(n)
       /\ \A i \in 1..Four(n) :
            /\ FileByte(h, ex, o + i - 1, fresh) \in {-1, l.first[i]}
            /\ FileByte(h, ex, o + n - Four(n) + i - 1, fresh) \in {-1, l.last[i]}
       /\ \A e \in ex : (n > 0 /\ e.off = o /\ e.size = n) => l.seed = e.seed
KindIs(d, k) == Len(d) <= 4 => Val(d) = k
LoadIs(h, ex, ps, l, fresh) ==
    /\ Len(l) = Len(ps)
    /\ \A i \in DOMAIN ps :
        /\ KindIs(ps[i].kind, l[i].kind) /\ l[i].comment = ps[i].comment
        /\ Len(l[i].blocks) = Len(ps[i].blocks)
        /\ \A j \in DOMAIN ps[i].blocks : BlockIs(h, ex, ps[i].blocks[j], l[i].blocks[j], fresh)

Disjoint(ex) == \A a, b \in ex : a.off >= PageSize /\ a.off % 16 = 0
                                 /\ (a = b \/ a.size = 0 \/ b.size = 0 \/ a.off + a.size <= b.off \/ b.off + b.size <= a.off)
NumBlocks(c) == Sum([i \in DOMAIN c.saved |-> Len(c.saved[i].blocks)], Len(c.saved))

SavedOk(c) ==
    LET d == Decode(c.h, c.size)
        ex == Extents(c, d.v)
    IN /\ d.ok /\ Len(d.v) = Len(c.saved)
       /\ \A i \in DOMAIN d.v :
            /\ Val(d.v[i].kind) = c.saved[i].kind /\ d.v[i].comment = c.saved[i].comment
            /\ Len(d.v[i].blocks) = Len(c.saved[i].blocks)
            /\ \A j \in DOMAIN d.v[i].blocks : Val(d.v[i].blocks[j].size) = c.saved[i].blocks[j][2]
       /\ Cardinality({e \in ex : e.size > 0}) = Sum([i \in DOMAIN c.saved |-> Cardinality({j \in DOMAIN c.saved[i].blocks : c.saved[i].blocks[j][2] > 0})], Len(c.saved))
       /\ Disjoint(ex)
       /\ c.load.ok /\ LoadIs(c.h, ex, d.v, c.load.parts, c.fresh)
       /\ \A i \in DOMAIN c.cuts :
            LET k == Decode(SubSeq(c.h, 1, IF c.cuts[i].at < Len(c.h) THEN c.cuts[i].at ELSE Len(c.h)), c.cuts[i].at)
            IN \/ (k.ok => c.cuts[i].at < PageSize) /\ ~c.cuts[i].load.ok
               \/ k.ok /\ c.cuts[i].load.ok /\ LoadIs(c.h, ex, d.v, c.cuts[i].load.parts, c.fresh)
               \/ ~PrintT(<<"CUT", idx, i>>)
       /\ \A i \in DOMAIN c.dmg :
            LET h == SetAll(c.h, c.dmg[i].ch)
                k == Decode(h, c.size)
            IN \/ ~c.dmg[i].load.ok /\ (c.dmg[i].ch = <<>> => ~k.ok)
               \/ k.ok /\ c.dmg[i].load.ok /\ LoadIs(h, ex, k.v, c.dmg[i].load.parts, c.fresh)
               \/ ~PrintT(<<"DMG", idx, i>>)

(* only a header that does not fit may be refused *)
MayRefuse(c) == c.limit > 0 \/ c.hlen > PageSize - 16
NoExc(c) == /\ ~c.load.exc
            /\ \A i \in DOMAIN c.cuts : ~c.cuts[i].load.exc
            /\ \A i \in DOMAIN c.dmg : ~c.dmg[i].load.exc \/ ~PrintT(<<"EXC", idx, i>>)
TOk(c) == /\ NoExc(c)
          /\ IF c.ok THEN SavedOk(c)
             ELSE MayRefuse(c) /\ (c.load.ok => c.before.ok /\ c.load = c.before)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
