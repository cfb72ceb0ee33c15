---------------------------- MODULE MC_ModelFile ----------------------------
(* Saving, page by page, over whatever the file was before, ended at any    *)
(* moment; files cut anywhere.  A page has some data (0: never written).    *)
(* What is loaded is the list that was saved last, whole, or nothing.       *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxBlock, MaxBlocks, Saves
VARIABLES hdr, pages, size, pc, todo, cur, last, n, cut
vars == <<hdr, pages, size, pc, todo, cur, last, n, cut>>
None == <<>>
Lists == UNION {[1..k -> 1..MaxBlock] : k \in 1..MaxBlocks}   \* pages of every block
Off(l, i) == 1 + (IF i = 1 THEN 0 ELSE IF i = 2 THEN l[1] ELSE l[1] + l[2])
End(l) == Off(l, Len(l)) + l[Len(l)] - 1
Init == hdr = None /\ pages = <<>> /\ size = 0 /\ pc = "idle" /\ todo = 0 /\ cur = None /\ last = None /\ n = 0 /\ cut = FALSE
Begin(l) == /\ pc = "idle" /\ n < Saves /\ ~cut
            /\ n' = n + 1 /\ cur' = l /\ hdr' = None /\ pc' = "block" /\ todo' = 1
            /\ UNCHANGED <<pages, size, last, cut>>
WritePage == /\ pc = "block" /\ todo <= End(cur)
             /\ pages' = [p \in 1..(IF todo > Len(pages) THEN todo ELSE Len(pages)) |->
                            IF p = todo THEN n ELSE IF p <= Len(pages) THEN pages[p] ELSE 0]
             /\ size' = (IF todo > size THEN todo ELSE size)
             /\ todo' = todo + 1 /\ UNCHANGED <<hdr, pc, cur, last, n, cut>>
Finish == /\ pc = "block" /\ todo > End(cur)
          /\ hdr' = [list |-> cur, who |-> n] /\ pc' = "idle" /\ last' = [list |-> cur, who |-> n]
          /\ UNCHANGED <<pages, size, todo, cur, n, cut>>
Crash == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<hdr, pages, size, todo, cur, last, n, cut>>
Cut(k) == pc = "idle" /\ ~cut /\ k < size /\ size' = k /\ pages' = SubSeq(pages, 1, k) /\ cut' = TRUE
          /\ UNCHANGED <<hdr, pc, todo, cur, last, n>>
Next == (\E l \in Lists : Begin(l)) \/ WritePage \/ Finish \/ Crash \/ (\E k \in 0..(MaxBlock * MaxBlocks) : Cut(k))
Spec == Init /\ [][Next]_vars
Loads == hdr # None /\ End(hdr.list) <= size
Whole == Loads => hdr = last /\ \A p \in 1..End(hdr.list) : pages[p] = hdr.who
=============================================================================
