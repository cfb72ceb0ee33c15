----------------------------- MODULE Containers -----------------------------
(* What the containers of src/util stand for.  An event is                  *)
(* <<operation, target (0, 1), key, value, result>>.                        *)
EXTENDS Integers, Sequences, FiniteSets

Range(s) == {s[i] : i \in DOMAIN s}
Upd(st, t, x) == [st EXCEPT ![t + 1] = x]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
Del(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
NoMap == [x \in {} |-> 0]
Bit(b) == IF b THEN 1 ELSE 0

(* ---- maps and sets: a pair of finite functions ------------------------- *)
(* is the result of an event allowed in a state?                            *)
MapOk(st, e) ==
    LET m == st[e[2] + 1]  k == e[3]  r == e[5]
        in == k \in DOMAIN m
    IN CASE e[1] = "put" -> r = Bit(~in)
         [] e[1] = "foi" -> r = IF in THEN m[k] ELSE e[4]
         [] e[1] = "get" -> r = IF in THEN m[k] ELSE -1
         [] e[1] = "has" -> r = Bit(in)
         [] e[1] = "erase" -> r = Bit(in)
         [] e[1] = "eq" -> r = Bit(st[1] = st[2])
         [] e[1] = "size" -> r = Cardinality(DOMAIN m)
         [] e[1] = "live" -> r = Cardinality(DOMAIN st[1]) + Cardinality(DOMAIN st[2])
         [] e[1] = "dump" ->   \* every key once, with its value
               /\ Len(r) = 2 * Cardinality(DOMAIN m)
               /\ {<<r[2 * i - 1], r[2 * i]>> : i \in 1..(Len(r) \div 2)} = {<<x, m[x]>> : x \in DOMAIN m}
         [] OTHER -> TRUE
MapNext(st, e) ==
    LET t == e[2]  m == st[t + 1]  k == e[3]
    IN CASE e[1] \in {"put", "foi"} -> IF k \in DOMAIN m THEN st ELSE Upd(st, t, Put(m, k, e[4]))
         [] e[1] = "set" -> Upd(st, t, Put(m, k, e[4]))
         [] e[1] = "erase" -> Upd(st, t, Del(m, k))
         [] e[1] = "clear" -> Upd(st, t, NoMap)
         [] e[1] = "copy" -> Upd(st, t, st[2 - t])
         [] e[1] = "swap" -> <<st[2], st[1]>>
         [] OTHER -> st

(* ---- vectors: a pair of sequences -------------------------------------- *)
VecOk(st, e) ==
    LET s == st[e[2] + 1]  r == e[5]
    IN CASE e[1] = "back" -> r = s[Len(s)]
         [] e[1] = "front" -> r = s[1]
         [] e[1] = "at" -> r = s[e[3] + 1]
         [] e[1] = "len" -> r = Len(s)
         [] e[1] = "list" -> r = s
         [] e[1] = "live" -> r = Len(st[1]) + Len(st[2])
         [] OTHER -> TRUE
VecNext(st, e) ==
    LET t == e[2]  s == st[t + 1]  k == e[3]
    IN CASE e[1] = "push" -> Upd(st, t, Append(s, e[4]))
         [] e[1] = "pop" -> Upd(st, t, SubSeq(s, 1, Len(s) - 1))
         [] e[1] = "insert" -> Upd(st, t, SubSeq(s, 1, k) \o <<e[4]>> \o SubSeq(s, k + 1, Len(s)))
         [] e[1] = "cut" -> Upd(st, t, SubSeq(s, 1, k) \o SubSeq(s, e[4] + 1, Len(s)))
         [] e[1] = "resize" -> Upd(st, t, [i \in 1..k |-> IF i <= Len(s) THEN s[i] ELSE e[4]])
         [] e[1] = "copy" -> Upd(st, t, st[2 - t])
         [] e[1] = "swap" -> <<st[2], st[1]>>
         [] OTHER -> st

(* ---- LRU cache --------------------------------------------------------- *)
(* state: uses (keys in order of their last use, latest last), what was     *)
(* stored.  Capacity c: the last c keys used are there, and nothing stays   *)
(* for 2c other keys.                                                       *)
Others(uses, k) == IF \E i \in DOMAIN uses : uses[i] = k
                   THEN Len(uses) - (CHOOSE i \in DOMAIN uses : uses[i] = k) ELSE -1
LruOk(cap, st, e) ==
    LET n == Others(st.uses, e[3])
    IN e[1] # "find" \/ IF e[5] = -1 THEN n = -1 \/ n >= cap
                         ELSE /\ n # -1 /\ n < 2 * cap
                              /\ e[5] \in st.val[e[3]]
Touch(uses, k) == Append(SelectSeq(uses, LAMBDA x : x # k), k)
LruNext(st, e) ==
    LET k == e[3]
    IN IF e[1] = "ins" THEN [uses |-> Touch(st.uses, k), val |-> Put(st.val, k, {e[4]})]
       ELSE IF e[5] # -1 THEN [st EXCEPT !.uses = Touch(@, k)]
       ELSE [uses |-> SelectSeq(st.uses, LAMBDA x : x # k), val |-> st.val]

(* ---- memory: blocks <<epoch, address, size, alignment>> ------------------ *)
Disjoint(a, b) == a[2] + a[3] <= b[2] \/ b[2] + b[3] <= a[2]
BlocksOk(bs) ==
    /\ \A i \in DOMAIN bs : (bs[i][2] % bs[i][4]) = 0
    /\ \A i \in DOMAIN bs : \A j \in 1..(i - 1) : bs[i][1] = bs[j][1] /\ bs[i][3] > 0 /\ bs[j][3] > 0 => Disjoint(bs[i], bs[j])
=============================================================================
