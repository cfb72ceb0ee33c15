---------------------------- MODULE BoundedQueue ----------------------------
(* The bounded queue as an atomic object: offer, poll and wait.             *)
(* An operation of a thread takes effect at one point between its call and  *)
(* its return.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

NoRes == -99
Refused == -1      \* offer on a full queue, poll on an empty one
Accepted == -2

(* Effect of operation o (record op, arg, reserve) on queue q:              *)
(* set of <<new queue, result>>; empty when it has to wait.                 *)
Effect(cap, q, o) ==
    CASE o.op = "offer" ->
           IF cap - Len(q) <= o.reserve THEN {<<q, Refused>>} ELSE {<<Append(q, o.arg), Accepted>>}
      [] o.op = "poll" ->
           IF q = <<>> THEN {<<q, Refused>>} ELSE {<<Tail(q), Head(q)>>}
      [] o.op = "wait" ->
           IF q = <<>> THEN {} ELSE {<<Tail(q), Head(q)>>}
      [] o.op = "size" -> {<<q, Len(q)>>}

(* A configuration: the queue and, for each thread, what it is doing:       *)
(* <<"idle">>, <<"called", operation>> or <<"done", result>>.               *)
Conf0(threads) == [q |-> <<>>, th |-> [t \in threads |-> <<"idle">>]]

Effects(cap, c) ==
    UNION {{[q |-> e[1], th |-> [c.th EXCEPT ![t] = <<"done", e[2]>>]] :
              e \in Effect(cap, c.q, c.th[t][2])} :
           t \in {u \in DOMAIN c.th : c.th[u][1] = "called"}}

RECURSIVE Closure(_, _, _)
Closure(cap, done, front) ==
    IF front = {} THEN done
    ELSE LET nxt == (UNION {Effects(cap, c) : c \in front}) \ (done \cup front)
         IN Closure(cap, done \cup front, nxt)

(* One event of a history, on a set of possible configurations. *)
OnEvent(cap, cs, e) ==
    CASE e.e = "call" ->
           Closure(cap, {}, {[c EXCEPT !.th[e.t] = <<"called", [op |-> e.op, arg |-> e.v, reserve |-> e.r]>>] : c \in cs})
      [] e.e = "ret" ->
           {[c EXCEPT !.th[e.t] = <<"idle">>] : c \in {d \in cs : d.th[e.t] = <<"done", e.v>>}}
      [] e.e = "stuck" ->
           \* nothing can run any more: whoever has not returned waits for an
           \* element and there is none
           {c \in cs : /\ c.q = <<>>
                       /\ \A t \in DOMAIN c.th : c.th[t][1] = "idle" \/
                            (c.th[t][1] = "called" /\ c.th[t][2].op = "wait")}
      [] e.e = "end" -> {c \in cs : \A t \in DOMAIN c.th : c.th[t][1] = "idle"}

Linearizable(cap, threads, h) ==
    FoldLeft(LAMBDA cs, e : OnEvent(cap, cs, e), {Conf0(threads)}, h) # {}
=============================================================================
