------------------------------ MODULE MC_Session -------------------------------
(* Why an analyser answers as if it were new: the life of its parts.  Every    *)
(* part remembers for which text and settings it was filled; a step of an      *)
(* analysis fills a part from others.  An analysis may be refused, may fail or *)
(* may be given up after any step, and settings may change at any time (also   *)
(* between the steps of an analysis, which then has to start again before it   *)
(* is scored).  A finished analysis is made of its own text and settings only. *)
EXTENDS Naturals, FiniteSets, Sequences, TLC
CONSTANTS Texts, Confs, MaxCalls
VARIABLES part,   \* part -> set of <<text, settings>> that went into it
          pc, text, conf, calls, made
vars == <<part, pc, text, conf, calls, made>>
Parts == {"input", "builder", "xtra", "pool", "lattice", "scores", "beams"}
Now == {<<text, conf>>}

Init == /\ part = [p \in Parts |-> {}] /\ pc = "idle" /\ text = 0 /\ calls = 0 /\ made = {}
        /\ conf \in Confs
Fill(p, from) == part' = [part EXCEPT ![p] = Now \cup UNION {part[q] : q \in from}]
Start == /\ calls < MaxCalls /\ calls' = calls + 1
         /\ \E t \in Texts : text' = t
         /\ pc' = "reset" /\ UNCHANGED <<part, conf, made>>
(* everything that lives in the pool goes with it *)
Reset == /\ pc = "reset" /\ pc' = "input"
         /\ part' = [p \in Parts |-> IF p \in {"input", "builder"} THEN part[p] ELSE {}]
         /\ UNCHANGED <<text, conf, calls, made>>
Read == /\ pc = "input"
        /\ \/ pc' = "builder" /\ part' = [part EXCEPT !["input"] = Now]
           \* refused in the middle: what was read so far stays there
           \/ pc' = "idle" /\ part' = [part EXCEPT !["input"] = @ \cup Now]
        /\ UNCHANGED <<text, conf, calls, made>>
Build == /\ pc = "builder" /\ pc' = "seeds" /\ part' = [part EXCEPT !["builder"] = part["input"]]
         /\ UNCHANGED <<text, conf, calls, made>>
Seeds == /\ pc = "seeds" /\ pc' \in {"lattice", "idle"}
         /\ part' = [part EXCEPT !["builder"] = @ \cup part["input"] \cup part["xtra"],
                                 !["xtra"] = @ \cup part["input"]]
         /\ UNCHANGED <<text, conf, calls, made>>
MakeLattice == /\ pc = "lattice" /\ pc' = "bootstrap" /\ Fill("lattice", {"lattice", "builder", "xtra", "input", "pool"})
               /\ UNCHANGED <<text, conf, calls, made>>
Bootstrap == /\ pc = "bootstrap" /\ pc' = "score" /\ Fill("scores", {"lattice", "pool"})
             /\ UNCHANGED <<text, conf, calls, made>>
(* without the scores of Bootstrap (or after a change of settings) it refuses *)
Score == /\ pc = "score" /\ pc' = "idle"
         /\ IF part["scores"] = {} THEN UNCHANGED <<part, made>>
            ELSE /\ Fill("beams", {"beams", "scores", "lattice", "xtra", "input"})
                 /\ made' = made \cup {[own |-> Now, of |-> part'["beams"]]}
         /\ UNCHANGED <<text, conf, calls>>
GiveUp == /\ pc \notin {"idle", "reset"} /\ pc' = "idle" /\ UNCHANGED <<part, text, conf, calls, made>>
(* buffers of the scores are for the old settings: they are dropped *)
Change == /\ conf' \in Confs /\ conf' # conf
          /\ pc = "idle"
          /\ part' = [part EXCEPT !["scores"] = {}]
          /\ UNCHANGED <<pc, text, calls, made>>
Next == (Start /\ pc = "idle") \/ Reset \/ Read \/ Build \/ Seeds \/ MakeLattice \/ Bootstrap \/ Score \/ GiveUp \/ Change
Spec == Init /\ [][Next]_vars
Own == \A m \in made : m.of = m.own
=============================================================================
