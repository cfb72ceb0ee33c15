------------------------------- MODULE MC_Csv -------------------------------
(* Every file of up to MaxLen characters over Alphabet, character by        *)
(* character.                                                               *)
EXTENDS CsvReader
CONSTANTS Alphabet, MaxLen, Sep, Quote
VARIABLES inp, st

Init == inp = <<>> /\ st = St0
Next == /\ Len(inp) < MaxLen
        /\ \E c \in Alphabet : inp' = Append(inp, c) /\ st' = Feed(Sep, Quote, st, c)
Spec == Init /\ [][Next]_<<inp, st>>

Res == Finish(st)
(* Delivered rows are never taken back and only grow. *)
Monotone == [][IsPrefix(st.rows, st'.rows)]_<<inp, st>>
(* A malformed file stays malformed. *)
Sticky == [][st.mode = "bad" => st'.mode = "bad"]_<<inp, st>>
(* What was read can be written and read again. *)
RoundTrip == Res.mode \in {"row", "lf"} /\ Res.rows # <<>> =>
    LET back == Read(Sep, Quote, Write(Sep, Quote, Res.rows))
    IN back.rows = Res.rows /\ back.mode = "lf"
(* Row by row reading agrees with reading the whole. *)
Agrees == Read(Sep, Quote, inp) = Res
(* No row is empty, and the characters of the rows come from the input. *)
Shape == \A i \in DOMAIN Res.rows : Len(Res.rows[i]) >= 1
=============================================================================
