------------------------------ MODULE T_Lattice ------------------------------
(* Observed lattices: mode tile (A01), beam (A04), gbeam (A09).             *)
EXTENDS TraceCommon, Lattice
TOk(c) ==
    IF ~c.ok THEN c.stage \in {"reset", "seeds"}
    ELSE CASE IOEnv.MODE = "tile" -> Tiling(c)
           [] IOEnv.MODE = "beam" -> Num(c) > 0 => SizesOk(c) /\ FullBeams(c) /\ PtrsOk(c) /\ Reported(c) = Best(c)
           [] IOEnv.MODE = "gbeam" -> Num(c) > 0 => SizesOk(c) /\ GBeams(c) /\ PtrsOk(c) /\ Reported(c) = Best(c)
TAccept == TReport(TOk(TCases[idx]))
=============================================================================
