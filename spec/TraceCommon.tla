---------------------------- MODULE TraceCommon ----------------------------
(* Validation of recorded observations, one JSON object per line.           *)
(* The state is the index of the observation that is looked at; SHARDS      *)
(* independent chains let TLC's workers share the file.  A module that      *)
(* extends this one defines TOk(case); TAccept prints REJECT and the index  *)
(* for every observation that the specification does not allow.             *)
EXTENDS Integers, Sequences, TLC, IOUtils, Json

TCases == ndJsonDeserialize(IOEnv.TRACE)
TShards == atoi(IOEnv.SHARDS)

VARIABLE idx

TInit == idx \in {k \in 1..TShards : k <= Len(TCases)}
TNext == idx + TShards <= Len(TCases) /\ idx' = idx + TShards

TReport(ok) == ok \/ PrintT(<<"REJECT", idx>>)
=============================================================================
