-------------------------------- MODULE Emit --------------------------------
(* Hands states of a bounded model to the harness, which replays them on the real code. *)
EXTENDS Json, CSV, IOUtils, TLC
Put(r) == IF "OUT" \in DOMAIN IOEnv THEN CSVWrite("%1$s", <<ToJson(r)>>, IOEnv.OUT) ELSE TRUE
=============================================================================
