-------------------------------- MODULE Emit --------------------------------
(* Writing test vectors out of a TLC run: used inside an INVARIANT, so it is *)
(* evaluated exactly once per distinct state.                                *)
EXTENDS TLC, IOUtils, CSV, Json
OutFile == IOEnv.VP_OUT
Emit(rec) == CSVWrite("%1$s", <<ToJson(rec)>>, OutFile)
=============================================================================
