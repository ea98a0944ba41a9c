-------------------------------- MODULE Emit --------------------------------
(* Output of model behaviours towards the conformance harness. *)
EXTENDS TLC, Json, Sequences
Emit(rec) == PrintT("@@" \o ToJson(rec))
=============================================================================
