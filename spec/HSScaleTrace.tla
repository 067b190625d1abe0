---------------------------- MODULE HSScaleTrace ----------------------------
(***************************************************************************)
(* Recorded behaviours of the autoscaler.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
H == INSTANCE HSScaleRules
InitState == H!InitState
Bad(st, e) == H!Bad(st, e)
Effect(st, e) == H!Effect(st, e)
J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
