---------------------------- MODULE HSQueryTrace ----------------------------
EXTENDS HSQuery, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
