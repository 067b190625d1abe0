------------------------------- MODULE HSTrace ------------------------------
(***************************************************************************)
(* Validation of recorded executions: each trace is one initial state; its *)
(* events are consumed one by one and judged by HSCore.                    *)
(***************************************************************************)
EXTENDS HSCore, Json, IOUtils, TLCExt

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>

Init == tr \in DOMAIN Traces /\ l = 1 /\ s = InitState /\ bad = {}

Step ==
  /\ l <= Len(Traces[tr])
  /\ LET e == Traces[tr][l]
         b == Bad(s, e)
     IN /\ bad' = bad \cup {<<n, l>> : n \in {m \in b : \A q \in bad : q[1] # m}}
        /\ s' = Effect(s, e)
        /\ l' = l + 1
        /\ tr' = tr
  /\ l = Len(Traces[tr]) => PrintT(<<"VERDICT", tr, l, bad'>>)

Next == Step
Spec == Init /\ [][Next]_vars
View == <<tr, l>>
=============================================================================
