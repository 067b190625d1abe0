------------------------------- MODULE Judge --------------------------------
(***************************************************************************)
(* Judging recorded behaviours: each trace is an initial state; its events *)
(* are consumed one by one.  Bad(s, e) names the rules which event e breaks *)
(* in state s, Effect(s, e) is the state after it.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Traces, InitState, Bad(_, _), Effect(_, _)
VARIABLES tr, l, s, bad
vars == <<tr, l, s, bad>>

Init == tr \in DOMAIN Traces /\ l = 1 /\ s = InitState /\ bad = {}

Step ==
  /\ l <= Len(Traces[tr])
  /\ LET e == Traces[tr][l]
         b == Bad(s, e)
     IN /\ bad' = bad \cup {<<n, l>> : n \in {m \in b : \A q \in bad : q[1] # m}}
        /\ s' = Effect(s, e)
        /\ l' = l + 1
        /\ tr' = tr
  /\ l = Len(Traces[tr]) => PrintT(<<"VERDICT", tr, l, bad'>>)

Spec == Init /\ [][Step]_vars
View == <<tr, l>>
=============================================================================
