----------------------------- MODULE HSFidelity -----------------------------
(***************************************************************************)
(* Tasks and messages as they travel: what is put into a channel (encoded  *)
(* for transport, stored in the database) comes out of it with every field *)
(* as it was put, whoever reads it and wherever.                           *)
(*                                                                         *)
(* Field values are records [k, s]: the kind and the text of the value;    *)
(* times are instants (seconds and microseconds in UTC).                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
Put(f, k, v) == (k :> v) @@ f

InitState == [held |-> [x \in {} |-> 0]]

\* an update changes the fields it names
Merge(old, new) == [f \in DOMAIN old \cup DOMAIN new |-> IF f \in DOMAIN new THEN new[f] ELSE old[f]]

Bad(st, e) ==
  CASE e.e = "put" -> {}
    [] e.e = "change" -> {}
    [] e.e = "get" ->
        IF e.key \notin DOMAIN st.held THEN {"C25:unknown"} ELSE
        LET h == st.held[e.key] IN
        Chk("C25:" \o e.how \o "-error", e.ok)
        \cup (IF ~e.ok THEN {} ELSE
                Chk("C25:" \o e.how \o "-fields", DOMAIN e.v = DOMAIN h)
                \cup Chk("C25:" \o e.how, \A f \in DOMAIN e.v \cap DOMAIN h : e.v[f] = h[f]))
    [] OTHER -> {"ALL:unknown-event"}

Effect(st, e) ==
  CASE e.e = "put" -> [st EXCEPT !.held = Put(@, e.key, e.v)]
    [] e.e = "change" -> [st EXCEPT !.held = Put(@, e.key, Merge(st.held[e.key], e.v))]
    [] OTHER -> st

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
