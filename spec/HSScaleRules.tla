---------------------------- MODULE HSScaleRules ----------------------------
(***************************************************************************)
(* The autoscaler seen from outside: it launches clients while time passes,*)
(* clients exit and the database changes.                                  *)
(***************************************************************************)
EXTENDS HSScale

Poll == 1000        \* it looks at the clock once a second
Slack == 1000
InitState == [cfg |-> [dynamic |-> FALSE, num |-> 1, den |-> 1, period |-> 0, init |-> 0, min |-> 0, max |-> 0],
              begin |-> 0, launched |-> 0, alive |-> {}, last |-> 0, rows |-> <<>>, up |-> {}, since |-> -1, halted |-> -1]

Want(st) == Wanted(st.cfg, Cardinality(st.alive), st.rows, st.up)
Initial(st) == st.launched < st.cfg.init
Max(a, b) == IF a > b THEN a ELSE b
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}

\* nothing has been launched although something should have
Overdue(st, t) ==
  /\ st.halted < 0
  /\ \/ Initial(st) /\ t - st.begin > Poll + Slack
     \/ ~Initial(st) /\ st.since >= 0 /\ t - Max(st.since, st.last) > st.cfg.period + Poll + Slack

Launch(st, e) ==
  Chk("C23:launch-command", e.ok)
  \cup Chk("C23:launch-after-halt", st.halted < 0)
  \cup IF Initial(st) THEN {} ELSE
       Chk("C23:launch-unwarranted", Want(st) # "no")
       \cup Chk("C23:launch-too-soon", e.t - st.last >= st.cfg.period)
       \cup Chk("C23:launch-over-max", Cardinality(st.alive) < Max(st.cfg.max, st.cfg.min))

Bad(st, e) ==
  (IF e.e # "start" /\ Overdue(st, e.t) THEN {IF Initial(st) THEN "C23:initial-clients" ELSE "C23:launch-missing"} ELSE {})
  \cup CASE e.e = "launch" -> Launch(st, e)
         [] e.e = "end" -> Chk("C23:stopped-by-itself", st.halted >= 0) \cup Chk("C23:slow-halt", st.halted < 0 \/ e.t - st.halted <= Poll + Slack)
         [] e.e = "error" -> {"C23:error"}
         [] e.e = "endless" -> {"C23:not-halted"}
         [] e.e \in {"start", "exit", "db", "halt", "tick"} -> {}
         [] OTHER -> {"ALL:unknown-event"}

\* since when it has had to launch
Renew(st, t) == [st EXCEPT !.since = IF Want(st) # "yes" \/ Initial(st) THEN -1 ELSE IF st.since < 0 THEN t ELSE st.since]
Change(st, e) ==
  CASE e.e = "start" -> [InitState EXCEPT !.cfg = e.cfg, !.begin = e.t, !.last = e.t]
    [] e.e = "launch" -> [st EXCEPT !.launched = @ + 1, !.alive = @ \cup {e.n}, !.last = IF Initial(st) THEN @ ELSE e.t]
    [] e.e = "exit" -> [st EXCEPT !.alive = @ \ {e.n}]
    [] e.e = "db" -> [st EXCEPT !.rows = e.rows, !.up = {e.up[i] : i \in DOMAIN e.up}]
    [] e.e = "halt" -> [st EXCEPT !.halted = e.t]
    [] OTHER -> st
Effect(st, e) == Renew(Change(st, e), e.t)
=============================================================================
