------------------------------- MODULE HSWait -------------------------------
(***************************************************************************)
(* Waiting on tasks: others record the exit status of a task at some time; *)
(* a command which waits on it ends after that, at most one polling        *)
(* interval later, and tells the recorded status.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
Put(f, k, v) == (k :> v) @@ f
Mod(x) == x % 256     \* what the system makes of an exit status
Slack == 1500         \* ms

\* tasks: id -> [has, status, at]; gone: id -> when deleted; wait: what is waited for
InitState == [task |-> [x \in {} |-> 0], gone |-> [x \in {} |-> 0], id |-> "", step |-> 0]
Failed(rc) == rc \notin {0, -99}

Done(st, e) ==
  LET id == e.id
      deleted == id \in DOMAIN st.gone
      t == st.task[id]
      \* when it could have ended
      at == IF deleted THEN st.gone[id] ELSE t.at
      ok == IF e.mode = "-r" THEN Mod(t.status) ELSE 0
  IN IF id \notin DOMAIN st.task THEN {"C27:unknown-task"}
     ELSE IF ~deleted /\ ~t.has THEN {"C27:early"}
     ELSE IF e.rc = -99 THEN {"C27:never"}
     ELSE Chk("C27:late", e.at <= at + st.step + Slack)
       \cup Chk("C27:before", e.at >= at)
       \cup (IF deleted THEN Chk("C27:deleted", e.rc # 0)
             ELSE IF e.mode = "run" THEN
                IF e.capture THEN Chk("C27:run-status", e.rc = 0) \cup Chk("C27:run-stdout", e.out = e.stdout)
                                  \cup Chk("C27:run-stderr", e.err = e.stderr)
                ELSE Chk("C27:run-nocapture", e.out = "")
             ELSE Chk("C27:status-code", e.rc = ok)
                  \cup Chk("C27:status", e.mode = "-s" => e.out = ToString(t.status) \o "\n")
                  \cup Chk("C27:info", e.mode = "-i" => e.shown = ToString(t.status))
                  \cup Chk("C27:quiet", e.mode \in {"", "-r"} => e.out = ""))

Bad(st, e) ==
  CASE e.e = "bad" ->
        Chk("C27:bad-id", e.rc # 0 /\ e.rc # -99) \cup Chk("C27:bad-id-waits", ~e.slept) \cup Chk("C27:bad-id-output", e.out = "" \/ e.id = "")
    [] e.e = "info" ->
        LET t == st.task[e.id] IN
        Chk("C27:info-error", e.rc = 0) \cup Chk("C27:info-status", e.out = IF t.has THEN ToString(t.status) ELSE "null")
    [] e.e = "submit" ->
        Chk("C27:C02:submit-error", e.rc = 0)
        \cup Chk("C27:C02:submit-one", Len(e.rows) = 1 /\ e.kept)
        \cup (IF Len(e.rows) # 1 THEN {} ELSE
                Chk("C27:submit-id", e.out = e.rows[1].id) \cup Chk("C27:C02:submit-args", e.rows[1].args = e.args)
                \cup Chk("C27:C02:submit-tags", e.rows[1].tag = e.tag) \cup Chk("C27:C02:submit-fresh", e.rows[1].fresh))
    [] e.e = "done" ->
        Done(st, e)
        \cup (IF e.what = "run" /\ e.id \in DOMAIN st.task THEN
                Chk("C27:run-one", e.others = 1 \/ (e.id \in DOMAIN st.gone /\ e.others = 0))
                \cup (IF Len(e.row) = 1 THEN Chk("C27:run-args", e.row[1].args = e.args)
                                             \cup Chk("C27:run-tags", e.row[1].tag = e.tag \/ "q" \in DOMAIN e.row[1].tag) ELSE {})
              ELSE {})
    [] e.e \in {"task", "record", "delete", "wait"} -> {}
    [] OTHER -> {"ALL:unknown-event"}

Effect(st, e) ==
  CASE e.e = "task" -> [st EXCEPT !.task = Put(@, e.id, [has |-> e.has, status |-> e.status, at |-> 0])]
    [] e.e = "record" -> [st EXCEPT !.task = Put(@, e.id, [has |-> TRUE, status |-> e.status, at |-> e.at])]
    [] e.e = "delete" -> [st EXCEPT !.gone = Put(@, e.id, e.at)]
    [] e.e = "wait" -> [st EXCEPT !.id = e.id, !.step = e.step,
                                  !.task = IF e.id \in DOMAIN @ THEN Put(@, e.id, [@[e.id] EXCEPT !.at = 0]) ELSE @,
                                  !.gone = IF e.id \in DOMAIN @ THEN Put(@, e.id, 0) ELSE @]
    [] OTHER -> st

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
