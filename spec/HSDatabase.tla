----------------------------- MODULE HSDatabase -----------------------------
(***************************************************************************)
(* The database everything is kept in.                                     *)
(*                                                                         *)
(* "engine": what the settings make of the connection.  Settings are a     *)
(* partial function from names to values ("set": the ones with a meaning    *)
(* of their own; "more": all others); the connection either is the one they *)
(* describe, value for value, or they are refused, all or nothing.          *)
(*                                                                         *)
(* "fill", "submit", "init": a history of one database, as a machine with   *)
(* the number of tasks and clients it holds ("none": no such table yet).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
BadConfig == 3

Drivers == [sqlite |-> "sqlite", postgres |-> "postgresql", postgresql |-> "postgresql"]
Given(e, k) == k \in DOMAIN e.set
Val(e, k) == IF Given(e, k) THEN e.set[k] ELSE "~"
NonEmpty(e, k) == Given(e, k) /\ e.set[k] # ""

Lite(e) == e.set.provider = "sqlite"
Refused(e) ==
  \/ e.set.provider \notin DOMAIN Drivers
  \/ Lite(e) /\ (\E k \in {"user", "password", "host", "port"} : Given(e, k))
  \/ Lite(e) /\ Given(e, "file") /\ Given(e, "database")
  \/ ~Lite(e) /\ e.set.provider \in DOMAIN Drivers /\ (NonEmpty(e, "file") \/ ~NonEmpty(e, "database"))
  \/ ~Lite(e) /\ Given(e, "user") # Given(e, "password")
Place(e) == IF NonEmpty(e, "file") THEN e.set.file ELSE IF NonEmpty(e, "database") THEN e.set.database ELSE "~"
Memory(e) == Lite(e) /\ Place(e) \in {"~", ":memory:"}
Host(e) == IF Given(e, "host") THEN e.set.host
           ELSE IF Given(e, "port") \/ Given(e, "user") THEN "localhost" ELSE "~"

BadEngine(e) ==
  IF Refused(e)
  THEN Chk("C30:accepted", e.st = BadConfig /\ e.said)
  ELSE IF e.st # 0 THEN {"C30:rejected"}
  ELSE LET g == e.got IN
    Chk("C30:driver", g.driver = Drivers[e.set.provider])
    \cup Chk("C30:user", g.user = Val(e, "user"))
    \cup Chk("C30:password", g.password = Val(e, "password"))
    \cup Chk("C30:host", g.host = Host(e))
    \cup Chk("C30:port", g.port = Val(e, "port"))
    \cup Chk("C30:database", g.database = Place(e))
    \cup Chk("C30:options", g.query = e.more)
    \cup Chk("C30:schema", g.schema = Val(e, "schema") /\ \A x \in {g.tables[i] : i \in DOMAIN g.tables} : x = Val(e, "schema"))
    \cup Chk("C30:memory", g.memory = Memory(e))
    \cup Chk("C30:arguments", e.busy # "~" => g.busy = e.busy)
    \cup Chk("C30:file", Lite(e) => g.where = (IF Memory(e) THEN "*" ELSE Place(e)))

---------------------------------------------------------------------------
InitState == [on |-> FALSE, memory |-> FALSE, tasks |-> "none", clients |-> "none", sig |-> ""]
Same(a, b) == a.tasks = b.tasks /\ a.clients = b.clients /\ a.sig = b.sig
Empty(a) == a.tasks = "0" /\ a.clients = "0"
\* tables are there and whatever was in them still is
Kept(b, a) == IF b.tasks = "none" \/ b.clients = "none" THEN Empty(a) \/ (a.tasks # "none" /\ a.clients # "none" /\ b.tasks \in {"none", a.tasks})
              ELSE Same(b, a)
AddTo(b, a, k) == \E i \in 0..400 : (b = ToString(i) \/ (b = "none" /\ i = 0)) /\ a = ToString(i + k)

Confirmed(e) == e.yes \/ (e.tty /\ e.answer \in {"", "y", "yes"})
Declined(e) == ~e.yes /\ e.tty /\ e.answer \in {"n", "no"}

BadInit(st, e) ==
  IF st.memory THEN Chk("C31:nowhere", e.st # 0 /\ e.said /\ Same(e.before, e.after))
  ELSE IF ~e.trunc THEN Chk("C31:kept", e.st = 0 /\ Kept(e.before, e.after))
  ELSE IF Confirmed(e) THEN
    \* the question names the number of tasks, so without tables it cannot be put
    IF e.before.tasks = "none" /\ ~e.yes THEN Chk("C31:emptied", Empty(e.after) \/ (e.st # 0 /\ e.said /\ Same(e.before, e.after)))
    ELSE Chk("C31:emptied", e.st = 0 /\ Empty(e.after))
  ELSE Chk("C31:unconfirmed", Same(e.before, e.after) /\ (Declined(e) \/ (e.st # 0 /\ e.said) \/ e.answer = "~")
                             /\ (Declined(e) => e.st = 0 \/ e.before.tasks = "none"))

Bad(st, e) ==
  CASE e.e = "engine" -> BadEngine(e)
    [] e.e = "new" -> {}
    [] OTHER ->
      Chk("C31:between", Same(st, e.before))   \* nothing else touches it
      \cup CASE e.e = "init" -> BadInit(st, e)
             [] e.e \in {"fill", "submit"} -> Chk("C31:added", e.st = 0 /\ AddTo(e.before.tasks, e.after.tasks, e.n)
                                                              /\ AddTo(e.before.clients, e.after.clients, e.clients))
             [] e.e \in {"server", "cluster"} ->
                  IF e.nodb THEN Chk("C31:C16:touched", e.st = 0 /\ Same(e.before, e.after))
                  ELSE IF st.memory THEN {}     \* refused, or done without
                  ELSE Chk("C31:prepared", e.st = 0 /\ Kept(e.before, e.after))
             [] OTHER -> {"ALL:unknown-event"}

Effect(st, e) ==
  CASE e.e = "engine" -> st
    [] e.e = "new" -> [InitState EXCEPT !.memory = e.memory]
    [] OTHER -> [st EXCEPT !.tasks = e.after.tasks, !.clients = e.after.clients, !.sig = e.after.sig]

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
