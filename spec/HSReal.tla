------------------------------- MODULE HSReal -------------------------------
(***************************************************************************)
(* What whole runs of the real programs leave behind.                      *)
(*                                                                         *)
(* tasks: name and the exit code of each time it is run; marks: name, how   *)
(* many times it had been run by then, identity (left by the commands       *)
(* themselves, as they begin); rows: what the database holds; fails: the    *)
(* failure stream; outs, errs: lines of the redirected output.  A run is    *)
(* "hurt" when something was killed or stopped, and then restarted.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
LOCAL Min2(a, b) == IF a < b THEN a ELSE b

Rows(e, n) == {i \in DOMAIN e.rows : e.rows[i].name = n}
Marks(e, n) == {i \in DOMAIN e.marks : e.marks[i][1] = n}
Count(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
Limit(e) == IF e.opt.nodb THEN 1 ELSE e.opt.retries + 1
\* how many times a task is run when nothing goes wrong around it
Wanted(e, k) == LET c == e.tasks[k].codes
                    good == {i \in DOMAIN c : c[i] = 0}
                IN IF good = {} THEN Limit(e) ELSE Min2(Limit(e), CHOOSE i \in good : \A j \in good : i <= j)
OutLine(m) == "out " \o m[1] \o " " \o ToString(m[2])
ErrLine(m) == "err " \o m[1] \o " " \o ToString(m[2])
Code(e, n, k) == LET t == CHOOSE i \in DOMAIN e.tasks : e.tasks[i].name = n IN e.tasks[t].codes[k]
Final(e, n) == {i \in Rows(e, n) : ~\E j \in Rows(e, n) : e.rows[j].att > e.rows[i].att}

Chain(e, n) ==
  \A i \in Rows(e, n) : LET r == e.rows[i] IN
    /\ r.att \in 1..Cardinality(Rows(e, n))
    /\ \A j \in Rows(e, n) \ {i} : e.rows[j].att # r.att
    /\ (r.att = 1) = (r.prev = 0)
    /\ \A j \in Rows(e, n) : e.rows[j].att = r.att + 1 => (e.rows[j].prev = r.id /\ r.next = e.rows[j].id /\ r.rtr)
    /\ (\A j \in Rows(e, n) : e.rows[j].att # r.att + 1) => (r.next = 0 /\ ~r.rtr)

Judged(e) ==
  LET names == {e.tasks[k].name : k \in DOMAIN e.tasks}
      db == e.table /\ ~e.opt.nodb
      known == IF e.hurt THEN {e.rows[i].name : i \in DOMAIN e.rows} ELSE names
  IN
  \* (the first program may have been stopped before it was ready to be)
  \* (known: bundles handed to a client which has died are lost until the server is restarted)
  Chk("C01:C07:C10:real-end", \/ e.kind = "lost" /\ ~e.stopped /\ \E i \in DOMAIN e.rows : e.rows[i].sch /\ ~e.rows[i].held /\ ~e.rows[i].done
                              \/ e.stopped /\ (e.st = 0 \/ (e.kind \in {"stopped", "interrupted"} /\ e.st \in {-2, -10, -12, 130} /\ e.marks = <<>> /\ e.rows = <<>>)))
  \cup Chk("C02:C01:real-foreign", \A i \in DOMAIN e.rows : e.rows[i].name \in names)
  \cup Chk("C16:real-untouched", e.opt.nodb => ~e.table)
  \cup (IF ~e.stopped THEN {} ELSE
     Chk("C02:C01:real-stored", ~e.opt.nodb /\ (~e.hurt \/ e.kind = "lost") => \A n \in names : Rows(e, n) # {})
     \cup Chk("C01:C08:real-final", db => \A n \in known : \A i \in Rows(e, n) : e.rows[i].done /\ e.rows[i].ran)
     \cup Chk("C05:real-chain", db => \A n \in known : Chain(e, n))
     \cup Chk("C05:C01:real-attempts", db => \A n \in known : \A i \in Final(e, n) :
                 e.rows[i].ex = 0 \/ e.rows[i].att = Limit(e))
     \cup Chk("C05:C01:real-needless", db => \A n \in known : \A i \in Rows(e, n) \ Final(e, n) : e.rows[i].ex # 0)
     \cup Chk("C04:real-result", db => \A i \in DOMAIN e.rows :
                 \E m \in Marks(e, e.rows[i].name) : e.marks[m][3] = e.rows[i].id /\ (\/ e.rows[i].ex = Code(e, e.rows[i].name, e.marks[m][2])
                                                                        \/ (e.kind \in {"stopped", "interrupted"} /\ e.rows[i].ex \in {-2, -15, -9})))
     \cup Chk("C11:C03:real-stray", db => \A m \in DOMAIN e.marks : e.marks[m][3] \in {e.rows[i].id : i \in DOMAIN e.rows})
     \cup (IF e.hurt THEN {} ELSE
        Chk("C01:C03:C11:C16:real-times", \A k \in DOMAIN e.tasks : Cardinality(Marks(e, e.tasks[k].name)) = Wanted(e, k))
        \cup Chk("C11:C03:real-twice", db => \A m, x \in DOMAIN e.marks : m # x => e.marks[m][3] # e.marks[x][3])
        \cup Chk("C17:real-failures", e.opt.fail => \A k \in DOMAIN e.tasks :
                    Count(e.fails, e.tasks[k].name) = Cardinality({m \in Marks(e, e.tasks[k].name) : Code(e, e.tasks[k].name, e.marks[m][2]) # 0}))
        \cup Chk("C17:real-unfailed", e.opt.fail => \A i \in DOMAIN e.fails : e.fails[i] \in names)
        \cup Chk("C18:real-output", e.opt.out => /\ Len(e.outs) = Len(e.marks) /\ Len(e.errs) = Len(e.marks)
                                                 /\ \A m \in DOMAIN e.marks : Count(e.outs, OutLine(e.marks[m])) = 1 /\ Count(e.errs, ErrLine(e.marks[m])) = 1)
        \cup Chk("C18:real-capture", e.opt.capture /\ db => \A m \in DOMAIN e.marks : \E i \in DOMAIN e.rows :
                    e.rows[i].id = e.marks[m][3] /\ e.rows[i].outl = <<OutLine(e.marks[m])>> /\ e.rows[i].errl = <<ErrLine(e.marks[m])>>)))

InitState == [n |-> 0]
Bad(st, e) == CASE e.e = "real" -> Judged(e) [] OTHER -> {"ALL:unknown-event"}
Effect(st, e) == [st EXCEPT !.n = @ + 1]
J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
