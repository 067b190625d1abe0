------------------------------- MODULE HSCore -------------------------------
(***************************************************************************)
(* The observable protocol of a hyper-shell deployment: one server (at a   *)
(* time) with its database and shared queues, any number of clients, and   *)
(* the processes of the tasks.  The module is a machine over *events*:     *)
(*                                                                         *)
(*   Bad(s, e)     the names of the rules of the protocol which event e    *)
(*                 breaks in state s (empty for a conforming step),        *)
(*   Effect(s, e)  the state after e (total, also after a broken rule).    *)
(*                                                                         *)
(* A rule is named by the properties it belongs to, "C03:C16:once".        *)
(* The same operators judge the steps of the algorithm in HSModel (where   *)
(* TLC enumerates all interleavings and crash points) and the events       *)
(* recorded from the real code in HSTrace.                                 *)
(*                                                                         *)
(* Times are integer milliseconds.  -1, 0 (identifiers), -9999 (status)    *)
(* and "~" (text) stand for an absent value.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL Tpl == INSTANCE HSTemplate

NOEX == -9999
Empty == [x \in {} |-> 0]
Chk(name, ok) == IF ok THEN {} ELSE {name}
Put(f, k, v) == (k :> v) @@ f
Range(q) == {q[i] : i \in DOMAIN q}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Floor(ms) == ms \div 1000
Flat(qq) == LET RECURSIVE F(_)
                F(i) == IF i > Len(qq) THEN <<>> ELSE qq[i] \o F(i + 1)
            IN F(1)

---------------------------------------------------------------------------
(* State *)

InitState ==
  [ t |-> 0,            \* time of the last event
    slack |-> 2500,     \* tolerance for bounded-delay rules, in ms
    qs |-> 1,           \* size of the shared scheduled and completed queues
    expect |-> "done",  \* how the run is expected to end
    hosts |-> TRUE,     \* every process has a host of its own
    srv |-> "",         \* the running server, its options and phase
    so |-> Empty,
    srvT |-> 0,
    nsched |-> 0,       \* scheduling commits by this server
    usr |-> 0, usrT |-> 0,
    cut |-> FALSE,      \* a server was interrupted by a user
    tasks |-> Empty,    \* the task table
    ex |-> Empty,       \* per task: ep times scheduled, po times posted, una time it became unscheduled, can cancelled
    reg |-> Empty,      \* the client table
    beats |-> Empty,    \* latest heartbeat processed, per client
    evq |-> Empty,      \* evicted clients whose tasks are still to be reverted: time
    subm |-> Empty,     \* submitters: source items read and stored
    sp |-> <<>>,        \* scheduled, not yet posted
    sq |-> <<>>, dq |-> <<>>, cq |-> <<>>, hq |-> <<>>,
    lastPut |-> 0,      \* last bundle posted
    sqF |-> 0, dqF |-> 0,           \* time since which there is room
    nones |-> 0,        \* disconnect requests sent
    rq |-> <<>>,        \* results taken by the server, not yet recorded
    ending |-> FALSE,   \* the server has told its last component to stop
    cfq |-> <<>>,       \* confirmations taken by the server, not yet recorded
    failq |-> <<>>,     \* lines still to be written to the failure stream
    cl |-> Empty,       \* clients
    lost |-> {},        \* tasks taken by a client which died before confirming them
    gaveup |-> {},      \* tasks which even a kill could not stop
    doneT |-> -1,       \* since when there is nothing left to do
    doneL |-> -1,       \* when there was nothing left to do the last time
    results |-> Empty,  \* first recorded result of each task
    waits |-> Empty ]   \* user processes waiting on a task

SubmRec(o) == [bs |-> o.bs, bw |-> o.bw, tag |-> o.tags, items |-> <<>>, n |-> 0, end |-> FALSE, endT |-> 0,
               last |-> -1, lastSub |-> -1, count |-> -1, parts |-> Tpl!Parse(o.tmpl), tab |-> o.tab]

Up(s) == s.srv # ""
DB(s) == Up(s) /\ ~s.so.inmem
HasRow(s, i) == i \in DOMAIN s.tasks
Cancelled(r) == r.ct = -1 /\ r.ex = -1
Final(r) == r.ct # -1 \/ r.ex # NOEX
Unsched(r) == r.sch = -1
Owed(s, r) == r.ct # -1 /\ r.ex # NOEX /\ r.ex # 0 /\ ~r.rtr /\ r.att < s.so.attempts
Rows(s) == {s.tasks[i] : i \in DOMAIN s.tasks}
AllFinal(s) == \A i \in DOMAIN s.tasks : Final(s.tasks[i])
NoneOwed(s) == \A i \in DOMAIN s.tasks : ~Owed(s, s.tasks[i])
Host(s, p) == IF s.hosts THEN "host-" \o p ELSE "host"
Expand(c, args) == LET x == Tpl!ExpandParts(c.parts, args, c.tab) IN IF x.ok THEN x.s ELSE "~"
SrcDone(s) == s.srv \notin DOMAIN s.subm \/ s.subm[s.srv].end
Subm1(s) == s.subm[s.srv]
\* every item of the server's own source is in the database
AllStored(s) == s.srv \notin DOMAIN s.subm \/ (Subm1(s).end /\ Subm1(s).n = Len(Subm1(s).items))
WorkDone(s) == IF s.so.inmem THEN AllStored(s)
               ELSE AllStored(s) /\ AllFinal(s) /\ NoneOwed(s) /\ DOMAIN s.tasks # {}
\* (the late result of an evicted client may make work after the server decided to stop)
MayStop(s) == s.usr # 0 \/ (~s.so.forever /\ (WorkDone(s) \/ s.nones > 0 \/ (s.doneL # -1 /\ s.t <= s.doneL + 3000 + s.slack)))

ClRec(e) == [n |-> e.n, bs |-> e.bs, bw |-> e.bw, hr |-> e.hr, timeout |-> e.timeout, limit |-> e.limit, sw |-> e.sw,
             noconfirm |-> e.noconfirm, capture |-> e.capture, parts |-> Tpl!Parse(e.tmpl), tab |-> e.tab,
             delay |-> e.delay, solo |-> e.solo,
             st |-> "new", upT |-> 0, rcv |-> <<>>, conf |-> <<>>, none |-> FALSE, noneT |-> 0,
             lastRcv |-> 0, hbN |-> 0, hbT |-> 0, fin |-> FALSE, finT |-> 0, lastSend |-> 0, usr |-> 0, usrT |-> 0]
Live(s, p) == p \in DOMAIN s.cl /\ s.cl[p].st = "up"
\* evicted although it lives, and not registered again (or not known yet) before the server ended
Forsaken(s, p) == s.ending /\ (p \in DOMAIN s.evq \/ p \notin DOMAIN s.beats)
LiveClients(s) == {p \in DOMAIN s.cl : s.cl[p].st = "up"}
Entries(c, st) == {k \in DOMAIN c.rcv : c.rcv[k].st = st}
FirstEntry(c, id, st) == LET K == {k \in Entries(c, st) : c.rcv[k].id = id} IN IF K = {} THEN 0 ELSE MinOf(K)
Tol(s) == s.slack
\* executors: one which met a task that even a kill could not stop is gone
\* (an executor stops when even the kill did not end its task in time: "perhaps" it did)
Execs(s, c) == c.n - Cardinality({k \in DOMAIN c.rcv : c.rcv[k].st = "lost" \/ (c.rcv[k].st = "run" /\ c.rcv[k].id \in s.gaveup)})
SureExecs(s, c) == Execs(s, c) - Cardinality(Entries(c, "perhaps"))
Running(s, c) == {k \in Entries(c, "run") : c.rcv[k].id \notin s.gaveup}

---------------------------------------------------------------------------
(* Rules on bounded delay, judged whenever time is known to have reached t *)

Waiting(c) == {k \in Entries(c, "q") : Expand(c, c.rcv[k].m.args) # "~"}

LateClient(s, p, t) ==
  LET c == s.cl[p]
      W == Waiting(c)
      R == Running(s, c)
      F == Entries(c, "fin")
      freeT == MaxOf({0} \cup {c.rcv[k].x : k \in F \cup Entries(c, "ret")})
      recvT == MinOf({c.rcv[k].t : k \in W})
      xb == MinOf({c.rcv[k].x : k \in {j \in F : Cardinality({i \in F : c.rcv[i].x <= c.rcv[j].x}) >= c.bs}})
      x1 == MinOf({c.rcv[k].x : k \in F})
      xl == MaxOf({c.rcv[k].x : k \in F})
      busy == W # {} \/ R # {} \/ Entries(c, "q") # {}
      leaving == c.none \/ (c.usr # 0 /\ c.solo)
      full == Len(s.dq) >= s.qs
  IN
    Chk("C11:idle", W # {} /\ Cardinality(R) < SureExecs(s, c) /\ ~full =>
                       t <= Max2(Max2(recvT, freeT), Max2(s.dqF, c.lastSend)) + Tol(s) + 2000)
    \cup Chk("C12:C11:latency-size", Cardinality(F) >= c.bs /\ ~full => t <= Max2(xb, s.dqF) + Tol(s))
    \cup Chk("C12:C11:latency-wait", F # {} /\ ~full => 
             t <= Max2(Max2(x1, Max2(c.lastSend, c.upT + Max2(c.delay, -c.delay)) + c.bw), s.dqF) + 1000 + Tol(s))
    \cup Chk("C12:C10:C11:final-flush", F # {} /\ ~full /\ leaving /\ ~busy =>
                       t <= Max2(Max2(xl, s.dqF), Max2(c.noneT, c.usrT)) + 6000 + Tol(s))
    \cup Chk("C22:first", c.hbN = 0 => t <= c.upT + Max2(c.delay, -c.delay) + Tol(s))
    \cup Chk("C22:C09:cadence", c.hbN > 0 /\ ~c.fin => t <= c.hbT + c.hr + Tol(s))
    \cup Chk("C10:finish", leaving /\ ~busy /\ F = {} /\ ~c.fin => 
                       t <= Max2(Max2(c.lastSend, c.noneT), c.usrT) + 6000 + Tol(s))
    \cup Chk("C10:exit", c.fin => t <= c.finT + 3000 + Tol(s))
    \cup Chk("C14:timeout", c.timeout >= 0 /\ ~c.fin /\ ~busy /\ F = {} /\ c.conf = <<>> =>
                       t <= Max2(c.lastRcv + c.timeout, c.lastSend) + 8000 + Tol(s))
    \cup Chk("C13:interrupt", \A k \in R : c.limit >= 0 /\ c.rcv[k].sg = <<>> =>
                       t <= c.rcv[k].s + c.limit + 1500 + Tol(s))
    \cup Chk("C14:interrupt", \A k \in R : c.usr = 12 /\ c.rcv[k].sg = <<>> =>
                       t <= Max2(c.usrT, c.rcv[k].s) + 1500 + Tol(s))
    \cup Chk("C13:C14:terminate", \A k \in R : Len(c.rcv[k].sg) = 1 =>
                       t <= c.rcv[k].sg[1].t + c.sw + 1500 + Tol(s))
    \cup Chk("C13:C14:kill", \A k \in R : Len(c.rcv[k].sg) = 2 =>
                       t <= c.rcv[k].sg[1].t + 2 * c.sw + 1500 + Tol(s))

UnschedSince(s) == MinOf({s.ex[i].una : i \in {j \in DOMAIN s.tasks : Unsched(s.tasks[j])}})
OwedSince(s) == MinOf({s.ex[i].fin : i \in {j \in DOMAIN s.tasks : Owed(s, s.tasks[j])}})
Confirmable(s, q) == {i \in Range(q.ids) : HasRow(s, i) /\ s.tasks[i].sch # -1 /\ s.tasks[i].ct = -1
                                             /\ s.ex[i].una < q.t /\ s.tasks[i].ex = NOEX
                                             /\ s.tasks[i].cli # q.c}
Connected(s) == {p \in DOMAIN s.beats : s.beats[p].in}
Owing(s) == {p \in Connected(s) : p \in DOMAIN s.cl /\ s.cl[p].st = "up" /\ ~s.cl[p].none /\ ~s.cl[p].fin}
NonesIn(s) == Cardinality({i \in DOMAIN s.sq : s.sq[i].none})

LateServer(s, t) ==
  LET o == s.so
      unq == {j \in DOMAIN s.tasks : Unsched(s.tasks[j])}
      owed == {j \in DOMAIN s.tasks : Owed(s, s.tasks[j])}
      room == Len(s.sq) < s.qs
      sb == Subm1(s)
      pend == Len(sb.items) - sb.n
  IN
    (IF s.srv \in DOMAIN s.subm /\ pend > 0 /\ (o.inmem => room) THEN
        LET t1 == sb.items[sb.n + 1].t
            base == IF o.inmem THEN s.sqF ELSE 0
        IN Chk("C02:C16:flush-wait", t <= Max2(Max2(t1, sb.last + o.bw), base) + 1500 + Tol(s))
           \cup Chk("C02:C16:flush-size", pend >= o.bs => t <= Max2(sb.items[sb.n + o.bs].t, base) + Tol(s))
           \cup Chk("C02:C16:flush-end", sb.end => t <= Max2(sb.endT, base) + Tol(s))
     ELSE {})
    \cup (IF o.inmem THEN {} ELSE
        Chk("C08:C01:unrecovered", s.usr = 0 /\ t > s.srvT + 5000 + Tol(s) =>
                  {j \in DOMAIN s.tasks : s.tasks[j].sch # -1 /\ ~Final(s.tasks[j]) /\ s.tasks[j].srv # s.srv} = {})
        \cup Chk("C01:C03:C07:C08:C09:C20:idle-new", unq # {} /\ room /\ s.sp = <<>> /\ s.usr = 0 =>
                  t <= Max2(Max2(UnschedSince(s), Max2(s.sqF, s.lastPut)), s.srvT) + 5000 + Tol(s))
        \cup Chk("C05:C06:C01:idle-retry", owed # {} /\ room /\ s.sp = <<>> /\ s.usr = 0 =>
                  t <= Max2(Max2(OwedSince(s), Max2(s.sqF, s.lastPut)), s.srvT) + 6000 + Tol(s))
        \cup Chk("C03:C01:unposted", s.sp # <<>> /\ room => t <= Max2(s.ex[s.sp[1]].scT, s.sqF) + Tol(s))
        \cup Chk("C15:unrecorded", \A i \in DOMAIN s.cfq : t > s.cfq[i].t + Tol(s) => Confirmable(s, s.cfq[i]) = {})
        \cup Chk("C01:C04:unrecorded", s.rq # <<>> => t <= s.rq[1].t + Tol(s))
        \cup Chk("C09:evict-late", \A p \in Connected(s) :
                  t <= Max2(s.beats[p].at + o.evict, s.srvT) + (o.evict \div 10) + 2000 + Tol(s))
        \* (a confirmation recorded only after the eviction is dealt with by the next check)
        \cup Chk("C09:C01:revert-late", ~o.noconfirm => \A p \in DOMAIN s.evq :
                  t > s.evq[p] + Tol(s) => {j \in DOMAIN s.tasks : s.tasks[j].cli = p /\ ~Final(s.tasks[j])
                                               /\ s.tasks[j].sch # -1 /\ s.ex[j].scT <= s.evq[p]
                                               /\ (s.ex[j].cfT > s.evq[p] =>
                                                      t > s.ex[j].cfT + (o.evict \div 10) + 2000 + Tol(s))} = {})
        \cup Chk("C22:register", \A p \in Connected(s) : t > s.beats[p].got + Tol(s) =>
                  p \in DOMAIN s.reg /\ s.reg[p].dis = -1 /\ ~s.reg[p].ev)
        \cup Chk("C22:unregister", \A p \in DOMAIN s.beats : ~s.beats[p].in /\ t > s.beats[p].got + Tol(s) =>
                  p \notin DOMAIN s.reg \/ s.reg[p].dis # -1))
    \cup Chk("C10:C07:signal", Owing(s) # {} /\ s.doneT >= 0 /\ room =>
                  Cardinality(Owing(s)) <= NonesIn(s)
                  \/ t <= Max2(Max2(s.doneT, s.sqF), MaxOf({s.beats[p].since : p \in Owing(s)})) + 12000 + Tol(s))
    \cup Chk("C17:unreported", s.failq # <<>> => t <= s.failq[1].t + Tol(s))
    \cup Chk("C15:untaken", s.cq # <<>> => t <= s.cq[1].t + 1000 + Tol(s))
    \cup Chk("C01:C04:C12:untaken", s.dq # <<>> => t <= s.dq[1].t + 1000 + Tol(s))
    \cup Chk("C22:C09:untaken", s.hq # <<>> => t <= s.hq[1].t + 1000 + Tol(s) \/ s.usr # 0 \/ s.doneT >= 0)
    \cup Chk("C10:C07:end", s.doneT >= 0 /\ s.nones > 0 /\ Connected(s) = {} /\ s.sq = <<>> /\ LiveClients(s) = {} =>
                  t <= Max2(s.doneT, MaxOf({0} \cup {s.beats[p].got : p \in DOMAIN s.beats})) + 12000 + Tol(s))

Late(s, t) == (IF Up(s) THEN LateServer(s, t) \cup UNION {LateClient(s, p, t) : p \in LiveClients(s)} ELSE {})

---------------------------------------------------------------------------
(* Database commits *)

RunFields == {"cli", "clih", "cmd", "st", "ct", "ex", "outp", "errp", "wt", "du"}
SchedFields == {"sch", "srv", "srvh"}
Blank(r) == r.sch = -1 /\ r.srv = "~" /\ r.srvh = "~" /\ r.cli = "~" /\ r.clih = "~" /\ r.cmd = "~" /\ r.st = -1
            /\ r.ct = -1 /\ r.ex = NOEX /\ r.outp = "~" /\ r.errp = "~" /\ r.wt = -1 /\ r.du = -1
NewRow(s, u) == u.f @@ s.tasks[u.id]
SameRun(r, m) == \A f \in RunFields : r[f] = m[f]
Written(s, r, m) == SameRun(r, m) /\ (m.id \in DOMAIN s.ex /\ s.ex[m.id].dup => \A f \in SchedFields : r[f] = m[f])

Kind(s, e, u) ==
  LET o == s.tasks[u.id]
      n == NewRow(s, u)
      K == DOMAIN u.f
  IN CASE e.user -> "user"
       [] o.sch = -1 /\ n.sch # -1 /\ n.ct = -1 -> "sched"
       [] o.sch # -1 /\ n.sch = -1 -> "revert"
       [] n.ct # o.ct \/ n.ex # o.ex -> "result"
       [] n.ct # -1 /\ (\E k \in DOMAIN s.rq : s.rq[k].m.id = u.id /\ SameRun(n, s.rq[k].m)) -> "result"   \* run again, with the same outcome
       [] K \subseteq {"rtr", "next"} -> "mark"
       [] K \subseteq {"cli", "clih"} -> "confirm"
       [] OTHER -> "other"

Ids(s, e, k) == {u.id : u \in {v \in Range(e.upd) : Kind(s, e, v) = k}}
After(s, e) == LET U == [i \in {u.id : u \in Range(e.upd)} |->
                           (CHOOSE u \in Range(e.upd) : u.id = i).f @@ s.tasks[i]]
                   I == [i \in {r.id : r \in Range(e.ins)} |-> CHOOSE r \in Range(e.ins) : r.id = i]
                   All == U @@ I @@ s.tasks
               IN [i \in DOMAIN All \ Range(e.dele) |-> All[i]]
FreshIns(e) == SelectSeq(e.ins, LAMBDA r : r.prev = 0)
RetryIns(e) == SelectSeq(e.ins, LAMBDA r : r.prev # 0)

BadNew(s, e) ==
  LET N == FreshIns(e) IN
  IF N = <<>> THEN {} ELSE
  IF e.p \notin DOMAIN s.subm THEN {"C02:C01:C03:unexpected-task"} ELSE
  LET b == s.subm[e.p]
      have == Len(b.items) - b.n
  IN Chk("C02:C01:invented", Len(N) <= have)
     \cup Chk("C02:order", \A k \in DOMAIN N : k <= have => N[k].args = Tpl!Strip(Expand(b, b.items[b.n + k].args)))
     \cup Chk("C02:bundle", Len(N) <= b.bs)
     \cup Chk("C02:buffered", Len(N) < b.bs => b.end \/ e.t - b.last >= b.bw - Tol(s))
     \cup Chk("C02:identity", \A k \in DOMAIN N : N[k].id # 0 /\ ~HasRow(s, N[k].id) /\ N[k].si = e.p /\ N[k].sh = Host(s, e.p))
     \cup Chk("C02:tags", \A k \in DOMAIN N : N[k].tag = b.tag)
     \cup Chk("C02:fresh", \A k \in DOMAIN N : N[k].att = 1 /\ ~N[k].rtr /\ N[k].next = 0 /\ Blank(N[k]))
     \cup Chk("C02:time", \A k \in DOMAIN N : /\ N[k].sub >= (IF k = 1 THEN b.lastSub ELSE N[k-1].sub)
                                              /\ N[k].sub <= e.t
                                              /\ (k <= have => N[k].sub >= b.items[b.n + k].t))

BadRetry(s, e) ==
  LET R == RetryIns(e)
      A == After(s, e)
  IN IF R = <<>> THEN {} ELSE
     Chk("C05:C03:server", Up(s) /\ e.p = s.srv)
     \cup (IF ~Up(s) THEN {} ELSE UNION {
        LET r == R[k] IN
        IF ~HasRow(s, r.prev) THEN {"C05:C08:lineage-unknown"} ELSE
        LET o == s.tasks[r.prev] IN
          Chk("C05:C08:C20:not-owed", Owed(s, o))
          \cup Chk("C05:C08:duplicate", \A j \in DOMAIN s.tasks : s.tasks[j].prev # r.prev)
          \cup Chk("C05:copy", r.args = o.args /\ r.tag = o.tag)
          \cup Chk("C05:attempt", r.att = o.att + 1)
          \cup Chk("C05:C08:link", r.prev \in DOMAIN A /\ A[r.prev].rtr /\ A[r.prev].next = r.id)
          \cup Chk("C05:fresh", ~r.rtr /\ r.next = 0 /\ r.ct = -1 /\ r.ex = NOEX /\ r.cli = "~")
          \cup Chk("C14:C05:after-signal", s.usr = 0 \/ e.t <= s.usrT + Tol(s))
          : k \in DOMAIN R}
          \cup Chk("C05:twice", \A j, k \in DOMAIN R : j # k => R[j].prev # R[k].prev)
          \cup Chk("C06:retry-order",
                \A k \in DOMAIN R : HasRow(s, R[k].prev) =>
                   \A j \in DOMAIN s.tasks : Owed(s, s.tasks[j]) /\ (\A i \in DOMAIN R : R[i].prev # j)
                        /\ s.ex[j].fin < e.t - Tol(s) => s.tasks[R[k].prev].ct <= s.tasks[j].ct)
          \cup Chk("C06:C05:retry-room", Len(R) <= s.so.bs))

\* the result of its evicted client arrives while the task is being scheduled again
JustDone(s, e, i) == i \in DOMAIN s.ex /\ s.ex[i].dup /\ s.ex[i].fin # -1 /\ s.ex[i].fin >= e.t - Tol(s)
BadSched(s, e) ==
  LET S == Ids(s, e, "sched")
      R == {r.id : r \in {x \in Range(RetryIns(e)) : x.sch # -1}}
      A == After(s, e)
      inter == {j \in DOMAIN s.tasks : s.tasks[j].sch # -1 /\ ~Final(s.tasks[j])}
      left == {j \in DOMAIN A : Unsched(A[j]) /\ j \in DOMAIN s.ex /\ s.ex[j].una < e.t - Tol(s)}
      oldOwed == {j \in DOMAIN A : HasRow(s, j) /\ Owed(s, A[j]) /\ Owed(s, s.tasks[j]) /\ s.ex[j].fin < e.t - Tol(s)}
  IN IF S = {} /\ R = {} THEN {} ELSE
     IF ~Up(s) \/ e.p # s.srv THEN {"C03:C09:foreign-schedule"} ELSE
     Chk("C03:size", Cardinality(S \cup R) <= s.so.bs)
     \cup Chk("C03:C09:result", \A i \in S : ~Final(s.tasks[i]) \/ JustDone(s, e, i))
     \cup Chk("C20:C03:cancelled", \A i \in S : ~Cancelled(A[i]))
     \cup Chk("C03:record", \A i \in S \cup R : A[i].srv = e.p /\ A[i].srvh = Host(s, e.p) /\ A[i].sch <= e.t
                                          /\ A[i].sch >= s.t - Tol(s))
     \cup Chk("C03:C04:only", \A u \in Range(e.upd) : u.id \in S => DOMAIN u.f \subseteq SchedFields)
     \cup Chk("C03:C06:fifo", \A i \in S : \A j \in left : A[i].sub <= A[j].sub)
     \cup Chk("C03:overlap", s.sp = <<>>)
     \cup Chk("C08:C01:recovered", s.nsched = 0 /\ ~s.so.inmem => inter = {})
     \cup Chk("C14:C07:after-signal", s.usr = 0 \/ e.t <= s.usrT + Tol(s))
     \cup Chk("C07:C10:after-stop", s.nones = 0)
     \cup Chk("C06:retry-first", s.so.eager /\ (\E i \in S : s.tasks[i].prev = 0) => oldOwed = {})
     \cup Chk("C06:C03:fill", Cardinality(S \cup R) < s.so.bs => left = {} /\ oldOwed = {})

BadRevert(s, e) ==
  LET S == Ids(s, e, "revert")
      A == After(s, e)
      boot == Up(s) /\ e.p = s.srv /\ s.nsched = 0 /\ s.sq = <<>>
  IN IF S = {} THEN {} ELSE
     Chk("C08:C09:clear", \A i \in S : Blank(A[i]))
     \cup Chk("C08:C09:C04:only", \A u \in Range(e.upd) : u.id \in S => DOMAIN u.f \subseteq (RunFields \cup SchedFields))
     \cup Chk("C08:C09:C04:finished", \A i \in S : s.tasks[i].ct = -1)
     \cup Chk("C20:C08:C09:cancelled", \A i \in S : ~Cancelled(s.tasks[i]))
     \cup Chk("C09:C08:C03:whose", boot \/ (\A i \in S : s.tasks[i].cli \in DOMAIN s.evq)
                                       \/ (Up(s) /\ s.usr # 0 /\ S = Range(s.sp)))   \* interrupted with the queue full

BadResult(s, e) ==
  LET S == Ids(s, e, "result")
      A == After(s, e)
      take(i) == {k \in DOMAIN s.rq : s.rq[k].m.id = i}
  IN IF S = {} THEN {} ELSE
     Chk("C04:C01:source", \A i \in S : take(i) # {})
     \cup Chk("C04:value", \A i \in S : take(i) # {} => \E k \in take(i) : SameRun(A[i], s.rq[k].m))
     \cup Chk("C04:C08:only", \A u \in Range(e.upd) : u.id \in S =>
              DOMAIN u.f \subseteq RunFields
              \/ (s.ex[u.id].dup /\ DOMAIN u.f \subseteq RunFields \cup SchedFields
                   /\ \E k \in take(u.id) : \A f \in SchedFields : A[u.id][f] = s.rq[k].m[f]))
     \cup Chk("C04:C08:rewritten", \A i \in S : s.tasks[i].ct = -1 \/ s.ex[i].dup)

BadConfirm(s, e) ==
  LET S == Ids(s, e, "confirm")
      A == After(s, e)
  IN IF S = {} THEN {} ELSE
     Chk("C15:source", \A i \in S : \E k \in DOMAIN s.cfq : i \in Range(s.cfq[k].ids) /\ A[i].cli = s.cfq[k].c
                                                             /\ A[i].clih = s.cfq[k].h)
     \cup Chk("C15:disabled", Up(s) => ~s.so.noconfirm)

BadMark(s, e) ==
  LET S == Ids(s, e, "mark")
      A == After(s, e)
  IN IF S = {} THEN {} ELSE
     Chk("C05:C04:mark", \A i \in S : A[i].rtr /\ A[i].next # 0 /\ A[i].next \in DOMAIN A /\ A[A[i].next].prev = i)

CRow(s, e) == LET U == [i \in {u.id : u \in Range(e.cupd)} |-> (CHOOSE u \in Range(e.cupd) : u.id = i).f @@ s.reg[i]]
                  I == [i \in {r.id : r \in Range(e.cins)} |-> CHOOSE r \in Range(e.cins) : r.id = i]
                  All == U @@ I @@ s.reg
              IN [i \in DOMAIN All \ Range(e.cdel) |-> All[i]]

BadClients(s, e) ==
  LET A == CRow(s, e) IN
    UNION { LET r == e.cins[k] IN
              Chk("C22:unknown-client", r.id \in DOMAIN s.beats)
              \cup Chk("C22:record", r.id \in DOMAIN s.beats => r.host = s.beats[r.id].h /\ r.con = s.beats[r.id].first
                                       /\ r.dis = -1 /\ ~r.ev /\ r.srv = e.p)
            : k \in DOMAIN e.cins }
    \cup UNION { LET u == e.cupd[k]
                     o == s.reg[u.id]
                     n == A[u.id]
                     hb == IF u.id \in DOMAIN s.beats THEN s.beats[u.id] ELSE [at |-> -1, in |-> FALSE]
                 IN Chk("C22:C09:client-fields", DOMAIN u.f \subseteq {"dis", "ev"})
                    \cup Chk("C22:C09:evict-mark", n.ev => n.dis # -1)
                    \cup Chk("C22:disconnect-time", n.dis # -1 /\ n.dis # o.dis => n.dis <= e.t /\ n.dis >= s.t - Tol(s))
                    \cup Chk("C09:early", n.ev /\ ~o.ev => e.t - hb.at > s.so.evict)
                    \cup Chk("C22:C09:departed", o.dis = -1 /\ n.dis # -1 /\ ~n.ev => ~hb.in)
                    \cup Chk("C09:C22:reregister", n.dis = -1 /\ o.dis # -1 => hb.in /\ ~n.ev)
                    \cup Chk("C09:C22:evict-clear", o.ev /\ ~n.ev => n.dis = -1)
            : k \in DOMAIN e.cupd }
    \cup Chk("C22:deleted", e.cdel = <<>>)

ResultsKept(s, e) ==
  LET A == After(s, e) IN
    Chk("C08:C04:kept", e.user \/ \A i \in DOMAIN s.results : i \in DOMAIN A =>
                          (A[i].ex = s.results[i] \/ s.ex[i].dup))

BadDb(s, e) ==
  LET O == Ids(s, e, "other") IN
    Chk("C16:database", ~(Up(s) /\ s.so.inmem /\ e.p = s.srv))
    \cup (IF e.user THEN BadNew(s, e) ELSE
      BadNew(s, e) \cup BadRetry(s, e) \cup BadSched(s, e) \cup BadRevert(s, e) \cup BadResult(s, e)
      \cup BadConfirm(s, e) \cup BadMark(s, e) \cup BadClients(s, e) \cup ResultsKept(s, e)
      \cup Chk("C04:C15:C03:C20:unexplained", O = {})
      \cup Chk("C01:C08:deleted", e.dele = <<>>))

EffDb(s, e) ==
  LET A == After(s, e)
      S == Ids(s, e, "sched")
      Rv == Ids(s, e, "revert")
      Re == Ids(s, e, "result")
      insIds == {r.id : r \in Range(e.ins)}
      RS == {r.id : r \in {x \in Range(e.ins) : x.sch # -1}}
      N == FreshIns(e)
      known(i) == i \in DOMAIN s.ex
      fresh == [ep |-> 0, po |-> 0, una |-> e.t, scT |-> -1, cfT |-> -1, fin |-> -1, dup |-> FALSE]
      userUn == IF e.user THEN {u.id : u \in {v \in Range(e.upd) : s.tasks[v.id].sch # -1 /\ NewRow(s, v).sch = -1}} ELSE {}
      X == [i \in DOMAIN A |->
              LET b == IF known(i) THEN s.ex[i] ELSE fresh IN
              [b EXCEPT !.ep = IF i \in S \/ i \in RS THEN @ + 1 ELSE @,
                        !.po = IF i \in Rv THEN b.ep ELSE @,   \* it may not have been posted before the server died
                        !.scT = IF i \in S \/ i \in RS THEN e.t ELSE @,
                        !.cfT = IF known(i) /\ i \in DOMAIN s.tasks /\ A[i].cli # s.tasks[i].cli THEN e.t ELSE @,
                        !.una = IF i \in Rv \/ i \in userUn THEN e.t ELSE @,
                        !.dup = IF i \in Rv THEN TRUE ELSE @,
                        !.fin = IF i \in Re THEN e.t ELSE @] ]
      \* scheduled set in order of dispatch is not known yet: kept as a set in sequence form
      newsp == LET T == S \cup RS
                   RECURSIVE F(_)
                   F(Q) == IF Q = {} THEN <<>> ELSE LET i == MinOf(Q) IN <<i>> \o F(Q \ {i})
               IN F(T)
      sb == s.subm[e.p]
      \* (the results of two runs of the same task may be recorded at once: the later one stays)
      kept == {k \in DOMAIN s.rq : s.rq[k].m.id \in DOMAIN A
                  /\ \A j \in DOMAIN s.rq : j >= k /\ s.rq[j].m.id = s.rq[k].m.id => ~Written(s, A[s.rq[j].m.id], s.rq[j].m)}
      rq2 == LET RECURSIVE G(_)
                 G(k) == IF k > Len(s.rq) THEN <<>> ELSE (IF k \in kept THEN <<s.rq[k]>> ELSE <<>>) \o G(k + 1)
             IN G(1)
      evicted == {u.id : u \in {v \in Range(e.cupd) : CRow(s, e)[v.id].ev /\ ~s.reg[v.id].ev}}
      back == {u.id : u \in {v \in Range(e.cupd) : ~CRow(s, e)[v.id].ev /\ s.reg[v.id].ev}}
      s1 == [s EXCEPT !.tasks = A, !.ex = X, !.reg = CRow(s, e),
                !.sp = IF e.user THEN @ ELSE SelectSeq(@, LAMBDA i : i \notin Rv) \o newsp,
                !.nsched = IF (S \cup RS) # {} /\ ~e.user THEN @ + 1 ELSE @,
                !.rq = IF e.user THEN @ ELSE rq2,
                !.evq = [p \in ((DOMAIN @ \ back) \cup evicted) |-> IF p \in evicted THEN e.t ELSE @[p]],
                !.beats = [p \in DOMAIN @ |-> IF p \in evicted THEN [@[p] EXCEPT !.in = FALSE, !.got = e.t] ELSE @[p]],
                !.results = [i \in (DOMAIN A \cap (DOMAIN @ \cup Re)) \ userUn |->
                                IF i \in DOMAIN @ THEN @[i] ELSE A[i].ex],
                !.subm = IF N # <<>> /\ e.p \in DOMAIN @ THEN
                            Put(@, e.p, [@[e.p] EXCEPT !.n = @ + Len(N), !.last = e.t, !.lastSub = N[Len(N)].sub])
                         ELSE @ ]
  IN s1

---------------------------------------------------------------------------
(* Shared queues *)

CoreFields == {"id", "args", "si", "sub", "sh", "att", "rtr", "prev", "next", "tag", "sch", "srv", "srvh"}
SameCore(a, b) == \A f \in CoreFields : a[f] = b[f]

BadSqPut(s, e) ==
  IF e.none THEN
    Chk("C07:C10:C01:C05:early-stop", MayStop(s))
    \cup Chk("C10:sentinels", s.nones < 2 * Cardinality(DOMAIN s.beats))   \* (told again if another one may have taken it)
    \cup Chk("C03:C01:unposted", s.sp = <<>>)
  ELSE
    Chk("C03:C16:empty", Len(e.items) > 0)
    \cup Chk("C03:C16:size", Len(e.items) <= s.so.bs)
    \cup Chk("C03:C16:distinct", \A i, j \in DOMAIN e.items : i # j => e.items[i].id # e.items[j].id)
    \cup Chk("C03:C16:unrun", \A k \in DOMAIN e.items : (e.items[k].ex = NOEX /\ e.items[k].ct = -1) \/ JustDone(s, e, e.items[k].id))
    \cup IF s.so.inmem THEN
           LET b == Subm1(s) IN
           IF s.srv \notin DOMAIN s.subm THEN {"C16:no-source"} ELSE
             Chk("C16:invented", Len(e.items) <= Len(b.items) - b.n)
             \cup Chk("C16:C02:buffered", Len(e.items) < b.bs => b.end \/ e.t - b.last >= b.bw - Tol(s))
             \cup Chk("C16:order", \A k \in DOMAIN e.items : b.n + k <= Len(b.items) => e.items[k].args = b.items[b.n + k].args)
             \cup Chk("C16:C02:fresh", \A k \in DOMAIN e.items : e.items[k].att = 1 /\ ~e.items[k].rtr
                                          /\ e.items[k].prev = 0 /\ e.items[k].next = 0 /\ e.items[k].id \notin DOMAIN s.ex)
         ELSE
           Chk("C03:once", /\ {e.items[k].id : k \in DOMAIN e.items} \subseteq DOMAIN s.ex
                           /\ \A k \in DOMAIN e.items : s.ex[e.items[k].id].po + 1 = s.ex[e.items[k].id].ep)
           \cup Chk("C03:bundle", {e.items[k].id : k \in DOMAIN e.items} = Range(s.sp))
           \cup Chk("C03:recorded", \A k \in DOMAIN e.items : HasRow(s, e.items[k].id) =>
                                     s.tasks[e.items[k].id].srv = s.srv /\ s.tasks[e.items[k].id].sch # -1)
           \cup Chk("C20:cancelled", \A k \in DOMAIN e.items : HasRow(s, e.items[k].id) => ~Cancelled(s.tasks[e.items[k].id]))
           \cup Chk("C03:C25:copy", \A k \in DOMAIN e.items : HasRow(s, e.items[k].id) =>
                                     \/ SameCore(e.items[k], s.tasks[e.items[k].id])
                                     \* or the result of an earlier, evicted run has arrived since it was scheduled
                                     \/ (Final(s.tasks[e.items[k].id]) /\ s.ex[e.items[k].id].dup))
           \cup Chk("C06:new-first", ~s.so.eager /\ (\E k \in DOMAIN e.items : /\ e.items[k].prev # 0
                                             /\ e.items[k].id \in DOMAIN s.ex /\ s.ex[e.items[k].id].ep = 1
                                             /\ s.ex[e.items[k].id].scT - s.ex[e.items[k].id].una <= Tol(s))
                       => \A j \in DOMAIN s.tasks : ~(Unsched(s.tasks[j]) /\ s.ex[j].una < s.ex[e.items[1].id].scT - Tol(s)))
           \cup Chk("C03:in-order", \A j, k \in DOMAIN e.items : j < k /\ e.items[j].prev = 0 /\ e.items[k].prev = 0
                                     => e.items[j].sub <= e.items[k].sub)

EffSqPut(s, e) ==
  LET n == [none |-> e.none, items |-> e.items, t |-> e.t]
      I == {e.items[k].id : k \in DOMAIN e.items}
  IN [s EXCEPT !.sq = Append(@, n), !.lastPut = e.t,
        !.nones = IF e.none THEN @ + 1 ELSE @,
        !.sp = SelectSeq(@, LAMBDA i : i \notin I),
        !.ex = [i \in (DOMAIN @ \cup (IF s.so.inmem THEN I ELSE {})) |->
                  IF i \in I THEN (IF i \in DOMAIN @ THEN [@[i] EXCEPT !.po = @ + 1]
                                   ELSE [ep |-> 1, po |-> 1, una |-> e.t, scT |-> e.t, cfT |-> -1, fin |-> -1, dup |-> FALSE])
                  ELSE @[i]],
        !.subm = IF s.so.inmem /\ ~e.none /\ s.srv \in DOMAIN @ THEN
                    Put(@, s.srv, [@[s.srv] EXCEPT !.n = @ + Len(e.items), !.last = e.t]) ELSE @]

BadSqGet(s, e) ==
  LET c == s.cl[e.p] IN
    Chk("C10:after-disconnect", ~c.none)
    \cup Chk("C10:after-final", ~c.fin)
    \cup Chk("C14:after-signal", ~(c.usr # 0 /\ c.solo) \/ e.t <= c.usrT + Tol(s))
    \cup Chk("C15:unconfirmed", c.noconfirm \/ c.conf = <<>>)

EffSqGet(s, e) ==
  LET c == s.cl[e.p]
      add == [k \in DOMAIN e.items |-> [id |-> e.items[k].id, m |-> e.items[k], st |-> "q", t |-> e.t, s |-> -1, x |-> -1,
                                         code |-> NOEX, cmd |-> "~", sg |-> <<>>]]
      c2 == [c EXCEPT !.rcv = @ \o add,
               !.conf = IF e.none THEN @ ELSE IF c.noconfirm THEN <<>> ELSE [k \in DOMAIN e.items |-> e.items[k].id],
               !.none = @ \/ e.none, !.noneT = IF e.none THEN e.t ELSE @, !.lastRcv = e.t]
  IN [s EXCEPT !.sq = Tail(@), !.sqF = IF Len(s.sq) >= s.qs THEN e.t ELSE @, !.cl[e.p] = c2]

BadCqPut(s, e) ==
  IF e.none THEN Chk("C15:C10:stop", e.p = s.srv) ELSE
  IF e.p \notin DOMAIN s.cl THEN {"C15:stranger"} ELSE
  LET c == s.cl[e.p] IN
    Chk("C15:disabled", ~c.noconfirm)
    \cup Chk("C15:bundle", c.conf # <<>> /\ e.ids = c.conf)
    \cup Chk("C15:who", e.c = e.p /\ e.h = Host(s, e.p))
    \cup Chk("C15:before-run", \A k \in DOMAIN c.rcv : k > Len(c.rcv) - Len(c.conf) => c.rcv[k].st = "q")

EffCqPut(s, e) ==
  [s EXCEPT !.cq = Append(@, [none |-> e.none, c |-> e.c, h |-> e.h, ids |-> e.ids, t |-> e.t]), !.ending = @ \/ (e.none /\ e.p = s.srv),
            !.cl = IF e.p \in DOMAIN @ THEN [@ EXCEPT ![e.p].conf = <<>>] ELSE @]
EffCqGet(s, e) == [s EXCEPT !.cq = IF @ = <<>> THEN @ ELSE Tail(@),
                            !.cfq = IF e.none \/ s.so.inmem THEN @ ELSE
                                    Append(SelectSeq(@, LAMBDA q : e.t <= q.t + 60000),
                                           [c |-> e.c, h |-> e.h, ids |-> e.ids, t |-> e.t])]

\* the entry a result belongs to (a client evicted by mistake may run a task twice)
ItemEntry(c, it) ==
  LET K == {k \in Entries(c, "fin") \cup Entries(c, "perhaps") \cup Entries(c, "lost") : c.rcv[k].id = it.id}
      M == {k \in K : c.rcv[k].m.sch = it.sch}
  IN IF M # {} THEN MinOf(M) ELSE IF K # {} THEN MinOf(K) ELSE 0
Returned(s, c, it, t) ==
  LET f == ItemEntry(c, it)
      j == IF f # 0 THEN f ELSE FirstEntry(c, it.id, "q")
  IN IF j = 0 THEN c ELSE [c EXCEPT !.rcv[j].st = "ret", !.rcv[j].x = IF @ = -1 THEN t ELSE @]

FailedExpand(c, r) == Expand(c, r.m.args) = "~"
BadItem(s, c, p, it) ==
  LET kf == ItemEntry(c, it)
      kq == FirstEntry(c, it.id, "q")
  IN IF kf # 0 THEN
       LET r == c.rcv[kf] IN
         Chk("C04:C11:status", it.ex = r.code)
         \cup Chk("C04:times", it.st <= r.s /\ it.st >= r.s - Tol(s) /\ it.ct >= r.x /\ it.ct <= r.x + 1000 + Tol(s))
         \cup Chk("C04:duration", it.du = Floor(it.ct - it.st) /\ it.wt = Floor(it.st - it.sub))
         \cup Chk("C04:C15:client", it.cli = p /\ it.clih = Host(s, p))
         \cup Chk("C04:C18:command", it.cmd = r.cmd)
         \cup Chk("C04:C25:copy", SameCore(it, r.m))
         \cup Chk("C18:capture", c.capture <=> it.outp # "~")
     ELSE IF kq # 0 /\ FailedExpand(c, c.rcv[kq]) THEN
       Chk("C04:C11:C24:unexpandable", it.ex = -1 /\ it.st # -1 /\ it.ct >= it.st /\ it.cmd = "~" /\ it.ct <= s.t + Tol(s)
                                     /\ SameCore(it, c.rcv[kq].m) /\ it.cli = p /\ it.clih = Host(s, p))
     ELSE {"C11:C12:C04:not-finished"}

BadDqPut(s, e) ==
  IF e.none THEN Chk("C10:stop", e.p = s.srv) ELSE
  IF e.p \notin DOMAIN s.cl THEN {"C12:stranger"} ELSE
  LET c == s.cl[e.p]
      xs(k) == LET j == ItemEntry(c, e.items[k]) IN IF j = 0 \/ c.rcv[j].st # "fin" THEN -1 ELSE c.rcv[j].x
      I == {e.items[k].id : k \in DOMAIN e.items}
  IN Chk("C12:empty", Len(e.items) > 0)
     \cup Chk("C12:size", Len(e.items) <= c.bs)
     \cup Chk("C12:buffered", Len(e.items) < c.bs => c.none \/ c.usr # 0 \/ e.t - c.lastSend >= c.bw - Tol(s)
                                                    \/ (c.timeout >= 0 /\ e.t >= Max2(c.lastRcv, c.upT) + c.timeout))
     \cup Chk("C10:after-final", ~c.fin)
     \cup Chk("C12:C11:distinct", \A j, k \in DOMAIN e.items : j # k => e.items[j].id # e.items[k].id \/ e.items[j].sch # e.items[k].sch)
     \cup LET RECURSIVE G(_, _)
              G(c0, k) == IF k > Len(e.items) THEN {} ELSE
                          BadItem(s, c0, e.p, e.items[k]) \cup G(Returned(s, c0, e.items[k], e.t), k + 1)
          IN G(c, 1)
     \cup Chk("C12:order", Cardinality(Entries(c, "fin")) <= 2 * c.bs =>
                \A k \in DOMAIN e.items : xs(k) # -1 =>
                  /\ \A j \in DOMAIN e.items : j < k /\ xs(j) # -1 => xs(j) <= xs(k) + Tol(s)
                  /\ \A j \in Entries(c, "fin") : c.rcv[j].id \notin I => xs(k) <= c.rcv[j].x + Tol(s))

EffDqPut(s, e) ==
  LET RECURSIVE Mark(_, _)
      Mark(c, k) == IF k > Len(e.items) THEN c ELSE Mark(Returned(s, c, e.items[k], e.t), k + 1)
      s1 == [s EXCEPT !.dq = Append(@, [none |-> e.none, items |-> e.items, t |-> e.t]),
                      !.ending = @ \/ (e.none /\ e.p = s.srv /\ s.so.noconfirm)]
  IN IF e.p \in DOMAIN s.cl THEN [s1 EXCEPT !.cl[e.p] = [Mark(@, 1) EXCEPT !.lastSend = e.t]] ELSE s1

EffDqGet(s, e) ==
  LET add == [k \in DOMAIN e.items |-> [m |-> e.items[k], t |-> e.t]]
      news == SelectSeq(add, LAMBDA q : q.m.id \in DOMAIN s.tasks /\ ~Written(s, s.tasks[q.m.id], q.m))
      failed == SelectSeq(add, LAMBDA q : q.m.ex # 0)
  IN [s EXCEPT !.dq = IF @ = <<>> THEN @ ELSE Tail(@), !.dqF = IF Len(s.dq) >= s.qs THEN e.t ELSE @,
        !.rq = IF s.so.inmem THEN @ ELSE @ \o news,
        !.results = IF s.so.inmem THEN [i \in {q.m.id : q \in Range(add)} |->
                            (CHOOSE q \in Range(add) : q.m.id = i).m.ex] @@ @ ELSE @,
        !.failq = IF s.so.redirect THEN @ \o [k \in DOMAIN failed |-> [line |-> failed[k].m.args, t |-> e.t]] ELSE @]

BadFail(s, e) ==
  IF ~Up(s) THEN {} ELSE
    Chk("C17:disabled", s.so.redirect)
    \cup Chk("C17:line", s.failq # <<>> /\ s.failq[1].line = e.line)

BadHbPut(s, e) ==
  IF e.none \/ e.p \notin DOMAIN s.cl THEN {} ELSE
  LET c == s.cl[e.p] IN
    Chk("C22:C10:after-final", ~c.fin)
    \cup Chk("C22:who", e.c = e.p /\ e.h = Host(s, e.p) /\ e.at <= e.t /\ e.at >= s.t - Tol(s))
    \cup Chk("C22:early", e.at >= c.upT + Max2(c.delay, 0) - 200)   \* no life before the delay asked for
    \cup Chk("C22:too-soon", ~e.fin /\ c.hbN > 1 => e.at - c.hbT >= c.hr - 1200)
    \cup Chk("C22:C09:gap", ~e.fin /\ c.hbN > 0 => e.at - c.hbT <= c.hr + Tol(s))
    \cup (IF e.fin THEN
            Chk("C10:C11:C12:C01:final-early", \A k \in DOMAIN c.rcv : c.rcv[k].st = "ret" \/ c.rcv[k].id \in s.gaveup)
            \cup Chk("C14:C10:left-early", c.none \/ (c.usr # 0 /\ c.solo)
                                       \/ (c.timeout >= 0 /\ e.t >= Max2(c.lastRcv, c.upT) + c.timeout))
          ELSE {})

EffHbPut(s, e) ==
  LET s1 == [s EXCEPT !.hq = Append(@, [none |-> e.none, c |-> e.c, at |-> e.at, fin |-> e.fin, t |-> e.t])]
  IN IF ~e.none /\ e.p \in DOMAIN s.cl THEN
       [s1 EXCEPT !.cl[e.p].hbN = @ + 1, !.cl[e.p].hbT = e.at, !.cl[e.p].fin = @ \/ e.fin,
                  !.cl[e.p].finT = IF e.fin THEN e.t ELSE @]
     ELSE s1

EffHbGet(s, e) ==
  LET old == IF e.c \in DOMAIN s.beats THEN s.beats[e.c]
             ELSE [at |-> e.at, h |-> e.h, in |-> FALSE, first |-> e.at, since |-> e.t, got |-> e.t]
      new == [old EXCEPT !.at = e.at, !.in = ~e.fin, !.got = IF old.in = ~e.fin THEN @ ELSE e.t,
                         !.since = IF ~old.in /\ ~e.fin THEN e.t ELSE @]
  IN [s EXCEPT !.hq = IF @ = <<>> THEN @ ELSE Tail(@),
               !.beats = IF e.none THEN @ ELSE Put(@, e.c, new)]

---------------------------------------------------------------------------
(* Task processes *)

\* the task's environment: its own fields, the client's environment, the exported settings
EnvOk(s, m, e) ==
  LET v == e.env IN
    /\ v.id = e.id /\ v.cmd = e.cmd /\ v.cli = e.p /\ v.clih = Host(s, e.p)
    /\ \A f \in {"args", "att", "si", "sh", "srv", "srvh", "prev", "next", "sub", "rtr"} : v[f] = m[f]
    /\ v.tags /\ v.base /\ v.extra /\ v.cwd /\ v.outs

BadStart(s, e) ==
  IF e.p \notin DOMAIN s.cl THEN {"C11:stranger"} ELSE
  LET c == s.cl[e.p]
      k == FirstEntry(c, e.id, "q")
      running == Cardinality(Running(s, c))
      n == Execs(s, c)
      before == {j \in Waiting(c) : j < k}
  IN IF k = 0 THEN {"C11:C03:not-received"} ELSE
     LET r == c.rcv[k] IN
     Chk("C11:parallel", running < n)
     \cup Chk("C11:C03:order", Cardinality(before) <= n - running - 1)
     \cup Chk("C11:C18:C24:command", e.cmd = Expand(c, r.m.args))
     \cup Chk("C11:shell", e.shell)
     \cup Chk("C11:C18:cwd", e.cwd)
     \cup Chk("C18:environment", EnvOk(s, r.m, e))
     \cup Chk("C11:C12:after-final", ~c.fin)
     \cup Chk("C15:before-run", c.noconfirm \/ e.id \notin Range(c.conf))
     \cup Chk("C20:cancelled", HasRow(s, e.id) => ~Cancelled(s.tasks[e.id]) \/ s.ex[e.id].ep > 0)

EffStart(s, e) ==
  LET k == IF e.p \in DOMAIN s.cl THEN FirstEntry(s.cl[e.p], e.id, "q") ELSE 0 IN
  IF k = 0 THEN s ELSE [s EXCEPT !.cl[e.p].rcv[k].st = "run", !.cl[e.p].rcv[k].s = e.t, !.cl[e.p].rcv[k].cmd = e.cmd]

\* a task which could not be started at all is reported as failed
EffNoStart(s, e) ==
  LET k == IF e.p \in DOMAIN s.cl THEN FirstEntry(s.cl[e.p], e.id, "q") ELSE 0 IN
  IF k = 0 THEN s ELSE [s EXCEPT !.cl[e.p].rcv[k].st = "fin", !.cl[e.p].rcv[k].s = e.t, !.cl[e.p].rcv[k].cmd = e.cmd,
                                 !.cl[e.p].rcv[k].x = e.t, !.cl[e.p].rcv[k].code = -1]

EffExit(s, e) ==
  LET k == IF e.p \in DOMAIN s.cl THEN FirstEntry(s.cl[e.p], e.id, "run") ELSE 0 IN
  IF k = 0 THEN s ELSE
  LET sg == s.cl[e.p].rcv[k].sg
      over == IF e.id \notin s.gaveup THEN -1 ELSE e.at - (sg[1].t + 3 * s.cl[e.p].sw)
      st == IF over < -10 THEN "fin" ELSE IF over < 2000 THEN "perhaps" ELSE "lost"
  IN [s EXCEPT !.cl[e.p].rcv[k].st = IF e.id \in s.gaveup THEN st ELSE "fin", !.cl[e.p].rcv[k].x = e.at, !.cl[e.p].rcv[k].code = e.code,
               !.gaveup = IF st = "fin" THEN @ \ {e.id} ELSE @]

BadSig(s, e) ==
  IF e.p \notin DOMAIN s.cl THEN {"C13:stranger"} ELSE
  LET c == s.cl[e.p]
      k == FirstEntry(c, e.id, "run")
  IN IF k = 0 THEN {"C13:C14:not-running"} ELSE
     LET r == c.rcv[k]
         n == Len(r.sg)
     IN Chk("C13:C14:sequence", n < 3 /\ e.sig = <<2, 15, 9>>[n + 1])
        \cup Chk("C13:C14:cause", (c.limit >= 0 /\ e.t - r.s >= c.limit + 2000 - Tol(s)) \/ c.usr = 12)
        \cup Chk("C13:C14:too-soon", n > 0 => e.t - r.sg[1].t >= n * c.sw - 1000)

EffSig(s, e) ==
  LET k == IF e.p \in DOMAIN s.cl THEN FirstEntry(s.cl[e.p], e.id, "run") ELSE 0 IN
  IF k = 0 THEN s ELSE [s EXCEPT !.cl[e.p].rcv[k].sg = Append(@, [sig |-> e.sig, t |-> e.t]),
                                 !.gaveup = IF e.sig = 9 /\ e.deaf THEN @ \cup {e.id} ELSE @]

---------------------------------------------------------------------------
(* Processes and the end of the run *)

\* these tasks were given to others, too, because their client was evicted, and are finished already
Superfluous(s, items) == ~s.so.inmem /\ \A k \in DOMAIN items : LET i == items[k].id IN
                           HasRow(s, i) /\ Final(s.tasks[i]) /\ i \in DOMAIN s.ex /\ s.ex[i].dup
\* without a database nobody knows what a client which died had, and the server returns
\* when all clients it was told of are gone
Bereft(s) == s.so.inmem /\ \E p \in DOMAIN s.cl : s.cl[p].st = "dead"
BadProcEnd(s, e) ==
  IF e.p = s.srv THEN
    \* nobody is left (as far as the server was told) to take what was scheduled before the interrupt
    LET deserted == s.usr # 0 /\ \A p \in LiveClients(s) : (s.cl[p].fin /\ s.cl[p].solo) \/ p \notin DOMAIN s.beats
        bereft == Bereft(s) IN
    IF ~e.ok THEN {"ALL:C01:C10:server-failed"} ELSE
    Chk("C07:C01:C05:C10:stopped-early", MayStop(s))
    \cup Chk("C10:C12:C01:undelivered",
             bereft \/
               ((deserted \/ \A i \in DOMAIN s.sq : (s.sq[i].none \/ Superfluous(s, s.sq[i].items)))
                /\ (\A i \in DOMAIN s.dq : \/ s.dq[i].none \/ Superfluous(s, s.dq[i].items)
                                            \/ (deserted /\ \A k \in DOMAIN s.dq[i].items : s.dq[i].items[k].cli \notin DOMAIN s.beats))
                /\ s.rq = <<>> /\ s.sp = <<>>))
    \cup Chk("C10:clients", bereft \/ Connected(s) = {})
    \cup Chk("C10:C15:unconfirmed", \A i \in DOMAIN s.cfq : Confirmable(s, s.cfq[i]) = {})
    \cup Chk("C17:missing", s.failq = <<>>)
    \cup (IF s.so.inmem THEN
            Chk("C16:C01:results", bereft \/ \A i \in DOMAIN s.ex : i \in DOMAIN s.results \/ i \in s.lost \cup s.gaveup)
          ELSE
            Chk("C01:C10:C14:unfinished", \A i \in DOMAIN s.tasks :
                   s.tasks[i].srv = e.p /\ ~Cancelled(s.tasks[i]) => deserted \/ s.tasks[i].ct # -1 \/ i \in s.lost \cup s.gaveup)
            \cup Chk("C22:C10:registry", \A p \in DOMAIN s.reg : s.reg[p].srv = e.p => s.reg[p].dis # -1))
  ELSE IF e.p \in DOMAIN s.cl THEN
    LET c == s.cl[e.p] IN
    IF c.st # "up" THEN {} ELSE
    IF ~e.ok THEN Chk("ALL:C10:C01:client-failed", (e.p \notin DOMAIN s.beats /\ s.srv = "") \/ Forsaken(s, e.p) \/ Bereft(s)) ELSE
      Chk("C10:C22:announced", c.fin)
      \cup Chk("C11:C12:C10:unreturned", \A k \in DOMAIN c.rcv : c.rcv[k].st = "ret" \/ c.rcv[k].id \in s.gaveup)
  ELSE Chk("C27:C02:C19:user-failed", e.ok)

Gone(s, p, st) ==
  LET c == s.cl[p]
      un == {c.rcv[k].id : k \in {j \in DOMAIN c.rcv : c.rcv[j].st # "ret"}}
      unconf == IF c.noconfirm \/ (Up(s) /\ (s.so.inmem \/ s.so.noconfirm)) THEN un ELSE Range(c.conf)
  IN [s EXCEPT !.cl[p].st = st, !.lost = IF st = "dead" /\ c.st # "orphan" THEN @ \cup unconf ELSE @]

ServerGone(s) ==
  [s EXCEPT !.srv = "", !.ending = FALSE, !.sq = <<>>, !.dq = <<>>, !.cq = <<>>, !.hq = <<>>, !.rq = <<>>, !.cfq = <<>>, !.sp = <<>>,
     !.failq = <<>>, !.beats = Empty, !.evq = Empty, !.nones = 0, !.usr = 0, !.doneT = -1, !.doneL = -1, !.lost = {}, !.gaveup = {}]
Orphan(s) == [s EXCEPT !.cl = [p \in DOMAIN @ |-> IF @[p].st = "up" THEN [@[p] EXCEPT !.st = "orphan"] ELSE @[p]]]

BadEnd(s, e) ==
  LET stuckOk == s.lost # {} \/ s.gaveup # {} \/ s.expect = "any" \/ (DB(s) /\ DOMAIN s.tasks = {}) IN
  LET over == e.outcome = "done" \/ (s.srv = "" /\ LiveClients(s) = {})   \* (clients whose server was killed may stay) 
  IN
  Chk("ALL:C01:C07:C10:hang", over \/ stuckOk)
  \* known finding: bundles taken but not yet confirmed when their client dies are never recovered
  \cup Chk("C01:lost-before-confirmed", ~(e.outcome # "done" /\ s.lost # {} /\ s.gaveup = {} /\ s.expect = "done" /\ DB(s)
                                        /\ ~s.so.noconfirm /\ \A p \in DOMAIN s.cl : ~s.cl[p].noconfirm))
  \cup (IF s.expect = "done" /\ over /\ ~stuckOk THEN
          Chk("ALL:C01:C08:final", s.cut \/ \A i \in DOMAIN s.tasks : Final(s.tasks[i]))
          \cup Chk("C02:C01:stored", \A p \in DOMAIN s.subm : s.subm[p].n = Len(s.subm[p].items) \/ ~s.subm[p].end)
        ELSE {})

---------------------------------------------------------------------------

\* the rules on a single step, apart from those on delay
BadStep(s, e) ==
  CASE e.e = "db" -> BadDb(s, e)
    [] e.e = "sq_put" -> IF Up(s) THEN BadSqPut(s, e) ELSE {"C03:no-server"}
    [] e.e = "sq_get" -> BadSqGet(s, e)
    [] e.e = "cq_put" -> BadCqPut(s, e)
    [] e.e = "dq_put" -> BadDqPut(s, e)
    [] e.e = "hb_put" -> BadHbPut(s, e)
    [] e.e = "fail_out" -> BadFail(s, e)
    [] e.e \in {"start", "nostart"} -> BadStart(s, e)
    [] e.e = "sig" -> BadSig(s, e)
    [] e.e = "proc_end" -> BadProcEnd(s, e)
    [] e.e = "thread_exc" -> IF e.p = s.srv THEN {"ALL:C01:C10:component-failed"}
                             ELSE IF Live(s, e.p) /\ Up(s) /\ ~Forsaken(s, e.p) /\ ~Bereft(s) THEN {"ALL:C01:C10:C11:component-failed"} ELSE {}
    [] e.e = "stuck" -> {"C01:C10:stuck"}
    [] e.e = "xq_put" -> {"C03:unknown-queue"}
    [] e.e = "count" -> Chk("C02:count", e.n = Len(s.subm[e.of].items) /\ s.subm[e.of].n = e.n)
    [] e.e = "streams" -> Chk("C18:streams", e.ok)
    [] e.e = "files" -> Chk("C18:files", e.ok)
    [] e.e = "end" -> BadEnd(s, e)
    [] OTHER -> {}

Bad(s, e) == Late(s, e.t) \cup BadStep(s, e)

NoteDone(s, e) ==
  \* (an interrupted server still reads its source to the end)
  LET d == Up(s) /\ (IF s.usr # 0 THEN AllStored(s) ELSE ~s.so.forever /\ WorkDone(s))
  IN [s EXCEPT !.t = e.t, !.doneT = IF ~d THEN -1 ELSE IF @ = -1 THEN e.t ELSE @, !.doneL = IF d THEN e.t ELSE @]

Effect0(s, e) ==
  CASE e.e = "cfg" -> [s EXCEPT !.slack = e.slack, !.qs = e.qs, !.hosts = e.hosts, !.expect = e.expect]
    [] e.e = "preset" -> [s EXCEPT !.tasks = [i \in {r.id : r \in Range(e.rows)} |-> CHOOSE r \in Range(e.rows) : r.id = i],
                            !.ex = [i \in {r.id : r \in Range(e.rows)} |->
                                     [ep |-> 0, po |-> 0, una |-> -100000, scT |-> -100000, cfT |-> -1, fin |-> -100000, dup |-> FALSE]],
                            !.results = [i \in {r.id : r \in {q \in Range(e.rows) : q.ct # -1}} |->
                                            (CHOOSE r \in Range(e.rows) : r.id = i).ex] ]
    [] e.e = "srv_new" -> [s EXCEPT !.srv = e.p, !.so = e, !.srvT = e.t, !.nsched = 0, !.nones = 0, !.usr = 0, !.sqF = e.t, !.dqF = e.t,
                             !.subm = IF e.src THEN Put(@, e.p, [SubmRec(e) EXCEPT !.last = e.t]) ELSE @]
    [] e.e = "sub_new" -> [s EXCEPT !.subm = Put(@, e.p, [SubmRec(e) EXCEPT !.last = e.t])]
    [] e.e = "cl_new" -> [s EXCEPT !.cl = Put(@, e.p, ClRec(e))]
    [] e.e = "cl_start" -> [s EXCEPT !.cl[e.p].st = "up", !.cl[e.p].upT = e.t, !.cl[e.p].lastRcv = e.t, !.cl[e.p].lastSend = e.t]
    [] e.e = "cl_skip" -> [s EXCEPT !.cl[e.p].st = "gone"]
    [] e.e = "src" -> [s EXCEPT !.subm[e.p].items = Append(@, [args |-> e.args, t |-> e.t])]
    [] e.e = "src_end" -> [s EXCEPT !.subm[e.p].end = TRUE, !.subm[e.p].endT = e.t]
    [] e.e = "db" -> EffDb(s, e)
    [] e.e = "sq_put" -> IF Up(s) THEN EffSqPut(s, e) ELSE s
    [] e.e = "sq_get" -> EffSqGet(s, e)
    [] e.e = "dq_put" -> EffDqPut(s, e)
    [] e.e = "dq_get" -> EffDqGet(s, e)
    [] e.e = "cq_put" -> EffCqPut(s, e)
    [] e.e = "cq_get" -> EffCqGet(s, e)
    [] e.e = "hb_put" -> EffHbPut(s, e)
    [] e.e = "hb_get" -> EffHbGet(s, e)
    [] e.e = "fail_out" -> [s EXCEPT !.failq = IF @ = <<>> THEN @ ELSE Tail(@)]
    [] e.e = "start" -> EffStart(s, e)
    [] e.e = "nostart" -> EffNoStart(s, e)
    [] e.e = "exit" -> EffExit(s, e)
    [] e.e = "sig" -> EffSig(s, e)
    [] e.e \in {"pause", "slow"} -> [s EXCEPT !.slack = @ + e.ms]
    [] e.e = "usr" -> LET s1 == IF e.p = s.srv THEN [s EXCEPT !.usr = e.sig, !.usrT = e.t, !.cut = TRUE] ELSE s   \* (a local cluster is both)
                      IN IF e.p \in DOMAIN s.cl THEN [s1 EXCEPT !.cl[e.p].usr = e.sig, !.cl[e.p].usrT = e.t] ELSE s1
    [] e.e = "kill" -> IF e.p = s.srv THEN Orphan(ServerGone([s EXCEPT !.subm = [p \in DOMAIN @ \ {e.p} |-> @[p]]]))
                       ELSE IF e.p \in DOMAIN s.cl THEN Gone(s, e.p, "dead") ELSE s
    [] e.e = "proc_end" -> IF e.p = s.srv THEN ServerGone(s)
                           ELSE IF e.p \in DOMAIN s.cl THEN Gone(s, e.p, IF s.cl[e.p].st = "orphan" THEN "orphan" ELSE "gone")
                           ELSE s
    [] OTHER -> s

Effect(s, e) == NoteDone(Effect0(s, e), e)
=============================================================================
