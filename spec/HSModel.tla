------------------------------- MODULE HSModel ------------------------------
(***************************************************************************)
(* The algorithm of hyper-shell as a transition system: the threads of the *)
(* server (submitter, scheduler, confirm, receiver, heart monitor and the  *)
(* main thread which joins them in order) and of each client (scheduler,   *)
(* executors, collector, heartbeat) with their program counters and local  *)
(* buffers, the shared queues and the database.  Users cancel tasks and    *)
(* send signals, clients fall silent or die, and the server is killed and  *)
(* restarted, at any point.                                                *)
(*                                                                         *)
(* Each step is an event of HSCore: the observable state is that of        *)
(* HSCore (variable s), what the step observably does is HSCore's Effect,  *)
(* and whether it was allowed to is HSCore's BadStep (variable bad).  TLC  *)
(* explores every interleaving within the bounds of Cfg; the same rules    *)
(* judge what is recorded from the real code (HSTrace).                    *)
(*                                                                         *)
(* Time is abstract: all events happen at the same instant (apart from the *)
(* submit times, which are in order of the source), and each               *)
(* timeout (poll, bundle wait, eviction, idle timeout) may expire at any   *)
(* moment, so everything timing could bring about is explored.  Rules on   *)
(* delay (HSCore!Late) are judged on recorded executions only.             *)
(*                                                                         *)
(* Polling which changes nothing is not a step.  Every other step makes    *)
(* progress, so behaviours are finite, and the only states without a       *)
(* successor must be those where the server has returned (TLC's deadlock   *)
(* check and Termination).                                                 *)
(***************************************************************************)
EXTENDS HSCore

CONSTANT Cfg
VARIABLES s, m, bad
vars == <<s, m, bad>>

T == 1000
Srv(g) == <<"S", "S2", "S3">>[g]
Cls(g) == Cfg.clients[g]              \* the clients of one server
AllClients == UNION {Cls(g) : g \in 1 .. Len(Cfg.clients)}
Text == <<"a", "b", "c", "d">>
Mutant(x) == Cfg.mutant = x

---------------------------------------------------------------------------
(* Events *)

Ev(name, p) == [e |-> name, t |-> T, p |-> p]
NoDb(p) == Ev("db", p) @@ [user |-> FALSE, ins |-> <<>>, upd |-> <<>>, dele |-> <<>>, cins |-> <<>>, cupd |-> <<>>, cdel |-> <<>>]
Row(i, a, p, att, prev, sch) ==
  [id |-> i, args |-> a, si |-> p, sub |-> IF prev = 0 THEN i ELSE T, sh |-> Host(s, p), att |-> att, rtr |-> FALSE, prev |-> prev, next |-> 0, tag |-> "{}",
   sch |-> sch, srv |-> IF sch = -1 THEN "~" ELSE p, srvh |-> IF sch = -1 THEN "~" ELSE Host(s, p),
   cli |-> "~", clih |-> "~", cmd |-> "~", st |-> -1, ct |-> -1, ex |-> NOEX, outp |-> "~", errp |-> "~", wt |-> -1, du |-> -1]
ServerEv(g) ==
  Ev("srv_new", Srv(g)) @@
  [bs |-> IF Cfg.inmem THEN Cfg.subBS ELSE Cfg.bs, bw |-> 0, attempts |-> Cfg.attempts, eager |-> Cfg.eager, forever |-> Cfg.forever, restart |-> g > 1,
   noconfirm |-> Cfg.noconfirm, inmem |-> Cfg.inmem, evict |-> -1, redirect |-> Cfg.redirect, src |-> g = 1,
   tags |-> "{}", tmpl |-> "{}", tab |-> Empty]
ClientEv(p) ==
  Ev("cl_new", p) @@
  [n |-> Cfg.n, bs |-> Cfg.cBS, bw |-> 0, hr |-> 0, timeout |-> Cfg.ctimeout, limit |-> -1, sw |-> 0,
   noconfirm |-> Cfg.noconfirm \/ Cfg.inmem, capture |-> FALSE, tmpl |-> "{}", tab |-> Empty, delay |-> 0, solo |-> TRUE]
EnvOf(x, p) ==
  [id |-> x.id, args |-> x.args, att |-> x.att, si |-> x.si, sh |-> x.sh, srv |-> x.srv, srvh |-> x.srvh, cli |-> p, clih |-> Host(s, p),
   cmd |-> x.args, prev |-> x.prev, next |-> x.next, sub |-> x.sub, rtr |-> x.rtr,
   tags |-> TRUE, base |-> TRUE, extra |-> TRUE, cwd |-> TRUE, outs |-> TRUE]
Changes(i, r) ==   \* what writing record r to row i changes
  [id |-> i, f |-> [f \in {g \in DOMAIN r : r[g] # s.tasks[i][g]} |-> r[f]]]

\* several events which the code performs as one step
RECURSIVE Run(_, _, _)
Run(z, b, E) == IF E = <<>> THEN [z |-> z, b |-> b]
                ELSE Run(Effect(z, Head(E)), b \cup BadStep(z, Head(E)), Tail(E))
Emit(E, extra) == LET r == Run(s, bad, E) IN s' = r.z /\ bad' = r.b \cup extra
Do(e) == Emit(<<e>>, {})
Silent == UNCHANGED <<s, bad>>

S == Srv(m.gen)
Running0 == m.main \notin {"off", "ended"}

---------------------------------------------------------------------------
(* Initial state *)

Server0(g) ==
  [sub |-> IF g = 1 THEN "run" ELSE "none", subDone |-> g > 1, main |-> "sub",
   sch |-> [pc |-> IF Cfg.inmem THEN "done" ELSE "start", todo |-> <<>>, startup |-> g = 1, sd |-> FALSE],
   rec |-> [pc |-> "get", todo |-> <<>>], con |-> [pc |-> "get", todo |-> <<>>],
   hb |-> [pc |-> "next", beats |-> {}, told |-> {}, evicted |-> {}, startup |-> TRUE, done |-> FALSE, who |-> "", fin |-> FALSE]]

M0 == Server0(1) @@ [gen |-> 1, pos |-> 0, nid |-> 1, cl |-> [p \in AllClients |-> [pc |-> "off", out |-> <<>>]],
                     ccrash |-> 0, evict |-> 0, cancel |-> 0, usr |-> 0, cusr |-> 0]

Init == /\ s = Run(InitState, {}, <<Ev("cfg", "") @@ [slack |-> 1000000, qs |-> Cfg.qs, hosts |-> TRUE, expect |-> "done"], ServerEv(1)>>).z
        /\ m = M0
        /\ bad = {}

---------------------------------------------------------------------------
(* Submission *)

Have == LET b == s.subm[S] IN Len(b.items) - b.n
SubRead ==
  /\ m.sub = "run" /\ m.pos < Cfg.items /\ s.usr = 0
  /\ Do([e |-> "src", t |-> m.pos + 1, p |-> S, i |-> m.pos + 1, args |-> Text[m.pos + 1]])
  /\ m' = [m EXCEPT !.pos = @ + 1]
SubFlush ==   \* the bundle size is reached, or the bundle wait is over, or the source has ended
  /\ m.sub \in {"run", "last"} /\ Have > 0
  /\ LET k == Min2(Have, Cfg.subBS)
         b == s.subm[S]
         new == [j \in 1 .. k |-> Row(m.nid + j - 1, b.items[b.n + j].args, S, 1, 0, IF Cfg.inmem THEN T ELSE -1)]
     IN IF Cfg.inmem
        THEN /\ Len(s.sq) < s.qs
             /\ Do(Ev("sq_put", S) @@ [none |-> FALSE, items |-> new])
             /\ m' = [m EXCEPT !.nid = @ + k]
        ELSE /\ Do([NoDb(S) EXCEPT !.ins = new])
             /\ m' = [m EXCEPT !.nid = @ + k]
SubEnd ==
  /\ m.sub = "run" /\ (m.pos = Cfg.items \/ s.usr # 0)
  /\ Do(Ev("src_end", S))
  /\ m' = [m EXCEPT !.sub = "last"]
SubStop ==
  /\ m.sub = "last" /\ Have = 0
  /\ Silent /\ m' = [m EXCEPT !.sub = "done"]

---------------------------------------------------------------------------
(* Scheduling *)

Sorted(I, K(_)) ==   \* identifiers in order of K, then of identifier
  LET RECURSIVE F(_)
      F(Q) == IF Q = {} THEN <<>> ELSE
              LET i == CHOOSE x \in Q : \A y \in Q : K(x) < K(y) \/ (K(x) = K(y) /\ x <= y) IN <<i>> \o F(Q \ {i})
  IN F(I)
First(q, k) == SubSeq(q, 1, Min2(k, Len(q)))
NewTasks(k) == LET K(i) == s.tasks[i].sub IN First(Sorted({i \in DOMAIN s.tasks : Unsched(s.tasks[i])}, K), k)
FailedTasks(k) == LET K(i) == s.tasks[i].ct IN First(Sorted({i \in DOMAIN s.tasks : Owed(s, s.tasks[i])}, K), k)
Selection ==
  LET bs == Cfg.bs
      f == FailedTasks(bs)
      n == NewTasks(bs)
  IN IF Cfg.eager THEN [f |-> f, n |-> First(n, bs - Len(f))]
     ELSE [f |-> First(f, bs - Len(n)), n |-> n]
Remaining == {i \in DOMAIN s.tasks : ~Final(s.tasks[i])}
Interrupted == {i \in Remaining : s.tasks[i].sch # -1}
Cleared(i) == [id |-> i, f |-> [f \in {g \in RunFields \cup SchedFields : s.tasks[i][g] # Row(i, "", S, 1, 0, -1)[g]} |-> Row(i, "", S, 1, 0, -1)[f]]]
Revert(I) == LET K(i) == i IN [NoDb(S) EXCEPT !.upd = [k \in DOMAIN Sorted(I, K) |-> Cleared(Sorted(I, K)[k])]]
Sch(pc) == [m EXCEPT !.sch.pc = pc]

SchStart ==
  /\ m.sch.pc = "start"
  /\ IF Interrupted # {} /\ ~Mutant("no-recovery") THEN Do(Revert(Interrupted)) ELSE Silent
  /\ m' = Sch("load")

\* What is selected is read first and written afterwards; in between users can cancel tasks (or not, if Cfg.cancel = 0).
SchSelect ==
  /\ m.sch.pc = "load" /\ Cfg.cancel > 0 /\ s.usr = 0
  /\ Selection.f # <<>> \/ Selection.n # <<>>
  /\ Silent /\ m' = [m EXCEPT !.sch.pc = "write", !.sch.todo = <<Selection>>]
Schedule(sel) ==
  LET n == Len(sel.f)
      new == SelectSeq(sel.n, LAMBDA i : Unsched(s.tasks[i]) \/ Mutant("blind-schedule"))
      ids == [k \in 1 .. n |-> m.nid + k - 1] \o new
      retry(k) == Row(m.nid + k - 1, s.tasks[sel.f[k]].args, S, s.tasks[sel.f[k]].att + 1, sel.f[k], T)
      mark == [k \in 1 .. n |-> [id |-> sel.f[k], f |-> [rtr |-> TRUE, next |-> m.nid + k - 1]]]
      sched == [k \in DOMAIN new |-> [id |-> new[k], f |-> [sch |-> T, srv |-> S, srvh |-> Host(s, S)]]]
      e == [NoDb(S) EXCEPT !.ins = [k \in 1 .. n |-> retry(k)], !.upd = mark \o sched]
  IN IF ids = <<>> THEN Silent /\ m' = [m EXCEPT !.sch.pc = "load", !.sch.todo = <<>>]
     ELSE /\ IF Mutant("retry-two-commits") /\ n > 0   \* new attempts first, the marks after the bundle is posted
             THEN Do([e EXCEPT !.upd = sched]) ELSE Do(e)
          /\ m' = [m EXCEPT !.sch.pc = "post", !.sch.todo = ids, !.sch.startup = FALSE, !.nid = @ + n]
SchLoad ==
  \/ /\ m.sch.pc = "load" /\ s.usr # 0 /\ Silent /\ m' = Sch("done")
  \/ /\ m.sch.pc = "load" /\ s.usr = 0
     /\ IF Selection.f # <<>> \/ Selection.n # <<>>
        THEN Cfg.cancel = 0 /\ Schedule(Selection)
        ELSE /\ ~Cfg.forever /\ (m.subDone \/ Mutant("ignore-submit"))
             /\ Silent /\ m' = Sch("count")
  \/ m.sch.pc = "write" /\ Schedule(m.sch.todo[1])

SchCount ==
  /\ m.sch.pc = "count"
  /\ LET finished == DOMAIN s.tasks # {} /\ Remaining = {} /\ ~m.sch.startup
     IN IF finished THEN m' = Sch(IF Mutant("no-failed-check") THEN "done" ELSE "failed")
        ELSE (s.usr # 0 \/ NewTasks(1) # <<>> \/ FailedTasks(1) # <<>>) /\ m' = Sch("load")
  /\ Silent

SchFailed ==
  /\ m.sch.pc = "failed"
  /\ Silent
  /\ m' = Sch(IF FailedTasks(1) # <<>> THEN "load" ELSE "done")

SchPost ==
  /\ m.sch.pc = "post"
  /\ IF Len(s.sq) < s.qs
     THEN /\ Do(Ev("sq_put", S) @@ [none |-> FALSE, items |-> [k \in DOMAIN m.sch.todo |-> s.tasks[m.sch.todo[k]]]])
          /\ m' = [m EXCEPT !.sch.pc = "load", !.sch.todo = <<>>]
     ELSE /\ s.usr # 0
          /\ Do(Revert(Range(m.sch.todo)))
          /\ m' = [m EXCEPT !.sch.pc = "done", !.sch.todo = <<>>]

---------------------------------------------------------------------------
(* Results and confirmations *)

RecGet ==
  /\ m.rec.pc = "get" /\ s.dq # <<>>
  /\ LET h == Head(s.dq) IN
     /\ Do(Ev("dq_get", S) @@ [none |-> h.none, items |-> h.items])
     /\ m' = [m EXCEPT !.rec = IF h.none THEN [pc |-> "done", todo |-> <<>>] ELSE [pc |-> "upd", todo |-> h.items]]
RecUpd ==
  /\ m.rec.pc = "upd"
  /\ LET it == m.rec.todo
         all == IF Mutant("overwrite-lineage") THEN [k \in DOMAIN it |-> Changes(it[k].id, it[k])]
                ELSE [k \in DOMAIN it |-> Changes(it[k].id, [f \in (CoreFields \cup RunFields) \ {"rtr", "prev", "next", "tag"} |-> it[k][f]])]
         upd == SelectSeq(all, LAMBDA u : DOMAIN u.f # {})
         failed == SelectSeq(it, LAMBDA r : r.ex # 0)
         out == IF Cfg.redirect THEN [k \in DOMAIN failed |-> Ev("fail_out", S) @@ [line |-> failed[k].args]] ELSE <<>>
     IN Emit((IF Cfg.inmem \/ upd = <<>> THEN <<>> ELSE <<[NoDb(S) EXCEPT !.upd = upd]>>) \o out, {})
  /\ m' = [m EXCEPT !.rec = [pc |-> "get", todo |-> <<>>]]

ConGet ==
  /\ m.con.pc = "get" /\ s.cq # <<>> /\ ~Cfg.noconfirm
  /\ LET h == Head(s.cq) IN
     /\ Do(Ev("cq_get", S) @@ [none |-> h.none, c |-> h.c, h |-> h.h, ids |-> h.ids])
     /\ m' = [m EXCEPT !.con = IF h.none THEN [pc |-> "done", todo |-> <<>>] ELSE [pc |-> "upd", todo |-> <<h>>]]
ConUpd ==
  /\ m.con.pc = "upd"
  /\ LET h == m.con.todo[1]
         all == [k \in DOMAIN h.ids |-> Changes(h.ids[k], [cli |-> h.c, clih |-> h.h])]
         upd == SelectSeq(all, LAMBDA u : DOMAIN u.f # {})
     IN IF Cfg.inmem \/ upd = <<>> THEN Silent ELSE Do([NoDb(S) EXCEPT !.upd = upd])
  /\ m' = [m EXCEPT !.con = [pc |-> "get", todo |-> <<>>]]

---------------------------------------------------------------------------
(* Heart monitor *)

HbGet ==
  /\ m.hb.pc = "next" /\ s.hq # <<>>
  /\ LET h == Head(s.hq) IN
     /\ Do(Ev("hb_get", S) @@ [none |-> FALSE, c |-> h.c, h |-> Host(s, h.c), at |-> h.at, fin |-> h.fin])
     /\ m' = [m EXCEPT !.hb.pc = "upd", !.hb.who = h.c, !.hb.fin = h.fin, !.hb.startup = FALSE]
\* whoever leaves without having been told may have taken the request of another one, which is told again
Retold(c) ==
  LET others == (m.hb.told \cap m.hb.beats) \ {c}
  IN IF c \notin m.hb.told /\ others # {} /\ ~Mutant("no-retell") THEN {m.hb.told \ {x} : x \in others} ELSE {m.hb.told}
HbUpd ==
  /\ m.hb.pc = "upd"
  /\ LET c == m.hb.who
         known == c \in m.hb.beats
         again == [id |-> c, f |-> [dis |-> -1, ev |-> FALSE]]
         row == [id |-> c, host |-> Host(s, c), srv |-> S, con |-> T, dis |-> -1, ev |-> FALSE]
     IN /\ IF Cfg.inmem \/ known = ~m.hb.fin THEN Silent
           ELSE IF m.hb.fin THEN Do([NoDb(S) EXCEPT !.cupd = <<[id |-> c, f |-> [dis |-> T]]>>])
           ELSE IF c \in DOMAIN s.reg THEN Do([NoDb(S) EXCEPT !.cupd = <<again>>])
           ELSE Do([NoDb(S) EXCEPT !.cins = <<row>>])
        /\ \E told \in IF m.hb.fin THEN Retold(c) ELSE {m.hb.told} :
             m' = [m EXCEPT !.hb.pc = "switch", !.hb.who = "", !.hb.fin = FALSE, !.hb.told = told,
                            !.hb.beats = IF m.hb.fin THEN @ \ {c} ELSE @ \cup {c}]
Untold == m.hb.beats \ m.hb.told
Hb(pc) == [m EXCEPT !.hb.pc = pc]
Orphaned(c) == {i \in Interrupted : s.tasks[i].cli = c}
Silenced(c) == m.cl[c].pc = "dead"      \* sends no more heartbeats
Evictable == {c \in m.hb.beats : Silenced(c) \/ (m.evict < Cfg.evict /\ m.cl[c].pc # "bye")}
Late0 == {c \in m.hb.evicted \ m.hb.beats : Orphaned(c) # {}}
HbPoll ==   \* no heartbeat for a while (is a step only if something is to be done)
  /\ m.hb.pc = "next" /\ s.hq = <<>> /\ ~m.hb.startup
  /\ \/ m.hb.done /\ m.hb.beats = {}
     \/ Evictable # {} \/ (Late0 # {} /\ ~Mutant("no-late-revert"))
     \/ m.hb.done /\ Untold # {} /\ Len(s.sq) < s.qs
  /\ Silent /\ m' = Hb("switch")
HbSwitch ==
  /\ m.hb.pc = "switch"
  /\ Silent
  /\ IF m.hb.beats = {} /\ m.hb.done THEN m' = Hb("done")
     ELSE \/ m.hb.done /\ Untold # {} /\ (Mutant("signal-once") => m.hb.told = {}) /\ m' = Hb("signal")
          \/ ~(m.hb.done /\ Untold # {}) /\ m' = Hb("next")
HbSignal ==   \* one request for each connected client not told before, while there is room
  /\ m.hb.pc = "signal"
  /\ IF Untold # {} /\ Len(s.sq) < s.qs
     THEN /\ \E c \in Untold : m' = [m EXCEPT !.hb.told = @ \cup {c}]
          /\ Do(Ev("sq_put", S) @@ [none |-> TRUE, items |-> <<>>])
     ELSE Silent /\ m' = Hb("next")
HbEvict ==   \* a client which is dead, or which is late in sending its heartbeat
  /\ m.hb.pc = "switch" /\ ~(m.hb.beats = {} /\ m.hb.done)
  /\ \E c \in Evictable :
       /\ \E told \in Retold(c) : m' = [m EXCEPT !.hb.pc = "evict", !.hb.who = c, !.hb.told = told, !.hb.beats = @ \ {c}, !.evict = IF Silenced(c) THEN @ ELSE @ + 1]
       /\ IF Cfg.inmem THEN Silent ELSE Do([NoDb(S) EXCEPT !.cupd = <<[id |-> c, f |-> [dis |-> T, ev |-> TRUE]]>>])
HbRevert ==
  /\ m.hb.pc = "evict"
  /\ LET I == IF Mutant("revert-finished") THEN {i \in DOMAIN s.tasks : s.tasks[i].cli = m.hb.who} ELSE Orphaned(m.hb.who)
     IN IF Cfg.inmem \/ Cfg.noconfirm \/ I = {} THEN Silent ELSE Do(Revert(I))
  /\ m' = [m EXCEPT !.hb.pc = "switch", !.hb.who = "", !.hb.evicted = IF Cfg.inmem \/ Cfg.noconfirm THEN @ ELSE @ \cup {m.hb.who}]
HbLate ==    \* confirmed only after the eviction
  /\ m.hb.pc = "switch" /\ ~Mutant("no-late-revert")
  /\ \E c \in Late0 : Do(Revert(Orphaned(c)))
  /\ UNCHANGED m

---------------------------------------------------------------------------
(* The main thread of the server waits for its threads one after the other *)

Main(pc) == [m EXCEPT !.main = pc]
MainSub == m.main = "sub" /\ m.sub \in {"done", "none"} /\ Silent /\ m' = [Main("sched") EXCEPT !.subDone = TRUE, !.sch.startup = @ /\ (m.sub = "none" \/ Mutant("startup"))]
MainSched == /\ m.main = "sched" /\ m.sch.pc = "done"
             /\ Silent /\ m' = [Main("hb") EXCEPT !.hb.done = TRUE]
MainHb == /\ m.main = "hb" /\ m.hb.pc = "done" /\ Len(s.dq) < s.qs
          /\ Do(Ev("dq_put", S) @@ [none |-> TRUE, items |-> <<>>]) /\ m' = Main("rec")
MainRec == /\ m.main = "rec" /\ m.rec.pc = "done"
           /\ IF Cfg.noconfirm THEN Silent ELSE Do(Ev("cq_put", S) @@ [none |-> TRUE, c |-> "", h |-> "", ids |-> <<>>])
           /\ m' = Main("con")
MainEnd == /\ m.main = "con" /\ (Cfg.noconfirm \/ m.con.pc = "done")
           /\ \A p \in Cls(m.gen) : m.cl[p].pc # "bye"
           /\ Emit(<<Ev("proc_end", S) @@ [ok |-> TRUE, why |-> ""], Ev("end", "") @@ [outcome |-> "done"]>>, {})
           /\ m' = [Main("ended") EXCEPT !.cl = [p \in AllClients |-> [pc |-> "gone", out |-> <<>>]]]

---------------------------------------------------------------------------
(* Clients *)

Up1(p) == m.cl[p].pc \notin {"off", "dead", "gone"}
Cl(p) == s.cl[p]
Pc(p, pc) == [m EXCEPT !.cl[p].pc = pc]
Beat(p, f) == Ev("hb_put", p) @@ [none |-> FALSE, c |-> p, h |-> Host(s, p), at |-> T, fin |-> f]
Left(p) == {k \in DOMAIN Cl(p).rcv : Cl(p).rcv[k].st # "ret"}

CStart(p) ==
  /\ m.cl[p].pc = "off" /\ p \in Cls(m.gen) /\ Running0
  /\ Emit(<<ClientEv(p), Ev("cl_start", p)>>, {}) /\ m' = Pc(p, IF Mutant("late-register") THEN "get" ELSE "reg")
CReg(p) ==
  /\ m.cl[p].pc = "reg"
  /\ Do(Beat(p, FALSE)) /\ m' = Pc(p, "get")
CBeat(p) ==   \* a heartbeat makes a difference only for a client which was evicted
  /\ Up1(p) /\ m.cl[p].pc # "bye" /\ p \notin m.hb.beats /\ p \in m.hb.evicted \cup (IF Cfg.noconfirm THEN DOMAIN s.reg ELSE {})
  /\ \A k \in DOMAIN s.hq : s.hq[k].c # p
  /\ m.hb.who # p
  /\ Do(Beat(p, FALSE)) /\ UNCHANGED m
CGet(p) ==
  /\ m.cl[p].pc = "get" /\ s.sq # <<>> /\ Cardinality(Entries(Cl(p), "q")) <= Cfg.cBS
  /\ LET h == Head(s.sq) IN
     /\ Do(Ev("sq_get", p) @@ [none |-> h.none, items |-> h.items])
     /\ m' = Pc(p, IF h.none THEN "drain" ELSE IF Cfg.noconfirm \/ Cfg.inmem THEN "get" ELSE "conf")
CConf(p) ==
  /\ m.cl[p].pc = "conf"
  /\ Do(Ev("cq_put", p) @@ [none |-> FALSE, c |-> p, h |-> Host(s, p), ids |-> Cl(p).conf])
  /\ m' = Pc(p, "get")
CLeave(p) ==   \* idle timeout, or interrupted by the user
  /\ m.cl[p].pc = "get"
  /\ (Cfg.ctimeout >= 0 /\ s.sq = <<>> /\ Left(p) = {} /\ \E q \in Cls(m.gen) \ {p} : m.cl[q].pc \in {"off", "reg", "get"}) \/ Cl(p).usr # 0
  /\ Silent /\ m' = Pc(p, "drain")
CExec(p) ==
  /\ Up1(p) /\ Entries(Cl(p), "q") # {} /\ Cardinality(Entries(Cl(p), "run")) < Cfg.n
  /\ (m.cl[p].pc = "conf" => Mutant("run-before-confirm")
        \/ \E k \in Entries(Cl(p), "q") : Cl(p).rcv[k].id \notin Range(Cl(p).conf))
  /\ LET k == MinOf(Entries(Cl(p), "q"))
         x == Cl(p).rcv[k].m
     IN Do(Ev("start", p) @@ [id |-> x.id, cmd |-> x.args, shell |-> TRUE, args |-> x.args, att |-> x.att, cwd |-> TRUE, env |-> EnvOf(x, p)])
  /\ UNCHANGED m
CExit(p) ==
  /\ Up1(p)
  /\ \E k \in Entries(Cl(p), "run") : \E code \in IF Cl(p).rcv[k].m.att <= Cfg.fails THEN {0, 1} ELSE {0} :
       /\ Do(Ev("exit", p) @@ [id |-> Cl(p).rcv[k].id, code |-> code, at |-> T])
       /\ m' = [m EXCEPT !.cl[p].out = Append(@, Cl(p).rcv[k].id)]
Result(p, i) ==
  LET k == FirstEntry(Cl(p), i, "fin")
      r == Cl(p).rcv[k]
  IN [r.m EXCEPT !.cli = p, !.clih = Host(s, p), !.cmd = r.cmd, !.st = T, !.ct = T, !.ex = r.code, !.wt = 0, !.du = 0]
CSend(p) ==   \* any number of results up to the bundle size: the bundle wait may be over at any moment
  /\ Up1(p) /\ m.cl[p].out # <<>> /\ Len(s.dq) < s.qs
  /\ ~(m.cl[p].pc = "drain" /\ Mutant("no-drain") /\ Len(m.cl[p].out) < Cfg.cBS)
  /\ \E k \in 1 .. Min2(Cfg.cBS, Len(m.cl[p].out)) :
       /\ Do(Ev("dq_put", p) @@ [none |-> FALSE, items |-> [j \in 1 .. k |-> Result(p, m.cl[p].out[j])]])
       /\ m' = [m EXCEPT !.cl[p].out = SubSeq(@, k + 1, Len(@))]
CFinal(p) ==
  /\ m.cl[p].pc = "drain"
  /\ Left(p) = {} \/ (Mutant("no-drain") /\ Entries(Cl(p), "q") = {} /\ Entries(Cl(p), "run") = {} /\ Len(m.cl[p].out) < Cfg.cBS)
  /\ Do(Beat(p, TRUE)) /\ m' = Pc(p, "bye")
CBye(p) ==
  /\ m.cl[p].pc = "bye"
  /\ Do(Ev("proc_end", p) @@ [ok |-> TRUE, why |-> ""]) /\ m' = Pc(p, "gone")

---------------------------------------------------------------------------
(* Faults and users *)

ClientDies(p) ==
  /\ Up1(p) /\ m.ccrash < Cfg.ccrash
  /\ \E q \in Cls(m.gen) \ {p} : m.cl[q].pc \in {"off", "reg", "get", "conf"}   \* somebody remains to do the work
  /\ Cfg.lossy \/ Cl(p).conf = <<>>
  /\ Do(Ev("kill", p)) /\ m' = [Pc(p, "dead") EXCEPT !.ccrash = @ + 1]
ServerDies ==
  /\ Running0 /\ m.gen < Len(Cfg.clients) /\ DOMAIN s.tasks # {}   \* (a server waits for the first task)
  /\ Emit(<<Ev("kill", S), ServerEv(m.gen + 1)>>, {})
  /\ m' = [f \in DOMAIN m |->
            CASE f = "gen" -> m.gen + 1
              [] f = "cl" -> [p \in AllClients |-> IF p \in Cls(m.gen) THEN [pc |-> "gone", out |-> <<>>] ELSE m.cl[p]]
              [] f \in DOMAIN Server0(1) -> Server0(m.gen + 1)[f]
              [] OTHER -> m[f]]
UserCancel ==
  /\ Running0 /\ m.cancel < Cfg.cancel
  /\ \E i \in {j \in DOMAIN s.tasks : Unsched(s.tasks[j])} :
       Do([NoDb("U") EXCEPT !.user = TRUE, !.upd = <<[id |-> i, f |-> [sch |-> T, ex |-> -1]]>>])
  /\ m' = [m EXCEPT !.cancel = @ + 1]
UserSignal ==
  /\ Running0 /\ m.main \in {"sub", "sched"} /\ m.usr < Cfg.usr /\ s.usr = 0
  /\ Do(Ev("usr", S) @@ [sig |-> 10])
  /\ m' = [m EXCEPT !.usr = @ + 1]
ClientSignal(p) ==
  /\ Up1(p) /\ m.cusr < Cfg.cusr /\ Cl(p).usr = 0
  /\ \E q \in Cls(m.gen) \ {p} : m.cl[q].pc \in {"off", "reg", "get"}
  /\ Do(Ev("usr", p) @@ [sig |-> 10])
  /\ m' = [m EXCEPT !.cusr = @ + 1]

---------------------------------------------------------------------------

ServerNext ==
  \/ SubRead \/ SubFlush \/ SubEnd \/ SubStop
  \/ SchStart \/ SchSelect \/ SchLoad \/ SchCount \/ SchFailed \/ SchPost
  \/ RecGet \/ RecUpd \/ ConGet \/ ConUpd
  \/ HbGet \/ HbUpd \/ HbPoll \/ HbSwitch \/ HbSignal \/ HbEvict \/ HbRevert \/ HbLate
  \/ MainSub \/ MainSched \/ MainHb \/ MainRec \/ MainEnd
ClientNext(p) == \/ CStart(p) \/ CReg(p) \/ CBeat(p) \/ CGet(p) \/ CConf(p) \/ CLeave(p) \/ CExec(p) \/ CExit(p)
                 \/ CSend(p) \/ CFinal(p) \/ CBye(p) \/ ClientDies(p) \/ ClientSignal(p)
Next == \/ ServerNext
        \/ \E p \in AllClients : ClientNext(p)
        \/ ServerDies \/ UserCancel \/ UserSignal
        \/ (m.main = "ended" /\ UNCHANGED vars)
        \* what a client took without confirming dies with it: the server waits for ever
        \/ (Cfg.lossy /\ s.lost # {} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

---------------------------------------------------------------------------
(* Properties *)

NoBad == bad = {}
Termination == <>(m.main = "ended")

\* C05: lineage is a set of chains with increasing attempt numbers
Lineage == \A i \in DOMAIN s.tasks :
             LET r == s.tasks[i] IN
               /\ r.prev # 0 => /\ s.tasks[r.prev].rtr /\ s.tasks[r.prev].next = i
                                /\ r.att = s.tasks[r.prev].att + 1 /\ r.args = s.tasks[r.prev].args
               /\ r.rtr <=> r.next # 0
               /\ r.next # 0 => s.tasks[r.next].prev = i
               /\ r.att <= Cfg.attempts
\* C04, C08: a recorded result never changes again unless the task was run more than once because its client was evicted
Recorded == [][\A i \in DOMAIN s.tasks : s.tasks[i].ct # -1 /\ i \in DOMAIN s'.tasks /\ ~s.ex[i].dup
                   => s'.tasks[i].ct # -1 /\ s'.tasks[i].ex = s.tasks[i].ex]_s
\* C20: a cancelled task stays cancelled
StaysCancelled == [][\A i \in DOMAIN s.tasks : Cancelled(s.tasks[i]) => Cancelled(s'.tasks[i])]_s
\* C11, C16: without faults each attempt is run exactly once by the end
Runs(i) == Cardinality({x \in (DOMAIN s.cl) \X (1 .. 8) : x[2] \in DOMAIN s.cl[x[1]].rcv /\ s.cl[x[1]].rcv[x[2]].id = i})
AtEnd == m.main = "ended" =>
  /\ s.usr = 0 /\ ~s.cut => \A i \in DOMAIN s.tasks : Final(s.tasks[i]) /\ (~Owed([s EXCEPT !.so = [attempts |-> Cfg.attempts]], s.tasks[i]) \/ s.ex[i].dup)
  /\ (m.gen = 1 /\ m.ccrash = 0 /\ m.evict = 0 /\ s.usr = 0 /\ ~s.cut) =>
        \A i \in (IF Cfg.inmem THEN 1 .. Cfg.items ELSE DOMAIN s.tasks) :
           IF i \in DOMAIN s.tasks /\ Cancelled(s.tasks[i]) THEN Runs(i) = 0 ELSE Runs(i) = 1
\* C06: what the two modes prefer
Preference ==
  LET sel == Selection IN
    m.sch.pc = "load" => /\ Len(sel.f) + Len(sel.n) <= Cfg.bs
                         /\ Cfg.eager /\ sel.n # <<>> => Len(sel.f) = Len(FailedTasks(1000))
                         /\ ~Cfg.eager /\ sel.f # <<>> => Len(sel.n) = Len(NewTasks(1000))
=============================================================================
