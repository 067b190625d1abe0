------------------------------ MODULE HSQueues ------------------------------
(***************************************************************************)
(* The queues between a server and its clients.                            *)
(*                                                                         *)
(* Each of the four queues is a bounded or unbounded fifo which processes   *)
(* use at the same time.  What is put by clients passes through the buffer  *)
(* of the process which manages the queues, what the server itself puts      *)
(* through a buffer of its own; from there it moves on into the pipe which  *)
(* everyone takes from.  Operations begin and end; somewhere in between     *)
(* they take effect.  The judge keeps every configuration which explains    *)
(* what was seen so far: when none is left the queues did something else.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}

Queues == {"scheduled", "completed", "heartbeat", "confirmed"}
Procs == {"server", "c0", "c1", "c2"}
Bounded == {"scheduled", "completed"}

\* own: buffer of the server; via: buffer of the manager; pipe; n: places taken; r: effects of the operations under way
NoEffect == [p \in Procs |-> "-"]
Fresh == [own |-> <<>>, via |-> <<>>, pipe |-> <<>>, n |-> 0, r |-> NoEffect]
Idle == [op |-> "-", v |-> "-"]
InitState == [size |-> 1, pend |-> [q \in Queues |-> [p \in Procs |-> Idle]], may |-> [q \in Queues |-> {Fresh}], lost |-> FALSE]

Limit(st, q) == IF q \in Bounded THEN st.size ELSE 0

(***************************************************************************)
(* What may happen next in a configuration c of queue q.                    *)
(***************************************************************************)
PutBy(st, q, p, c) ==
  LET k == Limit(st, q) IN
  IF k > 0 /\ c.n >= k THEN {[c EXCEPT !.r[p] = "full"]}
  ELSE LET v == st.pend[q][p].v
           d == [c EXCEPT !.n = @ + 1, !.r[p] = "ok"]
       IN {IF p = "server" THEN [d EXCEPT !.own = Append(@, v)] ELSE [d EXCEPT !.via = Append(@, v)]}
OtherGets(st, q, p) == \E o \in Procs \ {p} : st.pend[q][o].op = "get"
GetBy(st, q, p, c) ==
  (IF c.pipe # <<>> THEN {[c EXCEPT !.pipe = Tail(@), !.n = @ - 1, !.r[p] = Head(c.pipe)]} ELSE {})
  \cup (IF c.n = 0 \/ OtherGets(st, q, p) THEN {[c EXCEPT !.r[p] = "empty"]} ELSE {})
Flush(c) ==
  (IF c.own # <<>> THEN {[c EXCEPT !.own = Tail(@), !.pipe = Append(@, Head(c.own))]} ELSE {})
  \cup (IF c.via # <<>> THEN {[c EXCEPT !.via = Tail(@), !.pipe = Append(@, Head(c.via))]} ELSE {})
Next1(st, q, c) ==
  Flush(c) \cup UNION {CASE st.pend[q][p].op = "put" -> PutBy(st, q, p, c)
                         [] st.pend[q][p].op = "get" -> GetBy(st, q, p, c)
                         [] OTHER -> {} : p \in {x \in Procs : c.r[x] = "-"}}
RECURSIVE Closure(_, _, _, _)
Closure(st, q, all, new) ==
  IF new = {} THEN all
  ELSE LET next == TLCEval((UNION {Next1(st, q, c) : c \in new}) \ all) IN Closure(st, q, TLCEval(all \cup next), next)
\* the ways in which the operation of p on q had the effect r
After(st, e) == LET all == Closure(st, e.q, st.may[e.q], st.may[e.q]) IN
                TLCEval({[c EXCEPT !.r[e.p] = "-"] : c \in {d \in all : d.r[e.p] = e.r}})

Bad(st, e) ==
  CASE e.e = "server" -> {}
    [] e.e = "connect" ->
        IF e.down THEN Chk("C29:still-there", e.r # "ok")
        ELSE IF e.same THEN Chk("C29:refused", e.r = "ok")
        ELSE Chk("C29:stranger", e.r # "ok")
    [] e.e = "inv" -> {}
    [] e.e = "res" ->
        Chk("C29:late", ~e.late)
        \cup Chk("C29:operation-failed", e.r # "error")
        \cup Chk("C29:content", e.r = "error" \/ e.whole)
        \cup (IF st.lost \/ e.r = "error" THEN {} ELSE
                Chk(CASE e.r = "ok" -> "C29:beyond-size" [] e.r = "full" -> "C29:refused-put" [] e.r = "empty" -> "C29:not-delivered" [] OTHER -> "C29:order",
                    After(st, e) # {}))
    [] OTHER -> {"ALL:unknown-event"}

Effect(st, e) ==
  CASE e.e = "server" -> [InitState EXCEPT !.size = e.size]
    [] e.e = "inv" -> [st EXCEPT !.pend[e.q][e.p] = [op |-> e.op, v |-> e.v]]
    [] e.e = "res" -> LET a == After(st, e) IN
                      IF st.lost \/ e.r = "error" \/ a = {} THEN [st EXCEPT !.lost = TRUE]
                      ELSE [st EXCEPT !.may[e.q] = a, !.pend[e.q][e.p] = Idle]
    [] OTHER -> st

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
