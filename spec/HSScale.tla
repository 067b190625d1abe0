------------------------------ MODULE HSScale -------------------------------
(***************************************************************************)
(* When the autoscaler may launch a client, and when it has to.            *)
(*                                                                         *)
(* A configuration is [dynamic, num, den, period, init, min, max] (the     *)
(* scaling factor is num/den, times are in milliseconds).  The table of    *)
(* tasks is a sequence of [sv, cl, sch, beg, end, dur, over]: server and   *)
(* client ("" is none), whole seconds (-1 is none), and whether a status   *)
(* is recorded; the clients which are connected are a set.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
RECURSIVE Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
RECURSIVE Pow2(_)
Pow2(x) == x > 0 /\ (x = 1 \/ (x % 2 = 0 /\ Pow2(x \div 2)))

(***************************** task pressure ********************************)
Remaining(rows) == Cardinality({i \in DOMAIN rows : rows[i].end < 0 /\ ~rows[i].over})

\* the server which has scheduled last (a cancelled task has the time when it was cancelled)
Latest(rows) == LET S == {i \in DOMAIN rows : rows[i].sch >= 0 /\ (rows[i].end >= 0 \/ ~rows[i].over)}
                IN IF S = {} THEN "" ELSE rows[CHOOSE i \in S : \A j \in S : rows[j].sch <= rows[i].sch].sv

\* tasks of that server which a connected client has completed
Done(rows, up) == {i \in DOMAIN rows : rows[i].sv = Latest(rows) /\ rows[i].end >= 0 /\ rows[i].cl \in up}
Workers(rows, up) == {rows[i].cl : i \in Done(rows, up)}
Span(rows, S) == Most({rows[i].end : i \in S}) - Least({rows[i].beg : i \in S})
By(rows, up, c) == {i \in Done(rows, up) : rows[i].cl = c}

(* estimated time to completion over (factor * average duration), compared to one:
   R / (sum of n/s) against (num/den) * (D/N) *)
Pressure(cfg, rows, up) ==
  LET W == SeqOf(Workers(rows, up))
      n == [k \in DOMAIN W |-> Cardinality(By(rows, up, W[k]))]
      s == [k \in DOMAIN W |-> Span(rows, By(rows, up, W[k]))]
      B == Product(s)
      A == Sum([k \in DOMAIN W |-> n[k] * (B \div s[k])])
      Q == SeqOf({i \in Done(rows, up) : rows[i].dur >= 0})      \* what could not be started has no duration
      N == Len(Q)
      D == Sum([k \in DOMAIN Q |-> rows[Q[k]].dur])
      R == Remaining(rows)
      left == R * B * cfg.den * N
      right == cfg.num * D * A
  IN CASE W = <<>> \/ Q = <<>> -> "unknown"
       [] R = 0 -> "none"
       \* all of them took less than a second (durations are recorded in whole seconds): high if it is even with a second each
       [] D = 0 -> IF R * B * cfg.den > cfg.num * A THEN "high" ELSE "one"
       [] left > right -> "high"
       [] left < right -> "low"
       \* exactly one: as far as floating point numbers can tell
       [] OTHER -> IF Len(W) = 1 /\ Pow2(n[1]) /\ Pow2(s[1]) /\ Pow2(cfg.num) /\ Pow2(cfg.den) /\ D % N = 0 /\ Pow2(D \div N) THEN "low" ELSE "one"

(*********************** a client is to be launched *************************)
\* "yes", "no" or "either"
Wanted(cfg, alive, rows, up) ==
  LET p == IF cfg.dynamic THEN Pressure(cfg, rows, up) ELSE "unknown"
      idle == alive = 0 /\ Remaining(rows) > 0
  IN CASE alive < cfg.min -> "yes"
       [] p = "high" -> IF alive < cfg.max THEN "yes" ELSE "no"
       [] p = "low" -> "no"
       [] p = "one" -> IF alive < cfg.max \/ idle THEN "either" ELSE "no"
       [] OTHER -> IF idle THEN "yes" ELSE "no"
=============================================================================
