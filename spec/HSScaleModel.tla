---------------------------- MODULE HSScaleModel ----------------------------
(***************************************************************************)
(* The autoscaler as a state machine on a clock which ticks in seconds,    *)
(* while clients exit and the table of tasks changes.  All it does is      *)
(* judged by HSScaleRules, the rules the recorded behaviours of the real   *)
(* one are judged by.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES s, m, bad
vars == <<s, m, bad>>
H == INSTANCE HSScaleRules
Conf == JsonDeserialize(IOEnv.MODEL)
Cfg == Conf.cfg
Mutant(x) == Conf.mutant = x

\* tables of tasks
Open == [sv |-> "", cl |-> "", sch |-> -1, beg |-> -1, end |-> -1, dur |-> -1, over |-> FALSE]
Over(b, e) == [sv |-> "S", cl |-> "c", sch |-> 0, beg |-> b, end |-> e, dur |-> e - b, over |-> TRUE]
Dropped == [sv |-> "", cl |-> "", sch |-> 0, beg |-> -1, end |-> -1, dur |-> -1, over |-> TRUE]    \* cancelled
Tables == << <<>>,                                                  \* nothing to do
             <<Open>>,                                              \* nothing completed so far
             <<Over(0, 1), Open, Open, Open>>,                      \* high pressure
             <<Over(0, 2), Over(0, 2), Open>>,                      \* low pressure
             <<Over(0, 1), Open>>,                                  \* pressure of exactly one
             <<Over(0, 1), Over(0, 1)>>,                            \* all done
             <<Over(0, 1), Open, Open, Dropped>> >>
Up == <<{}, {}, {"c"}, {"c"}, {"c"}, {"c"}, {"c"}>>

Init == /\ s = H!InitState /\ bad = {}
        /\ m = [t |-> 0, pc |-> "begin", steady |-> FALSE, last |-> 0, procs |-> {}, gone |-> {}, n |-> 0, tab |-> 1, halt |-> FALSE]
Do(e) == s' = H!Effect(s, e) /\ bad' = bad \cup H!Bad(s, e)
Silent == UNCHANGED <<s, bad>>

Begin == m.pc = "begin" /\ Do([e |-> "start", t |-> 0, cfg |-> Cfg]) /\ m' = [m EXCEPT !.pc = "init"]
Launch(next) == /\ Do([e |-> "launch", t |-> m.t, n |-> m.n + 1, ok |-> TRUE])
                /\ m' = [m EXCEPT !.n = @ + 1, !.procs = @ \cup {m.n + 1}, !.pc = next]
Halted == m.halt /\ m.pc \in {"init", "wait", "check", "scale"} /\ Do([e |-> "end", t |-> m.t]) /\ m' = [m EXCEPT !.pc = "halted"]
Initial == /\ m.pc = "init" /\ ~m.halt
           /\ IF Cardinality(m.procs) < Cfg.init \/ (Mutant("one-more") /\ Cardinality(m.procs) = Cfg.init) THEN Launch("init")
              ELSE Silent /\ m' = [m EXCEPT !.pc = "wait", !.steady = TRUE]
Wait == /\ m.pc = "wait" /\ ~m.halt /\ Silent
        /\ m' = [m EXCEPT !.pc = IF m.t - m.last > Cfg.period \/ (Mutant("impatient") /\ m.t - m.last > 0) THEN "check" ELSE "sleep"]
Known == IF Mutant("no-clean") THEN m.procs ELSE m.procs \ m.gone
Remaining == H!Remaining(Tables[m.tab])
Pressure == IF Cfg.dynamic THEN H!Pressure(Cfg, Tables[m.tab], Up[m.tab]) ELSE "unknown"
Check ==
  LET k == Cardinality(Known)
      p == IF Mutant("fixed-pressure") THEN H!Pressure(Cfg, Tables[m.tab], Up[m.tab]) ELSE Pressure
      go == \/ k < (IF Mutant("above-min") THEN Cfg.min + 1 ELSE Cfg.min)
            \/ p = "high" /\ (k < Cfg.max \/ Mutant("no-max") \/ (Mutant("one-over") /\ k = Cfg.max))
            \/ p = "low" /\ Mutant("any-pressure") /\ k < Cfg.max
            \/ p = "unknown" /\ k = 0 /\ (Remaining > 0 \/ Mutant("without-tasks"))
            \/ p \in {"low", "none"} /\ k = 0 /\ p = "none" /\ Remaining > 0
  IN /\ m.pc = "check" /\ ~m.halt /\ Silent
     /\ m' = [m EXCEPT !.procs = Known, !.last = IF Mutant("same-check") THEN @ ELSE m.t, !.pc = IF go THEN "scale" ELSE "wait"]
Scale == m.pc = "scale" /\ ~m.halt /\ Launch("wait")

\* the world moves while it sleeps
Asleep == m.pc = "sleep"
Tick == Asleep /\ m.t < Conf.horizon /\ Do([e |-> "tick", t |-> m.t + 1000]) /\ m' = [m EXCEPT !.t = @ + 1000, !.pc = "wait"]
Exit == /\ Asleep /\ Cardinality(m.gone) < Conf.exits
        /\ \E n \in m.procs \ m.gone : Do([e |-> "exit", t |-> m.t, n |-> n]) /\ m' = [m EXCEPT !.gone = @ \cup {n}]
Db == /\ Asleep
      /\ \E k \in DOMAIN Tables \ {m.tab} :
           /\ k # 1
           /\ Do([e |-> "db", t |-> m.t, rows |-> Tables[k], up |-> IF Up[k] = {} THEN <<>> ELSE <<"c">>])
           /\ m' = [m EXCEPT !.tab = k]
Halt == Asleep /\ ~m.halt /\ Conf.halt /\ Do([e |-> "halt", t |-> m.t]) /\ m' = [m EXCEPT !.halt = TRUE]
Rest == (m.pc = "halted" \/ (Asleep /\ m.t >= Conf.horizon)) /\ UNCHANGED vars
Next == Begin \/ Halted \/ Initial \/ Wait \/ Check \/ Scale \/ Tick \/ Exit \/ Db \/ Halt \/ Rest
Spec == Init /\ [][Next]_vars

NoBad == bad = {}
Most(S) == CHOOSE x \in S : \A y \in S : x >= y
Alive == m.procs \ m.gone
Bounded == Cardinality(Alive) <= Most({Cfg.init, Cfg.max, Cfg.min})
\* below the minimum only for one period
Restored == (m.pc = "sleep" /\ s.since >= 0) => m.t - Most({s.since, s.last}) <= Cfg.period + 2000
=============================================================================
