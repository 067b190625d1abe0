------------------------------- MODULE HSWalk -------------------------------
(***************************************************************************)
(* Behaviours of HSModel as schedules for the implementation: `hist` is    *)
(* the list of steps taken; whenever the server has returned it is printed *)
(* as JSON.  The harness replays it: it lets the threads of the real       *)
(* server and clients perform their operations in this order, with the     *)
(* same faults in between.                                                 *)
(***************************************************************************)
EXTENDS MCBasic
VARIABLE hist

\* what else is to be known about a step: which task, which outcome
Which(name, p) ==
  CASE name = "CExit" ->
         LET k == CHOOSE k \in DOMAIN s.cl[p].rcv : s.cl[p].rcv[k].st = "run" /\ s'.cl[p].rcv[k].st # "run"
             x == s'.cl[p].rcv[k]
         IN <<x.m.args, x.m.att, x.code>>
    [] name = "UserCancel" ->
         <<s.tasks[CHOOSE i \in DOMAIN s.tasks : Cancelled(s'.tasks[i]) /\ ~Cancelled(s.tasks[i])].args>>
    [] name = "HbEvict" -> <<m'.hb.who>>
    [] OTHER -> <<>>
\* where all threads are
Where == <<m.sub, m.main, m.sch.pc, m.rec.pc, m.con.pc, m.hb.pc, [p \in AllClients |-> m.cl[p].pc],
           Len(s.sq), Len(s.dq), Len(s.cq), Len(s.hq)>>
H(name, p) == hist' = Append(hist, [a |-> name, p |-> p, x |-> Which(name, p), v |-> s' # s, w |-> Where])
St(name) == H(name, "")

NextH ==
  \/ (SubRead /\ St("SubRead")) \/ (SubFlush /\ St("SubFlush")) \/ (SubEnd /\ St("SubEnd")) \/ (SubStop /\ St("SubStop"))
  \/ (SchStart /\ St("SchStart")) \/ (SchSelect /\ St("SchSelect")) \/ (SchLoad /\ St("SchLoad")) \/ (SchCount /\ St("SchCount")) \/ (SchFailed /\ St("SchFailed"))
  \/ (SchPost /\ St("SchPost"))
  \/ (RecGet /\ St("RecGet")) \/ (RecUpd /\ St("RecUpd")) \/ (ConGet /\ St("ConGet")) \/ (ConUpd /\ St("ConUpd"))
  \/ (HbGet /\ St("HbGet")) \/ (HbUpd /\ St("HbUpd")) \/ (HbPoll /\ St("HbPoll")) \/ (HbSwitch /\ St("HbSwitch"))
  \/ (HbSignal /\ St("HbSignal")) \/ (HbEvict /\ St("HbEvict")) \/ (HbRevert /\ St("HbRevert")) \/ (HbLate /\ St("HbLate"))
  \/ (MainSub /\ St("MainSub")) \/ (MainSched /\ St("MainSched")) \/ (MainHb /\ St("MainHb")) \/ (MainRec /\ St("MainRec"))
  \/ (MainEnd /\ St("MainEnd") /\ PrintT(<<"WALK", ToJson(hist')>>))
  \/ \E p \in AllClients :
       \/ (CStart(p) /\ H("CStart", p)) \/ (CReg(p) /\ H("CReg", p)) \/ (CBeat(p) /\ H("CBeat", p)) \/ (CGet(p) /\ H("CGet", p))
       \/ (CConf(p) /\ H("CConf", p)) \/ (CLeave(p) /\ H("CLeave", p)) \/ (CExec(p) /\ H("CExec", p)) \/ (CExit(p) /\ H("CExit", p))
       \/ (CSend(p) /\ H("CSend", p)) \/ (CFinal(p) /\ H("CFinal", p)) \/ (CBye(p) /\ H("CBye", p))
       \/ (ClientDies(p) /\ H("ClientDies", p)) \/ (ClientSignal(p) /\ H("ClientSignal", p))
  \/ (ServerDies /\ St("ServerDies")) \/ (UserCancel /\ St("UserCancel")) \/ (UserSignal /\ St("UserSignal"))
SpecH == Init /\ hist = <<>> /\ [][NextH]_<<vars, hist>>
=============================================================================
