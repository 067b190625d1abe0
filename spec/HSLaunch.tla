------------------------------ MODULE HSLaunch ------------------------------
(***************************************************************************)
(* What servers and clients are told when they are launched: options given *)
(* win over the configuration, which wins over the documented defaults;    *)
(* every client of a cluster is told about the server of that cluster, and *)
(* there is one client per host (or one launch, or an autoscaler).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
InitState == 0
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
Range(q) == {q[i] : i \in DOMAIN q}

\* the first one which is given
Pick(o, c, d) == IF o # <<>> THEN o[1] ELSE IF c # <<>> THEN c[1] ELSE d
Has(e, f) == f \in Range(e.flags)
Given(e, o) == e.opt[o] # <<>>

(* patterns of host names: one range of numbers each, zeros in front as in the lower number *)
RECURSIVE Zeros(_, _), Concat(_, _), Numbers(_, _, _)
Zeros(t, w) == IF Len(t) >= w THEN t ELSE Zeros("0" \o t, w)
Numbers(a, b, w) == IF a > b THEN <<>> ELSE <<Zeros(ToString(a), w)>> \o Numbers(a + 1, b, w)
Concat(f, n) == IF n = 0 THEN <<>> ELSE Concat(f, n - 1) \o f[n]
Segment(g) == IF g.one # "" THEN <<g.one>> ELSE Numbers(g.a, g.b, g.w)
Hosts(g) == IF g.segs = <<>> THEN <<g.pre \o g.post>>
            ELSE LET all == Concat([i \in DOMAIN g.segs |-> Segment(g.segs[i])], Len(g.segs))
                 IN [i \in DOMAIN all |-> g.pre \o all[i] \o g.post]
Nodes(e) == Concat([i \in DOMAIN e.groups |-> Hosts(e.groups[i])], Len(e.groups))

Cluster(e) == e.kind \notin {"server", "client", "submit"}
Auto(e) == Given(e, "A") \/ e.kind = "autoscaling"
\* combinations of options which exclude each other
Invalid(e) ==
  CASE e.api -> FALSE
    [] e.kind = "server" -> Has(e, "forever") /\ (e.file \/ Has(e, "restart"))
    [] e.kind = "submit" -> FALSE
    [] e.kind = "client" -> Has(e, "capture") /\ (Given(e, "o") \/ Given(e, "e"))
    [] OTHER -> \/ Has(e, "no-db") /\ (Has(e, "restart") \/ Has(e, "forever") \/ Auto(e))
                \/ Has(e, "forever") /\ Has(e, "restart")
                \/ (Given(e, "o") \/ Given(e, "e")) /\ (e.kind # "local" \/ Has(e, "capture"))
                \/ Given(e, "ssh-args") /\ e.kind # "ssh"
                \/ Auto(e) /\ e.kind \in {"ssh", "mpi"}

(* the server *)
Retries(e) == IF Given(e, "r") THEN e.opt["r"][1] ELSE ToString(e.attempts - 1)
Port(e) == Pick(e.opt["p"], e.cfg["server.port"], "50001")
Size(e) == Pick(e.opt["b"], e.cfg["server.bundlesize"], "1")
Wait(e) == Pick(e.opt["w"], e.cfg["submit.bundlewait"], "5")
Failures(e) == IF Has(e, "print") \/ e.opt["f"] = <<"-">> THEN "<stdout>" ELSE Pick(e.opt["f"], <<>>, "~")
Eager(e) == Has(e, "eager") \/ e.cfg["server.eager"] = <<"true">>
Secret(e, x) == Len(x) >= 32 /\ x # Pick(e.cfg["server.auth"], <<>>, "__HYPERSHELL__BAD__AUTHKEY__")

BadServer(e, v) ==
  LET all == v.started IN
  Chk("C28:server-started", v.started)
  \cup Chk("C28:C03:server-bundlesize", v.bs = Size(e)) \cup Chk("C28:C02:server-bundlewait", Has(e, "forever") \/ Has(e, "restart") \/ v.bw = Wait(e))
  \cup Chk("C28:C05:server-retries", v.retries = Retries(e)) \cup Chk("C28:C06:server-eager", v.eager = Eager(e))
  \cup Chk("C28:C16:server-nodb", v.nodb = Has(e, "no-db"))
  \cup Chk("C28:server-confirm", Auto(e) \/ v.noconfirm = Has(e, "no-confirm"))
  \cup Chk("C28:C07:server-forever", v.forever = (Has(e, "forever") \/ Auto(e)))
  \cup Chk("C28:C08:server-restart", v.restart = (Has(e, "restart") /\ ~Auto(e)))
  \cup Chk("C28:server-port", v.port = Port(e))
  \cup Chk("C28:server-host", v.host = CASE e.kind = "server" -> Pick(e.opt["H"], e.cfg["server.bind"], "localhost")
                                         [] e.kind = "local" -> "localhost" [] OTHER -> "0.0.0.0")
  \cup Chk("C28:server-auth", IF Cluster(e) THEN Secret(e, v.auth) ELSE v.auth = Pick(e.opt["k"], e.cfg["server.auth"], "__HYPERSHELL__BAD__AUTHKEY__"))
  \cup Chk("C28:C17:server-failures", v.fail = Failures(e))
  \cup Chk("C28:C09:server-evict", v.evict = Pick(<<>>, e.cfg["server.evict"], "600"))
  \cup Chk("C28:C02:server-source", v.src = IF Has(e, "restart") \/ (e.kind = "server" /\ Has(e, "forever")) THEN <<>> ELSE e.lines)

(* a client; its own configuration is c *)
BadClient(e, v, c, remote) ==
  LET own == e.kind = "client" IN
  Chk("C28:client-started", v.started)
  \cup Chk("C28:C11:client-tasks", v.n = Pick(e.opt["N"], <<>>, "1"))
  \cup Chk("C28:C12:client-bundlesize", v.bs = IF own THEN Pick(e.opt["b"], c["client.bundlesize"], "1") ELSE Size(e))
  \cup Chk("C28:C12:client-bundlewait", v.bw = IF own THEN Pick(e.opt["w"], c["client.bundlewait"], "5") ELSE Wait(e))
  \cup Chk("C28:client-port", v.port = Port(e))
  \cup Chk("C28:client-host", v.host = CASE own -> Pick(e.opt["H"], c["server.bind"], "localhost") [] e.kind = "local" -> e.servers[1].host [] OTHER -> e.host)
  \cup Chk("C28:client-auth", v.auth = IF own THEN Pick(e.opt["k"], c["server.auth"], "__HYPERSHELL__BAD__AUTHKEY__") ELSE e.servers[1].auth)
  \cup Chk("C28:C24:client-template", v.tmpl = Pick(e.opt["t"], <<>>, "{}"))
  \cup Chk("C28:C18:client-output", v.out = IF Given(e, "o") THEN e.opt["o"][1] ELSE IF e.api /\ ~remote THEN "~" ELSE "<stdout>")
  \cup Chk("C28:C18:client-errors", v.err = IF Given(e, "e") THEN e.opt["e"][1] ELSE IF e.api /\ ~remote THEN "~" ELSE "<stderr>")
  \cup Chk("C28:C22:client-heartrate", v.hr = Pick(<<>>, c["client.heartrate"], "10"))
  \cup Chk("C28:C18:client-capture", v.capture = Has(e, "capture"))
  \cup Chk("C28:client-delay", v.delay = Pick(e.opt["d"], <<>>, "0"))
  \cup Chk("C28:C15:client-confirm", Auto(e) \/ v.noconfirm = Has(e, "no-confirm"))
  \cup Chk("C28:C15:confirm-agreed", own \/ v.noconfirm = e.servers[1].noconfirm)
  \cup Chk("C28:C14:client-timeout", v.timeout = Pick(e.opt["T"], e.cfg["client.timeout"], "~"))
  \cup Chk("C28:C13:client-limit", v.limit = Pick(e.opt["W"], e.cfg["task.timeout"], "~"))
  \cup Chk("C28:C13:client-signalwait", v.sw = Pick(e.opt["S"], e.cfg["task.signalwait"], "10"))

Remote(e) == IF e.kind # "ssh" THEN e.cfg ELSE IF Has(e, "env") THEN e.sent ELSE [k \in DOMAIN e.cfg |-> <<>>]
BadProc(e, p) ==
  Chk("C28:client-runs", p.ran) \cup Chk("C28:launch-output", p.std) \cup Chk("C28:launch-environment", p.env)
  \cup Chk("C28:ssh-environment", p.vars) \cup Chk("C28:C18:launch-exports", p.exports)
  \cup IF p.ran THEN BadClient(e, p.client[1], Remote(e), TRUE) ELSE {}

Prefixes(e) ==
  CASE Auto(e) -> <<e.launcher>>
    [] e.kind = "ssh" -> LET h == Nodes(e) IN [i \in DOMAIN h |-> <<"ssh">> \o e.sshargs \o <<h[i]>>]
    [] OTHER -> <<e.launcher>>

BadScaler(e, v) ==
  Chk("C28:C23:scaler-started", v.started)
  \cup Chk("C28:C23:scaler-policy", v.policy = (IF Given(e, "A") /\ e.opt["A"][1] # "" THEN e.policy ELSE Pick(<<>>, e.cfg["autoscale.policy"], "fixed")))
  \cup Chk("C28:C23:scaler-factor", v.factor = Pick(e.opt["F"], e.cfg["autoscale.factor"], "1"))
  \cup Chk("C28:C23:scaler-period", v.period = Pick(e.opt["P"], e.cfg["autoscale.period"], "60"))
  \cup Chk("C28:C23:scaler-init", v.init = Pick(e.opt["I"], e.cfg["autoscale.size.init"], "1"))
  \cup Chk("C28:C23:scaler-min", v.min = Pick(e.opt["X"], e.cfg["autoscale.size.min"], "0"))
  \cup Chk("C28:C23:scaler-max", v.max = Pick(e.opt["Y"], e.cfg["autoscale.size.max"], "2"))

(* tasks submitted by themselves, to the database or to the queue of a server *)
BadSubmit(e, v) ==
  Chk("C28:C02:submit-started", v.started)
  \cup Chk("C28:C02:submit-bundlesize", v.bs = Pick(e.opt["b"], e.cfg["submit.bundlesize"], "1"))
  \cup Chk("C28:C02:submit-bundlewait", v.bw = Pick(e.opt["w"], e.cfg["submit.bundlewait"], "5"))
  \cup Chk("C28:C24:submit-template", v.tmpl = Pick(e.opt["t"], <<>>, "{}"))
  \cup Chk("C28:C02:submit-tags", v.tags = e.tags) \cup Chk("C28:C02:submit-source", v.src = e.lines)
  \cup Chk("C28:C16:submit-queue", v.queue = IF e.live THEN <<"login01", "4321", "q key">> ELSE <<>>)

BadRun(e) ==
  Chk("C28:error", e.rc = 0)
  \cup IF e.rc # 0 THEN {} ELSE
  Chk("C28:servers", Len(e.servers) = (IF e.kind \in {"client", "submit"} THEN 0 ELSE 1))
  \cup Chk("C28:C02:submits", Len(e.submits) = (IF e.kind = "submit" THEN 1 ELSE 0))
  \cup (IF Len(e.submits) = 1 THEN BadSubmit(e, e.submits[1]) ELSE {})
  \cup Chk("C28:clients", Len(e.local) = (IF e.kind \in {"client", "local"} THEN 1 ELSE 0))
  \cup Chk("C28:scalers", Len(e.scalers) = (IF Auto(e) THEN 1 ELSE 0))
  \cup (IF Len(e.servers) = 1 THEN BadServer(e, e.servers[1]) ELSE {})
  \cup (IF Len(e.local) = 1 /\ (e.kind = "client" \/ Len(e.servers) = 1) THEN BadClient(e, e.local[1], e.cfg, FALSE) ELSE {})
  \cup (IF Len(e.scalers) = 1 THEN BadScaler(e, e.scalers[1]) ELSE {})
  \cup (IF e.kind \in {"server", "client", "submit", "local"} THEN Chk("C28:launches", e.procs = <<>>)
        ELSE Chk("C28:launches", [i \in DOMAIN e.procs |-> e.procs[i].prefix] = Prefixes(e))
             \cup UNION {BadProc(e, e.procs[i]) : i \in DOMAIN e.procs})

Bad(st, e) ==
  CASE e.e = "case" -> IF Invalid(e) THEN Chk("C28:conflict-accepted", e.rc # 0) \cup Chk("C28:conflict-runs", e.servers = <<>> /\ e.local = <<>> /\ e.procs = <<>> /\ e.scalers = <<>>)
                       ELSE BadRun(e)
    [] OTHER -> {"ALL:unknown-event"}
Effect(st, e) == st

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
