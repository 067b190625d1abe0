------------------------------ MODULE HSConfig ------------------------------
(***************************************************************************)
(* Configuration: settings come from defaults, the system, user and local  *)
(* file, and the environment; they override each other setting by setting. *)
(* Files change only by `config set`, one setting at a time.               *)
(*                                                                         *)
(* A setting is a path (sequence of names); a value is [k, s]: its kind    *)
(* and its text as it is shown.  A source is a function: path -> value.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
Null == [k |-> "null", s |-> "null"]
Val(k, x) == [k |-> k, s |-> x]

LOCAL Ch(t, i) == SubSeq(t, i, i)
Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOCAL Pos(t, c) == {i \in 1 .. 26 : Ch(t, i) = c}
UpC(c) == LET P == Pos(Lower, c) IN IF P = {} THEN c ELSE Ch(Upper, CHOOSE i \in P : TRUE)
LowC(c) == LET P == Pos(Upper, c) IN IF P = {} THEN c ELSE Ch(Lower, CHOOSE i \in P : TRUE)
RECURSIVE Up(_), Low(_), Names(_)
Up(t) == IF t = "" THEN "" ELSE UpC(Ch(t, 1)) \o Up(SubSeq(t, 2, Len(t)))
Low(t) == IF t = "" THEN "" ELSE LowC(Ch(t, 1)) \o Low(SubSeq(t, 2, Len(t)))
Names(p) == IF p = <<>> THEN "" ELSE "_" \o Up(Head(p)) \o Names(Tail(p))
\* the environment variable of a setting
EnvName(p) == "HYPERSHELL" \o Names(p)
\* the setting of an environment variable: between underscores, in lower case
RECURSIVE Split(_)
Split(t) ==
  LET U == {i \in 1 .. Len(t) : Ch(t, i) = "_"} IN
  IF U = {} THEN <<Low(t)>>
  ELSE LET i == CHOOSE i \in U : \A j \in U : i <= j
       IN <<Low(SubSeq(t, 1, i - 1))>> \o Split(SubSeq(t, i + 1, Len(t)))
EnvPath(name) == Split(SubSeq(name, 12, Len(name)))
\* exported: environment variables below this prefix are taken as they are
ExportPrefix == "HYPERSHELL_EXPORT_"
IsExport(name) == Len(name) > Len(ExportPrefix) /\ SubSeq(name, 1, Len(ExportPrefix)) = ExportPrefix
ExportName(name) == SubSeq(name, Len(ExportPrefix) + 1, Len(name))

\* documented defaults
Documented ==
  { << <<"server", "bind">>, Val("str", "localhost")>>, << <<"server", "port">>, Val("int", "50001")>>,
    << <<"server", "queuesize">>, Val("int", "1")>>, << <<"server", "bundlesize">>, Val("int", "1")>>,
    << <<"server", "attempts">>, Val("int", "1")>>, << <<"server", "eager">>, Val("bool", "false")>>,
    << <<"server", "wait">>, Val("int", "5")>>, << <<"server", "evict">>, Val("int", "600")>>,
    << <<"client", "bundlesize">>, Val("int", "1")>>, << <<"client", "bundlewait">>, Val("int", "5")>>,
    << <<"client", "heartrate">>, Val("int", "10")>>, << <<"submit", "bundlesize">>, Val("int", "1")>>,
    << <<"submit", "bundlewait">>, Val("int", "5")>>, << <<"task", "signalwait">>, Val("int", "10")>>,
    << <<"autoscale", "policy">>, Val("str", "fixed")>>, << <<"autoscale", "factor">>, Val("int", "1")>>,
    << <<"autoscale", "period">>, Val("int", "60")>>, << <<"autoscale", "size", "init">>, Val("int", "1")>>,
    << <<"autoscale", "size", "min">>, Val("int", "0")>>, << <<"autoscale", "size", "max">>, Val("int", "2")>>,
    << <<"database", "provider">>, Val("str", "sqlite")>>, << <<"logging", "level">>, Val("str", "warning")>>,
    << <<"logging", "datefmt">>, Val("str", "%Y-%m-%d %H:%M:%S")>>, << <<"console", "theme">>, Val("str", "monokai")>> }

\* ---- sources -------------------------------------------------------------
Empty == [p \in {} |-> Null]
Source(leaves) == [p \in {leaves[i].p : i \in DOMAIN leaves} |-> leaves[CHOOSE i \in DOMAIN leaves : leaves[i].p = p].v]
EnvSource(env) == [p \in {EnvPath(n) : n \in DOMAIN env} |-> env[CHOOSE n \in DOMAIN env : EnvPath(n) = p].v]
Style == <<"logging", "style">>
Format == <<"logging", "format">>

\* in increasing priority
Order(mode) ==
  CASE mode = "only" -> <<"default", "local", "env">>     \* one file only
    [] mode = "none" -> <<"default", "env">>              \* no files
    [] OTHER -> <<"default", "system", "user", "local", "env">>

\* c: [mode, src: name -> source, others: variable -> value, evals: command -> value]
Ranks(c, p) == {i \in DOMAIN Order(c.mode) : p \in DOMAIN c.src[Order(c.mode)[i]]}
Rank(c, p) == IF Ranks(c, p) = {} THEN 0 ELSE CHOOSE i \in Ranks(c, p) : \A j \in Ranks(c, p) : i >= j
At(c, p) == c.src[Order(c.mode)[Rank(c, p)]][p]
Which(c, p) == IF Rank(c, p) = 0 THEN "" ELSE Order(c.mode)[Rank(c, p)]

Variant(p, ext) == [p EXCEPT ![Len(p)] = @ \o ext]
Variants(p) == {p, Variant(p, "_env"), Variant(p, "_eval")}
\* of the variants of a setting the one with the highest priority counts
Chosen(c, p) == LET V == {q \in Variants(p) : Rank(c, q) > 0}
                IN {q \in V : \A r \in V : Rank(c, q) >= Rank(c, r)}
Defined(c, p) == Chosen(c, p) # {}
Look(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Null
Effective(c, p) ==
  LET q == CHOOSE q \in Chosen(c, p) : TRUE IN
  CASE q = p -> At(c, p)
    [] q = Variant(p, "_env") -> Look(c.others, At(c, q).s)
    [] OTHER -> Look(c.evals, At(c, q).s)

HasExt(t, ext) == Len(t) > Len(ext) /\ SubSeq(t, Len(t) - Len(ext) + 1, Len(t)) = ext
Cut(t, ext) == SubSeq(t, 1, Len(t) - Len(ext))
Base(p) ==
  LET t == p[Len(p)] IN
  CASE HasExt(t, "_env") -> [p EXCEPT ![Len(p)] = Cut(t, "_env")]
    [] HasExt(t, "_eval") -> [p EXCEPT ![Len(p)] = Cut(t, "_eval")]
    [] OTHER -> p

Paths(c) == UNION {DOMAIN c.src[Order(c.mode)[i]] : i \in DOMAIN Order(c.mode)}
Options(c) == {Base(p) : p \in Paths(c)}
\* the merged configuration, with variants as they are written
Merged(c) == {p \in Paths(c) : p \in Chosen(c, Base(p))}
Under(P, at) == {p \in P : Len(p) > Len(at) /\ SubSeq(p, 1, Len(at)) = at}

\* the format of log messages follows the style unless it is given
StyleOf(c) == Low(Effective(c, Style).s)
WithFormat(c, styles) ==
  IF StyleOf(c) \in DOMAIN styles THEN [c EXCEPT !.src["default"] = (Format :> Val("str", styles[StyleOf(c)])) @@ @] ELSE c

\* ---- what tasks are given -------------------------------------------------
Export(c) == {p \in Paths(c) : Len(p) = 2 /\ p[1] = "export"}
=============================================================================
