------------------------------ MODULE HSSubmit ------------------------------
(***************************************************************************)
(* Submissions to a database.                                              *)
(*                                                                         *)
(* The state is the table of tasks.  A submission turns every item of its  *)
(* source into one new task: the item without surrounding blanks, put into *)
(* the template, with the tags asked for.  It adds them in order, in one    *)
(* go or in several; what is cut short has added a first part of them.      *)
(* Submissions at the same time do not disturb each other.                  *)
(***************************************************************************)
EXTENDS HSTemplate, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
InitState == [n |-> 0]
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
LOCAL C1(t, i) == SubSeq(t, i, i)

(***************************************************************************)
(* Tags as they are written: a name, or a name, a colon and a value; the   *)
(* value is a number, a truth value, null, or a text.                       *)
(***************************************************************************)
Colon(t) == LET P == {i \in 1 .. Len(t) : C1(t, i) = ":"} IN IF P = {} THEN 0 ELSE MinOf(P)
TagName(t) == LET a == Strip(t) IN IF Colon(a) = 0 THEN a ELSE Strip(SubSeq(a, 1, Colon(a) - 1))
TagText(t) == LET a == Strip(t) IN IF Colon(a) = 0 THEN "" ELSE Strip(SubSeq(a, Colon(a) + 1, Len(a)))

Lower == [A |-> "a", B |-> "b", E |-> "e", F |-> "f", L |-> "l", N |-> "n", O |-> "o", R |-> "r", S |-> "s", T |-> "t", U |-> "u"]
RECURSIVE Down(_)
Down(t) == IF t = "" THEN "" ELSE (IF C1(t, 1) \in DOMAIN Lower THEN Lower[C1(t, 1)] ELSE C1(t, 1)) \o Down(SubSeq(t, 2, Len(t)))
Signed(t) == t # "" /\ C1(t, 1) \in {"-", "+"}
Bare(t) == IF Signed(t) THEN SubSeq(t, 2, Len(t)) ELSE t
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ C1(t, 1) = "0" THEN NoZeros(SubSeq(t, 2, Len(t))) ELSE t
Dots(t) == {i \in 1 .. Len(t) : C1(t, i) = "."}
Decimal(t) == LET b == Bare(t) IN
              Cardinality(Dots(b)) = 1 /\ LET d == MinOf(Dots(b)) IN IsNat(SubSeq(b, 1, d - 1)) /\ IsNat(SubSeq(b, d + 1, Len(b)))
Minus(t) == IF Signed(t) /\ C1(t, 1) = "-" /\ NoZeros(Bare(t)) # "0" THEN "-" ELSE ""
TagValue(t) ==
  LET v == TagText(t) IN
  IF Down(v) \in {"null", "none"} THEN "n:"
  ELSE IF Down(v) \in {"true", "false"} THEN "b:" \o Down(v)
  ELSE IF IsNat(Bare(v)) THEN "i:" \o Minus(v) \o NoZeros(Bare(v))
  ELSE IF Decimal(v) THEN "f:" \o v
  ELSE "s:" \o v

Letters == {C1("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.+-", i) : i \in 1 .. 66}
Valid(t) == LET v == TagText(t) IN Len(v) <= 120 /\ \A i \in 1 .. Len(v) : C1(v, i) \in Letters

\* of the same name the last one counts
Names(ts) == {TagName(ts[i]) : i \in DOMAIN ts}
Tags(ts) == TLCEval([n \in Names(ts) |-> TagValue(ts[MaxOf({i \in DOMAIN ts : TagName(ts[i]) = n})])])
Refused(sub) == sub.missing \/ \E i \in DOMAIN sub.tags : ~Valid(sub.tags[i])

(***************************************************************************)
(* What a submission adds.                                                  *)
(***************************************************************************)
Text(sub, k) == ExpandT(sub.t, Strip(sub.lines[k]), sub.tab)
Good(sub) == LET F == {k \in DOMAIN sub.lines : ~Text(sub, k).ok} IN IF F = {} THEN Len(sub.lines) ELSE MinOf(F) - 1
Wanted(sub) == IF Refused(sub) THEN <<>> ELSE TLCEval([k \in 1 .. Good(sub) |-> Strip(Text(sub, k).s)])
Broken(sub) == Refused(sub) \/ Good(sub) < Len(sub.lines)
Whole(sub) == ~Broken(sub) /\ ~sub.cut

Mine(e, who) == SelectSeq(e.rows, LAMBDA r : "who" \in DOMAIN r.tags /\ r.tags["who"] = who)
Args(q) == [k \in DOMAIN q |-> q[k].args]
Prefix(a, b) == Len(a) <= Len(b) /\ \A k \in DOMAIN a : a[k] = b[k]
Share(e, sub) == IF Len(e.subs) = 1 THEN e.rows ELSE Mine(e, Tags(sub.tags)["who"])
\* P(submission, its tasks, the arguments they should have)
Every(e, W, P(_, _, _)) == \A a \in DOMAIN e.subs : P(e.subs[a], Share(e, e.subs[a]), W[a])
RECURSIVE Total(_, _)
Total(e, k) == IF k > Len(e.subs) THEN 0 ELSE Len(Share(e, e.subs[k])) + Total(e, k + 1)

Bad(st, e) ==
  CASE e.e = "submit" ->
        LET W == TLCEval([a \in DOMAIN e.subs |-> Wanted(e.subs[a])]) IN
        Chk("C02:kept", e.kept)
        \cup Chk("C02:identifier", e.ids)
        \cup Chk("C02:fresh", \A k \in DOMAIN e.rows : LET r == e.rows[k] IN
                                r.attempt = 1 /\ ~r.retried /\ r.others = <<>> /\ r.host = e.host)
        \cup Chk("C02:strangers", Total(e, 1) = Len(e.rows))
        \cup Chk("C02:items", Every(e, W, LAMBDA sub, q, w : Prefix(Args(q), w)))
        \cup Chk("C02:all", Every(e, W, LAMBDA sub, q, w : Whole(sub) => Len(q) = Len(w)))
        \cup Chk("C02:tags", Every(e, W, LAMBDA sub, q, w : \A k \in DOMAIN q : q[k].tags = Tags(sub.tags)))
        \cup Chk("C02:one-source", Every(e, W, LAMBDA sub, q, w : \A j, k \in DOMAIN q : q[j].sid = q[k].sid))
        \cup Chk("C02:status", Every(e, W, LAMBDA sub, q, w : sub.cut \/ (Broken(sub) <=> sub.rc # 0)))
        \cup Chk("C02:reported", Every(e, W, LAMBDA sub, q, w : sub.count >= 0 => sub.count = Len(w)))
        \cup Chk("C02:printed", Every(e, W, LAMBDA sub, q, w : (sub.how = "task" /\ Whole(sub) /\ Len(q) = 1) => sub.out = q[1].id))
    [] OTHER -> {"ALL:unknown-event"}
Effect(st, e) == [n |-> st.n + Len(e.rows)]

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
