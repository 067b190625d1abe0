------------------------------ MODULE HSQuery -------------------------------
(***************************************************************************)
(* The task table and the commands which search and change it.             *)
(*                                                                         *)
(* Values are records [k, i, s]: k is the kind ("n" null, "i" integer,     *)
(* "s" text, "b" boolean, "t" time, "f" real); i the number (for text its  *)
(* rank among all texts of the trace, so that i orders values of one kind) *)
(* and s the text.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Range(q) == {q[i] : i \in DOMAIN q}
Chk(name, ok) == IF ok THEN {} ELSE {name}
NullV == [k |-> "n", i |-> 0, s |-> ""]
IsNull(v) == v.k = "n"
\* numbers and truth values are the same thing to the database
Kind(v) == IF v.k = "b" THEN "i" ELSE v.k
Same(v, w) == Kind(v) = Kind(w) /\ v.i = w.i /\ v.s = w.s

---------------------------------------------------------------------------
\* Regular expressions: a sequence of quantified atoms between optional anchors

CharAt(t, i) == SubSeq(t, i, i)
AtomOK(a, ch) == CASE a.c = "any" -> ch # "\n"
                   [] a.c = "in" -> ch \in Range(a.s)
                   [] a.c = "out" -> ch \notin Range(a.s)

RECURSIVE MatchAt(_, _, _, _)
MatchAt(re, j, t, i) ==
  IF j > Len(re.atoms) THEN re.end => i > Len(t)
  ELSE LET a == re.atoms[j]
           here == i <= Len(t) /\ AtomOK(a, CharAt(t, i))
       IN CASE a.q = "1" -> here /\ MatchAt(re, j + 1, t, i + 1)
            [] a.q = "?" -> MatchAt(re, j + 1, t, i) \/ (here /\ MatchAt(re, j + 1, t, i + 1))
            [] a.q = "*" -> MatchAt(re, j + 1, t, i) \/ (here /\ MatchAt(re, j, t, i + 1))
            [] a.q = "+" -> here /\ (MatchAt(re, j + 1, t, i + 1) \/ MatchAt(re, j, t, i + 1))

Found(re, t) == \E i \in 1 .. (IF re.start THEN 1 ELSE Len(t) + 1) : MatchAt(re, 1, t, i)

---------------------------------------------------------------------------
\* Selection

\* null is neither equal nor unequal nor comparable to any value
Sat(row, c) ==
  LET x == row[c.f] IN
  IF c.op = "~" THEN ~IsNull(x) /\ Found(c.re, x.s)
  ELSE IF IsNull(c.v) THEN (IF c.op = "==" THEN IsNull(x) ELSE ~IsNull(x))
  ELSE /\ ~IsNull(x)
       /\ CASE c.op = "==" -> x.i = c.v.i
            [] c.op = "!=" -> x.i # c.v.i
            [] c.op = "<"  -> x.i < c.v.i
            [] c.op = "<=" -> x.i <= c.v.i
            [] c.op = ">"  -> x.i > c.v.i
            [] c.op = ">=" -> x.i >= c.v.i

AliasSat(row, alias) ==
  LET x == row["exit_status"] IN
  CASE alias = "" -> TRUE
    [] alias = "failed" -> ~IsNull(x) /\ x.i # 0
    [] alias = "succeeded" -> ~IsNull(x) /\ x.i = 0
    [] alias = "completed" -> ~IsNull(x)
    [] alias = "remaining" -> IsNull(x)

TagSat(row, q) == /\ q.key \in DOMAIN row.tag
                  /\ IF q.any THEN ~IsNull(row.tag[q.key]) ELSE Same(row.tag[q.key], q.v)

Match(row, q) == /\ \A i \in DOMAIN q.conds : Sat(row, q.conds[i])
                 /\ \A i \in DOMAIN q.tags : TagSat(row, q.tags[i])
                 /\ AliasSat(row, q.alias)

Matches(rows, q) == {i \in DOMAIN rows : Match(rows[i], q)}
Size(rows, q) == LET n == Cardinality(Matches(rows, q)) IN IF q.limit >= 0 /\ q.limit < n THEN q.limit ELSE n

\* Null sorts before everything else
Key(v) == IF IsNull(v) THEN <<0, 0>> ELSE <<1, v.i>>
KeyLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
InOrder(rows, q, i, j) ==
  LET a == Key(rows[i][q.order])
      b == Key(rows[j][q.order])
  IN IF q.desc THEN KeyLe(b, a) ELSE KeyLe(a, b)

\* rules broken by `ids` as the answer to query q
BadAnswer(rows, q, ids, t) ==
  LET M == Matches(rows, q)
      R == Range(ids)
  IN Chk(t \o ":which", R \subseteq M)
     \cup Chk(t \o ":missed", q.limit < 0 => M \subseteq R)
     \cup Chk(t \o ":once", Cardinality(R) = Len(ids))
     \cup Chk(t \o ":number", Len(ids) = Size(rows, q))
     \cup (IF q.order = "" \/ ~(R \subseteq M) THEN {} ELSE
             Chk(t \o ":order", \A k \in 1 .. Len(ids) - 1 : InOrder(rows, q, ids[k], ids[k + 1]))
             \cup Chk(t \o ":first", ids # <<>> => \A j \in M \ R : InOrder(rows, q, ids[Len(ids)], j)))

---------------------------------------------------------------------------
\* Change

RunData == {"schedule_time", "server_host", "server_id", "client_host", "client_id", "command", "start_time",
            "completion_time", "exit_status", "outpath", "errpath", "waited", "duration"}

Fields(row, u) ==
  [f \in DOMAIN row |->
     CASE f = "tag" -> [k \in (DOMAIN row.tag \cup DOMAIN u.settag) \ Range(u.rmtag) |->
                          IF k \in DOMAIN u.settag THEN u.settag[k] ELSE row.tag[k]]
       [] u.act = "revert" /\ f \in RunData -> NullV
       [] u.act = "cancel" /\ f = "exit_status" -> [k |-> "i", i |-> -1, s |-> ""]
       [] OTHER -> IF f \in DOMAIN u.assign THEN u.assign[f] ELSE row[f]]

SameTags(a, b, strict) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : IF strict THEN a[k] = b[k] ELSE Same(a[k], b[k])

BadUpdate(s, e) ==
  LET rows == s.rows
      after == e.after
      sel == Range(e.found)
      go == ~e.invalid /\ e.answer \in {"", "y", "yes", "YES", "Yes"}
      hit == IF go THEN sel ELSE {}
      gone == IF e.act = "delete" THEN hit ELSE {}
      kept == DOMAIN rows \cap DOMAIN after
      clockwork == IF e.act = "cancel" THEN {"schedule_time"} ELSE {}
  IN Chk("C19:refused", e.invalid => e.rc # 0)
     \cup Chk("C19:accepted", ~e.invalid => e.rc = 0)
     \cup Chk("C19:deleted", DOMAIN rows \ DOMAIN after = gone)
     \cup Chk("C19:created", DOMAIN after \subseteq DOMAIN rows)
     \cup Chk("C19:others", \A i \in kept \ hit : after[i] = rows[i])
     \cup Chk("C19:fields", \A i \in kept \cap hit : \A f \in DOMAIN rows[i] \ (clockwork \cup {"tag"}) :
                              after[i][f] = Fields(rows[i], e)[f])
     \cup Chk("C19:tags", \A i \in kept \cap hit : SameTags(after[i].tag, Fields(rows[i], e).tag, TRUE))
     \cup Chk("C19:cancel-time", \A i \in kept \cap hit : \A f \in clockwork :
                              after[i][f].k = "t" /\ after[i][f].i \in e.t0 .. e.t1)
     \cup (IF e.invalid THEN {} ELSE BadAnswer(rows, e, e.found, "C21:C19:selected"))

---------------------------------------------------------------------------
\* Listings

TagPairs(rows, key) == {<<Kind(v), v.i, v.s>> : v \in {rows[i].tag[key] : i \in {j \in DOMAIN rows : key \in DOMAIN rows[j].tag}}}

Bad(s, e) ==
  LET rows == s.rows IN
  CASE e.e = "table" -> {}
    [] e.e = "search" -> Chk("C21:accepted", e.rc = 0)
                         \cup (IF e.rc # 0 THEN {} ELSE BadAnswer(rows, e, e.ids, "C21"))
                         \cup Chk("C21:values", \A k \in DOMAIN e.vals : e.ids[k] \in DOMAIN rows =>
                                    \A f \in DOMAIN e.vals[k] :
                                       IF f = "tag" THEN SameTags(e.vals[k].tag, rows[e.ids[k]].tag, TRUE)
                                       ELSE e.vals[k][f] = rows[e.ids[k]][f])
                         \cup Chk("C21:unchanged", e.same)
    [] e.e = "info" -> IF e.what # "known" THEN Chk("C21:C27:info-refused", e.rc # 0) ELSE
                       Chk("C21:C25:info-accepted", e.rc = 0)
                       \cup Chk("C21:C25:info", \A f \in DOMAIN e.got :
                                  IF f = "tag" THEN SameTags(e.got.tag, rows[e.id].tag, TRUE) ELSE e.got[f] = rows[e.id][f])
    [] e.e = "count" -> Chk("C21:accepted", e.rc = 0) \cup Chk("C21:count", e.rc = 0 => e.n = Size(rows, e))
    [] e.e = "keys" -> Chk("C21:keys", Range(e.list) = UNION {DOMAIN rows[i].tag : i \in DOMAIN rows})
                       \cup Chk("C21:keys-once", Cardinality(Range(e.list)) = Len(e.list))
    [] e.e = "values" -> LET V == {<<v[1], IF v[1] = "i" THEN ToString(v[2]) ELSE v[3]>> : v \in TagPairs(rows, e.key)} IN
                         Chk("C21:tag-values", Range(e.list) = {v[2] : v \in V} /\ Len(e.list) = Cardinality(V))
    [] e.e = "update" -> BadUpdate(s, e)
    [] OTHER -> {"ALL:unknown-event"}

Effect(s, e) ==
  CASE e.e = "table" -> [s EXCEPT !.rows = e.rows]
    [] e.e = "update" -> [s EXCEPT !.rows = e.after]
    [] OTHER -> s

InitState == [rows |-> <<>>]
=============================================================================
