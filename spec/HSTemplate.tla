---------------------------- MODULE HSTemplate ------------------------------
(***************************************************************************)
(* Template patterns: what a template becomes for given arguments.         *)
(*                                                                         *)
(* Lambda and shell patterns run arbitrary code; what they yield for given *)
(* arguments is the parameter `tab`: key -> arguments -> [ok, s].          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

LOCAL Ch(t, i) == SubSeq(t, i, i)
Blank == {" ", "\t", "\n", "\r", "\f"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j
MaxOf(S) == CHOOSE i \in S : \A j \in S : i >= j
Failed == [ok |-> FALSE, s |-> ""]
Ok(x) == [ok |-> TRUE, s |-> x]

\* positions of a character
At(t, c) == {i \in 1 .. Len(t) : Ch(t, i) = c}
Ink(t) == {i \in 1 .. Len(t) : Ch(t, i) \notin Blank}
Strip(t) == IF Ink(t) = {} THEN "" ELSE SubSeq(t, MinOf(Ink(t)), MaxOf(Ink(t)))
Last(t, c) == LET P == At(t, c) IN IF P = {} THEN 0 ELSE MaxOf(P)

RECURSIVE DropTrailing(_, _)
DropTrailing(t, c) == IF t # "" /\ Ch(t, Len(t)) = c THEN DropTrailing(SubSeq(t, 1, Len(t) - 1), c) ELSE t

\* Paths
Base(p) == SubSeq(p, Last(p, "/") + 1, Len(p))
Dir(p) ==
  LET head == SubSeq(p, 1, Last(p, "/"))
      bare == DropTrailing(head, "/")
  IN IF bare = "" THEN head ELSE bare
\* where the extension starts, or one past the end: a name which starts with dots has no extension because of them
ExtAt(p) ==
  LET d == Last(p, ".")
      from == Last(p, "/") + 1
  IN IF d > from /\ (\E i \in from .. d - 1 : Ch(p, i) # ".") THEN d ELSE Len(p) + 1
Root(p) == SubSeq(p, 1, ExtAt(p) - 1)
Ext(p) == SubSeq(p, ExtAt(p), Len(p))
ExtName(p) == IF Ext(p) = "" THEN "" ELSE SubSeq(Ext(p), 2, Len(Ext(p)))

\* Slices
RECURSIVE Words(_)
Words(t) ==
  IF Ink(t) = {} THEN <<>>
  ELSE LET a == MinOf(Ink(t))
           B == {i \in a .. Len(t) : Ch(t, i) \in Blank}
           b == IF B = {} THEN Len(t) + 1 ELSE MinOf(B)
       IN <<SubSeq(t, a, b - 1)>> \o Words(SubSeq(t, b, Len(t)))
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o " " \o Join(Tail(q))

RECURSIVE SplitAt(_, _)
SplitAt(t, c) ==
  IF At(t, c) = {} THEN <<t>>
  ELSE LET i == MinOf(At(t, c)) IN <<SubSeq(t, 1, i - 1)>> \o SplitAt(SubSeq(t, i + 1, Len(t)), c)

IsNat(t) == t # "" /\ \A i \in 1 .. Len(t) : Ch(t, i) \in Digits
IsInt(t) == IsNat(t) \/ (Len(t) > 1 /\ Ch(t, 1) = "-" /\ IsNat(SubSeq(t, 2, Len(t))))
Digit(c) == CHOOSE k \in 0 .. 9 : ToString(k) = c
RECURSIVE Nat0(_)
Nat0(t) == IF t = "" THEN 0 ELSE 10 * Nat0(SubSeq(t, 1, Len(t) - 1)) + Digit(Ch(t, Len(t)))
Int0(t) == IF Ch(t, 1) = "-" THEN 0 - Nat0(SubSeq(t, 2, Len(t))) ELSE Nat0(t)

RECURSIVE Pick(_, _, _, _)
Pick(q, i, stop, step) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
  ELSE <<q[i + 1]>> \o Pick(q, i + step, stop, step)

Slice(t, args) ==
  LET w == Words(args)
      n == Len(w)
      p == SplitAt(t, ":")
      ok == Len(p) <= 3 /\ \A k \in DOMAIN p : p[k] = "" \/ IsInt(p[k])
      num(k, dflt) == IF k > Len(p) \/ p[k] = "" THEN dflt ELSE Int0(p[k])
      given(k) == k <= Len(p) /\ p[k] # ""
      step == num(3, 1)
      lower == IF step < 0 THEN 0 - 1 ELSE 0
      upper == IF step < 0 THEN n - 1 ELSE n
      clip(x) == IF x < 0 THEN (IF x + n < lower THEN lower ELSE x + n) ELSE (IF x > upper THEN upper ELSE x)
      start == IF given(1) THEN clip(num(1, 0)) ELSE IF step < 0 THEN upper ELSE lower
      stop == IF given(2) THEN clip(num(2, 0)) ELSE IF step < 0 THEN lower ELSE upper
  IN IF ~ok THEN Failed
     ELSE IF Len(p) = 1 THEN
        (IF p[1] = "" THEN Failed
         ELSE LET i == Int0(p[1])
                  j == IF i < 0 THEN i + n ELSE i
              IN IF j \in 0 .. n - 1 THEN Ok(w[j + 1]) ELSE Failed)
     ELSE IF step = 0 THEN Failed
     ELSE Ok(Join(Pick(w, start, stop, step)))

\* The text for one pattern
Inside(k, a, b) == Len(k) >= 2 /\ Ch(k, 1) = a /\ Ch(k, Len(k)) = b
Pattern(key, args, tab) ==
  LET k == Strip(key) IN
  CASE k = "" -> Ok(args)
    [] k = "." -> Ok(Dir(args))
    [] k = ".." -> Ok(Dir(Dir(args)))
    [] k = "/" -> Ok(Base(args))
    [] k = "/-" -> Ok(Root(Base(args)))
    [] k = "-" -> Ok(Root(args))
    [] k = "+" -> Ok(Ext(args))
    [] k = "++" -> Ok(ExtName(args))
    [] Inside(k, "[", "]") -> Slice(SubSeq(k, 2, Len(k) - 1), args)
    [] (Inside(k, "=", "=") \/ Inside(k, "%", "%")) /\ k \in DOMAIN tab /\ args \in DOMAIN tab[k] -> tab[k][args]
    [] OTHER -> Failed

\* A template is text and patterns: an opening brace up to the next closing one on the same line
Opens(t) == {i \in At(t, "{") : LET C == {j \in At(t, "}") : j > i} IN
                                  C # {} /\ \A m \in i .. MinOf(C) : Ch(t, m) # "\n"}
RECURSIVE Parse(_)
Parse(t) ==
  IF Opens(t) = {} THEN (IF t = "" THEN <<>> ELSE <<[pat |-> FALSE, s |-> t]>>)
  ELSE LET i == MinOf(Opens(t))
           j == MinOf({m \in At(t, "}") : m > i})
           text == SubSeq(t, 1, i - 1)
       IN (IF text = "" THEN <<>> ELSE <<[pat |-> FALSE, s |-> text]>>)
          \o <<[pat |-> TRUE, s |-> SubSeq(t, i + 1, j - 1)]>> \o Parse(SubSeq(t, j + 1, Len(t)))

RECURSIVE ExpandParts(_, _, _)
ExpandParts(parts, args, tab) ==
  IF parts = <<>> THEN Ok("")
  ELSE LET p == Head(parts)
           a == IF p.pat THEN Pattern(p.s, args, tab) ELSE Ok(p.s)
       IN IF ~a.ok THEN Failed
          ELSE LET r == ExpandParts(Tail(parts), args, tab) IN IF r.ok THEN Ok(a.s \o r.s) ELSE Failed

ExpandT(t, args, tab) == ExpandParts(Parse(t), args, tab)
=============================================================================
