-------------------------- MODULE HSTemplateTrace ---------------------------
EXTENDS HSTemplate, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
InitState == [n |-> 0]
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}

\* lines given to a submission, in order: the expansions, up to the first which cannot be expanded
Wanted(e, k) == ExpandT(e.t, Strip(e.lines[k]), e.tab)
Good(e) == LET F == {k \in DOMAIN e.lines : ~Wanted(e, k).ok} IN IF F = {} THEN Len(e.lines) ELSE MinOf(F) - 1

Bad(st, e) ==
  CASE e.e = "expand" ->
        LET w == ExpandT(e.t, e.args, e.tab) IN
        IF w.ok THEN Chk("C24:error", e.ok) \cup Chk("C24:text", e.ok => e.s = w.s)
        ELSE Chk("C24:undetected", ~e.ok)
    [] e.e = "submit" ->
        LET n == Good(e) IN
        Chk("C24:submit-text", \A k \in DOMAIN e.got : k <= n => e.got[k] = Strip(Wanted(e, k).s))
        \cup Chk("C24:submit-hang", e.rc # -99)
        \cup Chk("C24:submit-undetected", Len(e.got) <= n)
        \cup (IF n = Len(e.lines) THEN Chk("C24:C02:submit-all", Len(e.got) = n) \cup Chk("C24:submit-status", e.rc = 0)
              ELSE Chk("C24:submit-error", e.rc # 0))
    [] OTHER -> {}
Effect(st, e) == [n |-> st.n + 1]

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
