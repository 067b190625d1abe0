--------------------------- MODULE HSConfigTrace ----------------------------
EXTENDS HSConfig, Json, IOUtils
VARIABLES tr, l, s, bad
Traces == JsonDeserialize(IOEnv.TRACES)
LOCAL Chk(name, ok) == IF ok THEN {} ELSE {name}
Files == {"system", "user", "local"}

InitState == [mode |-> "none", src |-> [x \in {"default", "env"} |-> Empty], others |-> [x \in {} |-> Null], evals |-> [x \in {} |-> Null],
              env |-> [x \in {} |-> Null], styles |-> [x \in {} |-> ""], seen |-> [x \in Files |-> FALSE]]

\* the whole configuration, as the program runs with it
Conf(st) == WithFormat([mode |-> st.mode, src |-> st.src, others |-> st.others, evals |-> st.evals], st.styles)

\* the exported variables of the environment come before those of the files
Exported(st) == {n \in DOMAIN st.env : IsExport(n)}
JoinedBy(v) == v.s      \* lists are given joined

GetWant(st, e) ==
  IF e.where = "" THEN
    LET c == Conf(st) IN
    IF e.x THEN [ok |-> Defined(c, e.p) /\ Effective(c, e.p) # Null, v |-> IF Defined(c, e.p) THEN Effective(c, e.p) ELSE Null]
    ELSE [ok |-> e.p \in Merged(c), v |-> IF e.p \in Merged(c) THEN At(c, e.p) ELSE Null]
  ELSE IF e.where = "default" \/ ~e.x THEN
    LET f == IF e.where = "default" THEN Conf([st EXCEPT !.src = [@ EXCEPT !["env"] = Empty], !.mode = "none"]).src["default"] ELSE st.src[e.where]
    IN [ok |-> e.p \in DOMAIN f /\ ~(e.x /\ f[e.p] = Null), v |-> Look(f, e.p)]
  ELSE
    LET c == [mode |-> "one", src |-> st.src[e.where], others |-> st.others, evals |-> st.evals]
        f == st.src[e.where]
        V == {q \in Variants(e.p) : q \in DOMAIN f}
        q == CHOOSE q \in V : TRUE
        v == IF q = e.p THEN f[q] ELSE IF q = Variant(e.p, "_env") THEN Look(st.others, f[q].s) ELSE Look(st.evals, f[q].s)
    IN IF V = {} THEN [ok |-> FALSE, v |-> Null] ELSE [ok |-> v # Null, v |-> v]

Bad(st, e) ==
  CASE e.e = "init" ->
        Chk("C26:defaults", \A d \in Documented : d[1] \in DOMAIN Source(e.defaults) /\ Source(e.defaults)[d[1]] = d[2])
    [] e.e = "runtime" ->
        LET c == Conf(st)
            got == Source(e.leaves)
            ours == {p \in Options(c) : p[1] # "export"}
            theirs == {p \in DOMAIN got : p[1] # "export"}
            up == {Up(ExportName(n)) : n \in Exported(st)}
        IN Chk("C26:runtime-error", e.rc = 0)
           \cup (IF e.rc # 0 THEN {} ELSE
              Chk("C26:runtime-missing", ours \subseteq theirs)
              \cup Chk("C26:runtime-extra", theirs \subseteq ours)
              \cup Chk("C26:runtime-ambiguous", \A i \in DOMAIN e.leaves : e.leaves[i].p[1] # "export" => e.leaves[i].ok)
              \cup Chk("C26:runtime-value", \A p \in ours \cap theirs : got[p] = Effective(c, p))
              \cup Chk("C26:C18:export-env", \A n \in Exported(st) : ExportName(n) \in DOMAIN e.export /\ e.export[ExportName(n)] = st.env[n].t)
              \cup Chk("C26:C18:export-file",
                       \A p \in Export(c) : Up(p[2]) \in up \/ ~(\E i \in DOMAIN Order(c.mode) : Order(c.mode)[i] # "env" /\ p \in DOMAIN c.src[Order(c.mode)[i]])
                          \/ (Up(p[2]) \in DOMAIN e.export /\ (At(c, p).k # "list" => e.export[Up(p[2])] = At(c, p).s)
                              /\ (At(c, p).k = "list" => e.export[Up(p[2])] = At(c, p).j)))
              \cup Chk("C26:C18:export-extra",
                       \A n \in DOMAIN e.export : (\E m \in Exported(st) : ExportName(m) = n \/ Up(ExportName(m)) = n) \/ (\E p \in Export(c) : Up(p[2]) = n)))
    [] e.e = "get" ->
        LET w == GetWant(st, e) IN
        IF e.where \in Files /\ ~e.there THEN Chk("C26:get-nofile", e.rc # 0)
        ELSE IF w.ok THEN Chk("C26:get-error", e.rc = 0) \cup Chk("C26:get-value", e.rc = 0 => e.out = w.v.s)
        ELSE Chk("C26:get-undefined", e.rc # 0)
    [] e.e = "which" ->
        LET c == Conf(st) IN
        Chk("C26:which", e.out = Which(c, e.p) \/ (e.p = Format /\ Which(c, e.p) = "default" /\ e.out = "preload"))
    [] e.e = "section" ->
        LET c == Conf(st)
            P == {p \in Under(Merged(c), e.p) : At(c, p) # Null}
            got == Source(e.leaves)
        IN IF e.p # <<>> /\ Under(Merged(c), e.p) = {} THEN {}
           ELSE Chk("C26:section-error", e.rc = 0)
                \cup (IF e.rc # 0 THEN {} ELSE Chk("C26:section-names", DOMAIN got = P)
                                               \cup Chk("C26:section-values", \A p \in P \cap DOMAIN got : got[p] = At(c, p)))
    [] e.e = "set" -> Chk("C26:set-error", e.rc = 0)
    [] e.e = "file" ->
        Chk("C26:file-broken", e.ok)
        \cup (IF ~e.ok THEN {} ELSE
              Chk("C26:set-value", \A p \in DOMAIN st.src[e.where] : p \in DOMAIN Source(e.leaves) => Source(e.leaves)[p] = st.src[e.where][p])
              \cup Chk("C26:set-lost", DOMAIN st.src[e.where] \subseteq DOMAIN Source(e.leaves))
              \cup Chk("C26:set-extra", DOMAIN Source(e.leaves) \subseteq DOMAIN st.src[e.where])
              \cup Chk("C26:comments", e.kept))
    [] e.e = "note" -> {}
    [] OTHER -> {"ALL:unknown-event"}

Effect(st, e) ==
  CASE e.e = "init" ->
        [st EXCEPT !.mode = e.mode,
                   !.src = [x \in Files |-> Source(e.files[x])] @@ ("default" :> Source(e.defaults)) @@ ("env" :> EnvSource(e.env)),
                   !.others = e.others, !.evals = e.evals, !.env = e.env, !.styles = e.styles]
    [] e.e = "set" -> IF e.rc = 0 THEN [st EXCEPT !.src[e.where] = (e.p :> e.v) @@ @] ELSE st
    [] OTHER -> st

J == INSTANCE Judge
Spec == J!Spec
View == J!View
=============================================================================
