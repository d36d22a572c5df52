------------------------ MODULE TraceBorealisSession ------------------------
(***************************************************************************)
(* Replays recorded sessions of Borealis calls in BorealisSession: after     *)
(* every call the outcome, what a reader says, every file and the caller's   *)
(* data must be what the specification says.                               *)
(***************************************************************************)
EXTENDS BorealisSession, TraceBase

VARIABLES l, s, versions
tvars == <<l, s, versions>>

Cat == Catalogue
Range(q) == { q[i] : i \in 1..Len(q) }
Files == {"f1", "f2", "f3", "nodir"}

Asked(c, ask, got) ==      \* what asking a reader gave: a data set or an error
    LET want == IF ask = "records" THEN "site" ELSE "array"
        F == AskFaults(c.d, c.st, want, Cat)
    IN  IF F = {} THEN got = c.d ELSE got \in F

JudgeCall(e, t) ==
    LET o == e.op   F == Faults(s, o, Cat)
        p == IF o.op = "read" THEN "P14" ELSE "P17"
        what(x) == o.op \o ":" \o x
        c == s.disk[o.f]
        done == e.res = "ok"
        target == IF o.op = "read" THEN {} ELSE {Target(o)}
    IN  Clause(p, what("outcome"), IF F = {} THEN done ELSE e.res \in F)
        \cup Clause("P17", what("files"), \A f \in Files : e.disk[f] = t.disk[f])
        \cup Clause("P12", what("gives-the-other-form"),
                    (o.op = "restructure" /\ F = {}) => done /\ e.disk[o.g] = t.disk[o.g] /\ e.disk[o.f] = c)
        \cup Clause("P17", what("refused-changes-no-file"), ~done => e.changed = <<>>)
        \cup Clause("P17", what("changes-only-its-target"), Range(e.changed) \subseteq target)
        \cup Clause("P17", what("no-stray-files"), e.stray = <<>>)
        \cup Clause("P17", what("callers-data"), e.data)
        \cup (IF o.op \in {"read", "write"} /\ done /\ F = {}
              THEN LET x == IF o.op = "read" THEN c ELSE C(o.form, o.d) IN
                   Clause(p, what("structure"), e.seen.structure = x.st)
                   \cup Clause(p, what("version"), e.seen.version = versions[x.d])
                   \cup Clause(p, what("records"), Asked(x, "records", e.seen.records))
                   \cup Clause(p, what("arrays"), Asked(x, "arrays", e.seen.arrays))
              ELSE {})

TInit == l = 1 /\ s = SessionInit({}, {}) /\ versions = << >>
TNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.ev = "begin"
       THEN /\ s' = SessionInit(Files, Range(e.pre))
            /\ versions' = e.versions
       ELSE LET t == IF Faults(s, e.op, Cat) = {} THEN Effect(s, e.op, Cat) ELSE s IN
            /\ IF Enabled(s, e.op, Cat) THEN Report(l, JudgeCall(e, t)) ELSE Report(l, {<<"*", "call-not-possible">>})
            /\ s' = t
            /\ UNCHANGED versions
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
