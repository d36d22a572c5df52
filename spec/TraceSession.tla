---------------------------- MODULE TraceSession ----------------------------
(***************************************************************************)
(* Replays recorded sessions in DmapSession: after every call the outcome,   *)
(* the bytes handed out, every file and the caller's records must be what   *)
(* the specification says.  A session starts with a "begin" event carrying  *)
(* the record lists and their encodings.                                    *)
(***************************************************************************)
EXTENDS DmapSession, TraceBase

F == INSTANCE DmapFormat

VARIABLES l, s, cat, start
tvars == <<l, s, cat, start>>

Label(c, ct) == IF c.st = "data"
                THEN LET id == ListOf(c, ct) IN IF id = NONE THEN "part" ELSE id
                ELSE c.st
OutLabel(out, ct) == IF out = << >> THEN NONE ELSE Label(Data(out), ct)

JudgeBegin(e) ==
    (* the encodings the harness compares files with are the specification's *)
    UNION { Clause("*", "harness-encoding", e.enc[id].bytes = F!EncAll(e.enc[id].recs)) : id \in DOMAIN e.enc }

JudgeCall(e, t, ct, heap0) ==
    LET isread == e.op.op = "read"   iswrite == e.op.op \in {"writefile", "writestream"}
        p == IF iswrite \/ e.op.op = "newwriter" THEN "P05" ELSE "P04" IN
    Clause(p, "accepted-or-refused:" \o e.op.op, (e.res = "ok") <=> (t.last.res = "ok"))
    \cup Clause("P05", "no-filename-refusal", t.last.res = "no-filename" => e.res = "FilenameRequiredError")
    \cup Clause("P05", "files", \A f \in DOMAIN e.disk : e.disk[f] = Label(t.disk[f], ct))
    \cup Clause("P04", "callers-records-untouched", e.op.op # "change" => e.heap = heap0)
    \cup Clause("P04", "earlier-output-untouched", \A i \in 1..Len(e.held) : e.held[i])
    \cup Clause("P04", "stream-is-own-records",
                (e.op.op = "writestream" /\ e.res = "ok" /\ t.last.res = "ok") => e.out = OutLabel(t.last.out, ct))
    \cup Clause("P04", "file-is-own-records",
                (e.op.op = "writefile" /\ e.res = "ok" /\ t.last.res = "ok" /\ t.last.out # << >>)
                   => \E f \in DOMAIN e.disk : e.disk[f] = OutLabel(t.last.out, ct))
    \cup Clause("P04", "read-gives-the-records",
                (isread /\ e.res = "ok" /\ t.last.res = "ok") => e.out = t.last.got)

TInit == l = 1 /\ s = SessionInit({}, {}, {}, {}, {}) /\ cat = << >> /\ start = << >>

TNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
       IF e.ev = "begin"
       THEN /\ Report(l, JudgeBegin(e))
            /\ s' = SessionInit({"f1", "f2", "nodir"}, {"w1", "w2"}, {"r1", "r2"}, DOMAIN e.cat, { e.prefilled[i] : i \in 1..Len(e.prefilled) })
            /\ cat' = e.cat
            /\ start' = e.heap
       ELSE LET t == IF Enabled(s, e.op) THEN Do(s, e.op, cat) ELSE s IN
            /\ IF Enabled(s, e.op) THEN Report(l, JudgeCall(e, t, cat, start)) ELSE Report(l, {<<"*", "call-not-possible">>})
            /\ s' = t
            /\ start' = IF e.op.op = "change" THEN e.heap ELSE start   \* the caller's own doing
            /\ UNCHANGED cat
TSpec == TInit /\ [][TNext]_tvars
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
