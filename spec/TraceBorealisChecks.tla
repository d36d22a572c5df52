------------------------ MODULE TraceBorealisChecks ------------------------
(* Judges recorded reads and writes of damaged and undamaged Borealis data   *)
(* by BorealisChecks.                                                       *)
EXTENDS TraceBase

VARIABLE l

C == INSTANCE BorealisChecks
Tables == JsonDeserialize("borealis_tables.json")

SetOf(q) == { q[i] : i \in 1..Len(q) }
(* the kinds of a record: a sequence of <<name, kind, type, lead>> *)
RecOf(q) == [f \in { q[i][1] : i \in 1..Len(q) } |->
                LET i == CHOOSE j \in 1..Len(q) : q[j][1] = f IN <<q[i][2], q[i][3], q[i][4]>>]
MapOf(q) == [r \in { q[i][1] : i \in 1..Len(q) } |-> SetOf(q[CHOOSE j \in 1..Len(q) : q[j][1] = r][2])]

Judge(e) ==
    LET F == Tables[e.table][e.kind]
        recs == [i \in 1..Len(e.recs) |-> RecOf(e.recs[i])]
        site == e.form = "site"
        Sch == IF site THEN C!SiteSchema(F) ELSE C!ArraySchema(F)
        v == IF site THEN [cls |-> e.outcome, missing |-> MapOf(e.missing), extra |-> MapOf(e.extra), wrong |-> MapOf(e.wrong)]
             ELSE [cls |-> e.outcome, missing |-> SetOf(e.missing), extra |-> SetOf(e.extra), wrong |-> SetOf(e.wrong)]
        good == IF site THEN C!SiteGood(Sch, recs) ELSE C!ArrayGood(Sch, C!PerRecord(F), recs[1])
        acc == IF site THEN C!SiteAcceptable(Sch, recs, v) ELSE C!ArrayAcceptable(Sch, C!PerRecord(F), recs[1], v)
        \* restructuring says what is wrong in words only
        refused == ~good /\ v.cls \in {"BorealisRestructureError", "BorealisStructureError"}
        fine == IF e.dir = "restructure" THEN refused \/ (good /\ v.cls = "ok") ELSE acc \/ (~good /\ ~e.told /\ v.cls = "BorealisStructureError")
    IN  Clause("P13", e.dir \o (IF good THEN ":accepts-good-data" ELSE ":tells-what-is-wrong"), fine)
        \cup (IF e.dir = "restructure" THEN Clause("P17", e.dir \o ":refused-exactly-if-bad", fine) ELSE {})
        \cup Clause("P17", e.dir \o ":changes-no-input", e.kept)
        \cup (IF e.dir = "read" THEN {}
              ELSE Clause("P17", e.dir \o ":target", IF good THEN e.file = "new" ELSE e.file = "same"))

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
