--------------------------- MODULE TraceBorealis ---------------------------
(* Judges recorded reads, writes and restructurings of Borealis data by      *)
(* BorealisFormat.  Each event has the site records the case is about; every *)
(* observation of it is compared with those records or their arrays.         *)
EXTENDS TraceBase

VARIABLE l

B == INSTANCE BorealisFormat
Tables == JsonDeserialize("borealis_tables.json")

SameNames(e, o) == o.names = [i \in 1..Len(e.times) |-> B!KeyOf(e.times[i])]

JudgeObs(e, F, o) ==
    Clause(o.prop, o.what \o ":succeeds", o.outcome = "ok")
    \cup Clause(o.prop, o.what \o ":changes-no-input", o.kept)
    \cup IF o.outcome # "ok" THEN {}
         ELSE (IF o.as = "records"
               THEN Clause(o.prop, o.what \o ":same-record-names", SameNames(e, o))
                    \cup Clause(o.prop, o.what \o ":same-records", B!SameRecords(e.recs, o.recs))
               ELSE Clause(o.prop, o.what \o ":the-arrays-of-the-records",
                           B!SameRecord(B!ToArrays(F, e.shape, e.recs), o.arrs)))
              \cup (IF "structure" \notin DOMAIN o THEN {}
                    ELSE Clause("P14", o.what \o ":structure", o.structure = o.source)
                         \cup Clause("P14", o.what \o ":version", o.version = e.version)
                         \cup Clause("P14", o.what \o ":record-names",
                                     o.record_names = [i \in 1..Len(e.times) |-> B!KeyOf(e.times[i])]))

(* the generated case itself is what the specification says it is *)
WellFormed(e) == e.names = [i \in 1..Len(e.times) |-> B!KeyOf(e.times[i])]

Judge(e) ==
    LET F == Tables[e.table][e.kind] IN
    IF ~WellFormed(e) THEN {<<"*", "machinery-case">>}
    ELSE UNION { JudgeObs(e, F, e.obs[i]) : i \in 1..Len(e.obs) }

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
