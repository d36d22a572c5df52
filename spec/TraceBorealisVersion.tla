------------------------- MODULE TraceBorealisVersion -------------------------
(* Judges recorded operations on data marked with all sorts of versions.     *)
EXTENDS TraceBase

VARIABLE l

V == INSTANCE BorealisVersion
C == INSTANCE BorealisChecks
Formats == JsonDeserialize("borealis_tables.json")

Schema(name, kind, structure) ==
    IF structure = "site" THEN C!SiteSchema(Formats[name][kind]) ELSE C!ArraySchema(Formats[name][kind])
Fits(e) == LET v == V!VersionOf(e.h) IN
           V!Known(v) /\ Schema(V!TableName(v), e.kind, e.structure) = Schema(e.layout, e.kind, e.structure)

Judge(e) ==
    LET errs == V!Errors(e.op, e.h, Fits(e), e.told)
        what(x) == "version:" \o e.op \o ":" \o x
    IN  Clause("P14", what("outcome"), IF errs = {} THEN e.outcome = "ok" ELSE e.outcome \in errs)
        \cup (IF e.outcome = "ok"
              THEN Clause("P14", what("names-the-version"), e.version = V!Text(V!VersionOf(e.h)))
                   \cup Clause("P14", what("same-data"), e.same)
              ELSE Clause("P17", what("refused-leaves-nothing"), ~e.left))
        \cup Clause("P17", what("changes-no-input"), e.kept)

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
