------------------------ MODULE TraceBorealisConvert ------------------------
(* Judges recorded conversions by BorealisConvert.                          *)
EXTENDS TraceBase

VARIABLE l

V == INSTANCE BorealisConvert
S == INSTANCE SDarnSchema
Groups == JsonDeserialize("sdarn_tables.json")

TypesOf(r) == [f \in DOMAIN r |-> r[f].t]
Shape(type, R, f) ==     \* of the array fields
    CASE f \in {"acfd", "xcfd"} -> <<R.nrange, R.lagsdim - 1, 2>>
      [] f = "ltab" -> <<Len(R.lags), 2>>
      [] f \in {"tsc", "tus", "tatten", "tnoise", "toff", "tsze"} -> <<Len(R.times)>>
      [] f = "data" -> <<V!Chunk(R) * Len(R.times)>>
      [] f = "ptab" -> <<Len(R.pulses)>>
      [] f \in {"slist", "pwr0"} -> <<R.nrange>>
      [] OTHER -> <<>>

Samples == {"data", "acfd", "xcfd", "pwr0"}      \* judged as P16
Places == {"toff", "tsze", "chnnum", "smpnum", "slist", "nrang", "mplgs"}     \* say where samples are: both
Apart == Samples \cup {"tsc", "tus"}

JudgeRecord(o, R, b, r) ==
    LET type == o.type
        want == IF type = "iqdat" THEN V!Iqdat(R, b) ELSE V!Rawacf(R, b)
        P(f) == IF f \in Samples THEN {"P16"} ELSE IF f \in Places THEN {"P15", "P16"} ELSE {"P15"}
        Tell(f, x) == IF x THEN {} ELSE { <<p, o.what \o ":" \o f>> : p \in P(f) }
    IN  Clause("P15", o.what \o ":valid-record", S!Allowed(Groups[type], TypesOf(r)) /\ \A f \in DOMAIN r : r[f].own)
        \cup UNION { IF f \notin DOMAIN r THEN Tell(f, FALSE)
                     ELSE Tell(f, r[f].v = want[f] /\ r[f].sh = Shape(type, R, f))
                     : f \in DOMAIN want }
        \cup (IF type = "iqdat"
              THEN Clause("P15", o.what \o ":sequence-times", {"tsc", "tus"} \subseteq DOMAIN r
                             /\ V!TimesOk(R, r["tsc"].v, r["tus"].v))
                   \cup Clause("P16", o.what \o ":data", "data" \in DOMAIN r
                             /\ V!IqDataOk(R, b, r["data"].v) /\ r["data"].sh = Shape(type, R, "data"))
              ELSE Clause("P16", o.what \o ":pwr0", "pwr0" \in DOMAIN r
                             /\ V!PowerOk(R, b, r["pwr0"].v) /\ r["pwr0"].sh = Shape(type, R, "pwr0")))

JudgeOut(e, o) ==
    LET Rs == e.recs
        type == o.type
        possible == \A i \in 1..Len(Rs) : V!Convertible(type, Rs[i])
        ps == V!Pairs([i \in 1..Len(Rs) |-> Len(Rs[i].beams)])
        refusal == IF type = "iqdat" THEN "BorealisConvert2IqdatError" ELSE "BorealisConvert2RawacfError"
    IN  Clause("P17", o.what \o ":changes-no-input", o.kept) \cup
        IF ~possible
        THEN Clause("P17", o.what \o ":refused", o.outcome = refusal)
             \cup Clause("P17", o.what \o ":refused-leaves-target", o.target = "same")
        ELSE IF o.outcome # "ok" THEN {<<"P15", o.what \o ":succeeds">>, <<"P16", o.what \o ":succeeds">>}
        ELSE Clause("P15", o.what \o ":one-record-per-record-and-beam", Len(o.recs) = Len(ps))
             \cup Clause("P15", o.what \o ":file-is-memory", o.target = o.memory /\ o.dict = o.memory)
             \cup UNION { JudgeRecord(o, Rs[ps[i][1]], ps[i][2], o.recs[i]) : i \in 1..(IF Len(o.recs) < Len(ps) THEN Len(o.recs) ELSE Len(ps)) }

Judge(e) == UNION { JudgeOut(e, e.outs[i]) : i \in 1..Len(e.outs) }

TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
