------------------------------ MODULE TraceDmap ------------------------------
(* Judges recorded executions of DmapWrite and DmapRead by DmapFormat.      *)
EXTENDS DmapStructure, TraceBase

(* the kind of Python value a reader hands out for a scalar / array of a type *)
ScalarKind == (CHAR :> "int8") @@ (SHORT :> "int16") @@ (INT :> "int") @@ (FLOAT :> "float")
              @@ (DOUBLE :> "float64") @@ (TEXT :> "str") @@ (LONG :> "int64") @@ (UCHAR :> "uint8")
              @@ (USHORT :> "uint16") @@ (UINT :> "uint32") @@ (ULONG :> "uint64")
ArrayKind == (CHAR :> "int8") @@ (SHORT :> "int16") @@ (INT :> "int32") @@ (FLOAT :> "float32")
             @@ (DOUBLE :> "float64") @@ (LONG :> "int64") @@ (UCHAR :> "uint8")
             @@ (USHORT :> "uint16") @@ (UINT :> "uint32") @@ (ULONG :> "uint64")

(* exceptions a reader may raise on bad data; "E:" marks the ValueError family *)
DocumentedReadErrors == {"EmptyFileError", "CursorError", "DmapDataError", "DmapDataTypeError",
                         "ZeroByteError", "NegativeByteError", "MismatchByteError", "E:ValueError"}

(* a record as handed out: DMAP structures and plain dictionary side by side *)
SameStruct(got, f) ==
    /\ got.name = f.name /\ got.key = f.name /\ got.type = f.type /\ got.shape = f.shape /\ got.vshape = f.shape
    /\ got.dim = Len(f.shape)
    /\ SameData([shape |-> got.shape, type |-> got.type, data |-> got.data], f)
SameStructs(got, fs) == Len(got) = Len(fs) /\ \A i \in 1..Len(fs) : SameStruct(got[i], fs[i])

SamePlain(got, f) ==
    /\ got.name = f.name /\ got.shape = f.shape
    /\ got.kind = (IF f.shape = << >> THEN ScalarKind[f.type] ELSE ArrayKind[f.type])
    /\ SameData([shape |-> got.shape, type |-> f.type, data |-> got.data], f)
SamePlains(got, fs) == Len(got) = Len(fs) /\ \A i \in 1..Len(fs) : SamePlain(got[i], fs[i])

SameRecs(got, fss) == Len(got) = Len(fss) /\ \A i \in 1..Len(fss) : SameStructs(got[i], fss[i])
SamePlainRecs(got, fss) == Len(got) = Len(fss) /\ \A i \in 1..Len(fss) : SamePlains(got[i], fss[i])

(* what went in, in the order the format stores it *)
Stored(rs) == [i \in 1..Len(rs) |-> rs[i].scalars \o rs[i].arrays]

JudgeWrite(e) ==
    Clause("P02", "write-accepted", e.outcome = "ok")
    \cup IF e.outcome # "ok" THEN {}
         ELSE LET enc == EncAll(e.recs) IN
              Clause("P02", "stream-bytes", e.out = enc)
              \cup Clause("P02", "file-bytes", e.file = enc)

JudgeRoundTrip(e) ==
    IF ~ \A i \in 1..Len(e.recs) : WellFormed(e.recs[i]) THEN {<<"P01", "driver-made-ill-formed-input">>}
    ELSE Clause("P01", "write-and-read-accepted", e.outcome = "ok")
         \cup IF e.outcome # "ok" THEN {}
              ELSE Clause("P01", "structures", SameRecs(e.got, Stored(e.recs)))
                   \cup Clause("P01", "dictionaries", SamePlainRecs(e.plain, Stored(e.recs)))

JudgeRead(e) ==
    LET d == Decode(e.b) IN
    IF d.phase = "done"
    THEN LET fss == [i \in 1..Len(d.recs) |-> Fields(d.recs[i])] IN
         Clause("P03", "accepts-consistent-data", e.outcome = "ok")
         \cup IF e.outcome # "ok" THEN {}
              ELSE Clause("P03", "returns-what-layout-says", SameRecs(e.got, fss))
                   \cup Clause("P03", "dictionaries", SamePlainRecs(e.plain, fss))
    ELSE Clause("P03", "refuses-inconsistent-data", e.outcome # "ok")
         \cup Clause("P03", "documented-error", e.outcome = "ok" \/ e.outcome \in DocumentedReadErrors)

(* a record with a structure whose description may not be what its value is *)
JudgeStructure(e) ==
    LET ok == AsDescribed(e.d)   rec == RecordWith(e.d) IN
    Clause("P01", "accepts-what-is-as-described", ok => e.outcome = "ok")
    \cup Clause("P01", "refuses-what-is-not-as-described", ok \/ e.outcome # "ok")
    \cup Clause("P05", "file-untouched", e.outcome = "ok" \/ e.untouched)
    \cup IF ~ok \/ e.outcome # "ok" THEN {}
         ELSE Clause("P02", "stream-bytes", e.out = EncRecord(rec))
              \cup Clause("P02", "file-bytes", e.file = EncRecord(rec))
              \cup Clause("P01", "structures", SameRecs(e.got, Stored(<<rec>>)))
              \cup Clause("P01", "dictionaries", SamePlainRecs(e.plain, Stored(<<rec>>)))

Judge(e) == CASE e.ev = "structure" -> JudgeStructure(e)
              [] e.ev = "write" -> JudgeWrite(e)
              [] e.ev = "roundtrip" -> JudgeRoundTrip(e)
              [] e.ev = "read" -> JudgeRead(e)

VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace)
             /\ Report(l, Judge(Trace[l]))
             /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
