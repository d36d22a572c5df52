-------------------------- MODULE TraceConversion --------------------------
(* Judges recorded dict2dmap / dmap2dict calls by DmapConversion.           *)
EXTENDS DmapConversion, TraceBase

Drop(s) == [name |-> s.name, key |-> s.key, isarray |-> s.isarray, code |-> s.code, fmt |-> s.fmt,
            shape |-> s.shape, dim |-> s.dim, val |-> s.val]
Each(op(_), rs) == [i \in 1..Len(rs) |-> op(rs[i])]

Judge(e) ==
    Clause("P06", "accepted", e.outcome = "ok")
    \cup IF e.outcome # "ok" THEN {}
         ELSE Clause("P06", "structures", e.structs = [i \in 1..Len(e.input) |-> ToStructs(e.input[i])])
              \cup Clause("P06", "structures-hold-the-array",
                          e.vshapes = [i \in 1..Len(e.input) |-> [j \in 1..Len(e.input[i]) |-> e.input[i][j].shape]])
              \cup Clause("P06", "back-to-dictionaries",
                          e.back = [i \in 1..Len(e.input) |-> ToPlains(ToStructs(e.input[i]), e.input[i])])
              \cup Clause("P06", "structures-again", e.again = e.structs)
              \cup Clause("P06", "input-untouched", e.inputafter = e.raw /\ e.structsafter = e.structs)

VARIABLE l
TraceInit == l = 1
TraceNext == l <= Len(Trace) /\ Report(l, Judge(Trace[l])) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
