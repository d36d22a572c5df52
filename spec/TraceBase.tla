------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Common part of the trace specifications.  A trace is a sequence of       *)
(* events recorded from the real code (JSON lines, file name in the        *)
(* environment variable TRACE).  Every event is consumed in one step, and  *)
(* the clauses of the specification it breaks are printed as               *)
(*      VIOL <line> <property> <clause>                                    *)
(* so the verdict is total: an event is never merely "not enabled".        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

Report(line, bad) ==
    \A v \in bad : PrintT("VIOL " \o ToString(line) \o " " \o v[1] \o " " \o v[2])

(* clause: the pair is in the result when the condition does not hold *)
Clause(prop, name, cond) == IF cond THEN {} ELSE {<<prop, name>>}
=============================================================================
