------------------------------ MODULE MCSchema ------------------------------
(***************************************************************************)
(* Every record of every SuperDARN file type that is built from whole field *)
(* groups and then edited up to MaxEdits times: a field dropped, a foreign   *)
(* field added, a field given another type.                                 *)
(***************************************************************************)
EXTENDS SDarnSchema, Json

CONSTANTS MaxEdits, Formats, Emitting
Tables == JsonDeserialize("sdarn_tables.json")

TypeLetters == {"c", "h", "i", "f", "d", "s"}
OtherTypes(t) == CASE t = "c" -> {"B"} [] t = "h" -> {"i", "H"} [] t = "i" -> {"h", "I", "q"} [] t = "f" -> {"d", "i"}
                   [] t = "d" -> {"f"} [] t = "s" -> {"c"}

VARIABLES fmt, groups, rec, edits
vars == <<fmt, groups, rec, edits>>

Whole(t, gs) ==
    LET fs == UNION { DOMAIN t[i].fields : i \in gs }
    IN  [f \in fs |-> TypeOf(t, f)]

Init == /\ fmt \in Formats
        /\ groups \in SUBSET (1..Len(Tables[fmt]))
        /\ rec = Whole(Tables[fmt], groups)
        /\ edits = {}

Foreign == {"not.a.field", "dummy"}

Drop == \E f \in DOMAIN rec :
          /\ rec' = [x \in DOMAIN rec \ {f} |-> rec[x]]
          /\ edits' = edits \cup {[kind |-> "drop", f |-> f, t |-> ""]}
Retype == \E f \in DOMAIN rec :
          /\ \A e \in edits : e.f # f
          /\ \E t \in OtherTypes(rec[f]) :
                /\ rec' = [rec EXCEPT ![f] = t]
                /\ edits' = edits \cup {[kind |-> "retype", f |-> f, t |-> t]}
Add == \E f \in Foreign \ DOMAIN rec :
          /\ rec' = (f :> "h") @@ rec
          /\ edits' = edits \cup {[kind |-> "add", f |-> f, t |-> "h"]}
(* a field of a group that is not there as a whole *)
Insert == \E f \in FieldsOf(Tables[fmt]) \ DOMAIN rec :
          /\ \A e \in edits : e.f # f
          /\ rec' = (f :> TypeOf(Tables[fmt], f)) @@ rec
          /\ edits' = edits \cup {[kind |-> "insert", f |-> f, t |-> TypeOf(Tables[fmt], f)]}

Next == /\ Cardinality(edits) < MaxEdits
        /\ Drop \/ Retype \/ Add \/ Insert
        /\ UNCHANGED <<fmt, groups>>
Spec == Init /\ [][Next]_vars

T == Tables[fmt]
ChecksAreTheRule ==
    /\ (WriterCheck(T, rec).kind = "ok") <=> Allowed(T, rec)
    /\ (ReaderCheck(T, rec).kind = "ok") <=> Allowed(T, rec)
    /\ {WriterCheck(T, rec), ReaderCheck(T, rec)} \subseteq Admissible(T, rec)
WholeGroupsAllowed == edits = {} => Allowed(T, rec)
NothingForeign == Allowed(T, rec) => DOMAIN rec \cap Foreign = {}
NamesCulprits ==
    LET v == WriterCheck(T, rec) IN
    /\ v.kind = "extra" => v.fields \cap FieldsOf(T) = {}
    /\ v.kind = "missing" => v.fields \subseteq FieldsOf(T) \ DOMAIN rec
    /\ v.kind = "type" => v.fields \subseteq DOMAIN rec
Emit == Emitting => PrintT("CASE " \o ToJson([fmt |-> fmt, groups |-> groups, edits |-> edits]))
=============================================================================
