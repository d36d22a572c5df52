--------------------------- MODULE BorealisVersion ---------------------------
(***************************************************************************)
(* Which format a software version stands for.                             *)
(*                                                                         *)
(* The git hash of a file (v0.6.1-12-gabc1234) is seen as its parts between *)
(* dashes, each the sequence of its parts between dots:                     *)
(*      << <<"v0","6","1">>, <<"12">>, <<"gabc1234">> >>                   *)
(* The version is the first two dotted parts of the first; patch revisions  *)
(* and what git appends make no difference.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Min(a, b) == IF a < b THEN a ELSE b
VersionOf(h) == SubSeq(h[1], 1, Min(2, Len(h[1])))

(* the versions with formats, and the table that holds the format of each *)
Tables == [i \in {"2", "3", "4"} |-> "v0.4"]
TableName(v) == IF v[2] \in DOMAIN Tables THEN Tables[v[2]] ELSE v[1] \o "." \o v[2]
Known(v) == Len(v) = 2 /\ v[1] = "v0" /\ v[2] \in {"2", "3", "4", "5", "6", "7"}

Text(v) == IF Len(v) = 1 THEN v[1] ELSE v[1] \o "." \o v[2]

(* Errors that may report an operation on data laid out as version table     *)
(* "layout" and marked with h; {}: it succeeds.                             *)
(* fits: the data is also what the format of h wants.                       *)
(* told: "right", "wrong" or "none" (which structure the data has)          *)
FieldErrors == {"BorealisBadRecordsError", "BorealisFieldMissingError", "BorealisExtraFieldError",
                "BorealisDataFormatTypeError", "BorealisNumberOfRecordsError", "BorealisStructureError"}
Errors(op, h, fits, told) ==
    LET v == VersionOf(h) IN
    (IF h = << <<"">> >> THEN {"BorealisVersionError", "BorealisStructureError"}     \* none recorded
     ELSE IF ~Known(v) THEN {"BorealisVersionError"}
     ELSE IF fits THEN {}
     ELSE IF op = "restructure" THEN {"BorealisRestructureError"} ELSE FieldErrors)
    \cup (IF told = "wrong" /\ op # "restructure" THEN {"BorealisStructureError"} ELSE {})
=============================================================================
