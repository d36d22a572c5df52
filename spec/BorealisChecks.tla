--------------------------- MODULE BorealisChecks ---------------------------
(***************************************************************************)
(* What Borealis readers and writers accept, and how they say what is wrong. *)
(*                                                                         *)
(* A field is seen as <<kind, type, lead>>: kind num, text, arr or other,   *)
(* element type, and the length of the first dimension (arrays; else 0).    *)
(* Site data: a sequence of records (functions from names to fields); array *)
(* data: one such function.                                                *)
(*                                                                         *)
(* A verdict is [cls, missing, extra, wrong]; for site data the last three  *)
(* map record numbers to field sets, for array data they are field sets.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Attr(t) == IF t = "str" THEN <<"text", "str">> ELSE <<"num", t>>
Arr(t) == <<"arr", IF t = "str" THEN "str_" ELSE t>>
Over(attrs, arrays, f) == IF f \in DOMAIN attrs THEN Attr(attrs[f]) ELSE Arr(arrays[f])

(* published kind and type of every field *)
SiteSchema(F) == [f \in DOMAIN F.site_attrs \cup DOMAIN F.site_arrays |-> Over(F.site_attrs, F.site_arrays, f)]
ArraySchema(F) == [f \in DOMAIN F.array_attrs \cup DOMAIN F.array_arrays |-> Over(F.array_attrs, F.array_arrays, f)]
(* fields with one entry per record in array data *)
PerRecord(F) == DOMAIN F.unshared \cup DOMAIN F.counts

Is(x, kt) == x[1] = kt[1] /\ x[2] = kt[2]

Missing(Sch, d) == DOMAIN Sch \ DOMAIN d
Extra(Sch, d) == DOMAIN d \ DOMAIN Sch
Wrong(Sch, d) == { f \in DOMAIN Sch \cap DOMAIN d : ~Is(d[f], Sch[f]) }
Good(Sch, d) == Missing(Sch, d) = {} /\ Extra(Sch, d) = {} /\ Wrong(Sch, d) = {}

HashUnusable(d) == IF "borealis_git_hash" \in DOMAIN d THEN d["borealis_git_hash"][1] # "text" ELSE TRUE

(* --- site data ----------------------------------------------------------- *)
SiteGood(Sch, recs) == recs # <<>> /\ \A i \in 1..Len(recs) : Good(Sch, recs[i])

(* the error says no more than the truth and leaves out no bad record *)
SiteTruth(Sch, recs, v) ==
    LET Bad == { i \in 1..Len(recs) : ~Good(Sch, recs[i]) } IN
    /\ \A i \in DOMAIN v.missing : i \in Bad /\ v.missing[i] = Missing(Sch, recs[i]) /\ v.missing[i] # {}
    /\ \A i \in DOMAIN v.extra : i \in Bad /\ v.extra[i] = Extra(Sch, recs[i]) /\ v.extra[i] # {}
    /\ \A i \in DOMAIN v.wrong : i \in Bad /\ v.wrong[i] = Wrong(Sch, recs[i]) /\ v.wrong[i] # {}
    /\ Bad = DOMAIN v.missing \cup DOMAIN v.extra \cup DOMAIN v.wrong

SiteAcceptable(Sch, recs, v) ==
    IF SiteGood(Sch, recs) THEN v.cls = "ok"
    ELSE \/ v.cls = "BorealisBadRecordsError" /\ recs # <<>> /\ SiteTruth(Sch, recs, v)
         \/ v.cls = "BorealisStructureError"
            /\ \/ recs = <<>>
               \/ HashUnusable(recs[1])
               \/ \E i \in 1..Len(recs) : Missing(Sch, recs[i]) = DOMAIN Sch

(* --- array data ---------------------------------------------------------- *)
Uneven(PR, d) == \E f, g \in PR \cap DOMAIN d : d[f][3] # d[g][3]
ArrayGood(Sch, PR, d) == Good(Sch, d) /\ ~Uneven(PR, d)

(* arrays where single values belong, or the other way round *)
Misplaced(Sch, d) == { f \in DOMAIN Sch \cap DOMAIN d : (d[f][1] = "arr") # (Sch[f][1] = "arr") }

ArrayAcceptable(Sch, PR, d, v) ==
    IF ArrayGood(Sch, PR, d) THEN v.cls = "ok"
    ELSE \/ v.cls = "BorealisFieldMissingError" /\ v.missing = Missing(Sch, d) /\ v.missing # {}
         \/ v.cls = "BorealisExtraFieldError" /\ v.extra = Extra(Sch, d) /\ v.extra # {}
         \/ v.cls = "BorealisDataFormatTypeError" /\ v.wrong # {}
            /\ v.wrong \subseteq Wrong(Sch, d) /\ Wrong(Sch, d) \ Misplaced(Sch, d) \subseteq v.wrong
         \/ v.cls = "BorealisNumberOfRecordsError" /\ Uneven(PR, d)
         \/ v.cls = "BorealisStructureError"
            /\ (HashUnusable(d) \/ Misplaced(Sch, d) # {} \/ Missing(Sch, d) = DOMAIN Sch)

(* --- how it is decided, field check by field check ----------------------- *)
NoV == [cls |-> "ok", missing |-> {}, extra |-> {}, wrong |-> {}]
Map(recs, P(_), G(_)) == [i \in { j \in 1..Len(recs) : P(recs[j]) } |-> G(recs[i])]
SiteVerdict(Sch, recs) ==
    LET M(d) == Missing(Sch, d) # {}
        X(d) == ~M(d) /\ Extra(Sch, d) # {}
        W(d) == ~M(d) /\ ~X(d) /\ Wrong(Sch, d) # {}
    IN  IF recs = <<>> THEN [NoV EXCEPT !.cls = "BorealisStructureError"]
        ELSE IF HashUnusable(recs[1]) THEN [NoV EXCEPT !.cls = "BorealisStructureError"]
        ELSE IF \E i \in 1..Len(recs) : Missing(Sch, recs[i]) = DOMAIN Sch
        THEN [NoV EXCEPT !.cls = "BorealisStructureError"]
        ELSE IF SiteGood(Sch, recs) THEN NoV
        ELSE [cls |-> "BorealisBadRecordsError",
              missing |-> Map(recs, M, LAMBDA d : Missing(Sch, d)),
              extra |-> Map(recs, X, LAMBDA d : Extra(Sch, d)),
              wrong |-> Map(recs, W, LAMBDA d : Wrong(Sch, d))]
ArrayVerdict(Sch, PR, d) ==
    IF HashUnusable(d) \/ Missing(Sch, d) = DOMAIN Sch THEN [NoV EXCEPT !.cls = "BorealisStructureError"]
    ELSE IF Missing(Sch, d) # {} THEN [NoV EXCEPT !.cls = "BorealisFieldMissingError", !.missing = Missing(Sch, d)]
    ELSE IF Extra(Sch, d) # {} THEN [NoV EXCEPT !.cls = "BorealisExtraFieldError", !.extra = Extra(Sch, d)]
    ELSE IF Misplaced(Sch, d) # {} THEN [NoV EXCEPT !.cls = "BorealisStructureError"]
    ELSE IF Wrong(Sch, d) # {} THEN [NoV EXCEPT !.cls = "BorealisDataFormatTypeError", !.wrong = Wrong(Sch, d)]
    ELSE IF Uneven(PR, d) THEN [NoV EXCEPT !.cls = "BorealisNumberOfRecordsError"]
    ELSE NoV
=============================================================================
