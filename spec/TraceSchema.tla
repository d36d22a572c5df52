---------------------------- MODULE TraceSchema ----------------------------
(* Judges recorded SuperDARN writes and reads by SDarnSchema and DmapFormat. *)
EXTENDS TraceDmap

S == INSTANCE SDarnSchema
Tables == JsonDeserialize("sdarn_tables.json")

ErrorKind == ("SuperDARNExtraFieldError" :> "extra") @@ ("SuperDARNFieldMissingError" :> "missing")
             @@ ("SuperDARNDataFormatTypeError" :> "type")
LetterOf == (1 :> "c") @@ (2 :> "h") @@ (3 :> "i") @@ (4 :> "f") @@ (8 :> "d") @@ (9 :> "s") @@ (10 :> "q")
            @@ (16 :> "B") @@ (17 :> "H") @@ (18 :> "I") @@ (19 :> "Q")

ToSetOf(q) == { q[i] : i \in 1..Len(q) }

(* the refusal names a fault the first offending record has, that record, and the fields *)
JudgeRefusal(p, e, groups, k) ==
    Clause(p, "refuses-what-is-not-allowed", e.outcome # "ok")
    \cup IF e.outcome = "ok" THEN {}
         ELSE IF e.outcome \notin DOMAIN ErrorKind THEN {<<p, "refused-with-field-error">>}
         ELSE LET A == S!Admissible(groups, e.types[k])
                  kd == ErrorKind[e.outcome]
              IN  Clause(p, "names-first-offending-record", e.recno = k - 1)
                  \cup Clause(p, "names-a-fault-it-has", \E v \in A : v.kind = kd)
                  \cup Clause(p, "names-exactly-the-fields",
                              \A v \in A : v.kind = kd => v.fields = ToSetOf(e.fields))
                  \cup Clause(p, "names-required-type",
                              kd = "type" => \A f \in DOMAIN e.req : f \in S!FieldsOf(groups) /\ e.req[f] = S!TypeOf(groups, f))

JudgeSWrite(e) ==
    LET groups == Tables[e.fmt]   k == S!FirstBad(groups, e.types) IN
    Clause("P05", "refused-write-leaves-the-file", e.outcome = "ok" \/ e.left) \cup
    IF k = 0 THEN Clause("P07", "accepts-what-is-allowed", e.outcome = "ok")
                  \cup Clause("P07", "file-holds-the-records", e.outcome = "ok" => e.written)
    ELSE JudgeRefusal("P07", e, groups, k)

JudgeSRead(e) ==
    LET groups == Tables[e.fmt]   k == S!FirstBad(groups, e.types) IN
    IF k = 0 THEN
        Clause("P08", "accepts-what-is-allowed", e.outcome = "ok")
        \cup IF e.outcome # "ok" THEN {}
             ELSE Clause("P08", "fields-and-types-kept",
                         /\ Len(e.seen) = Len(e.types)
                         /\ \A i \in 1..Len(e.types) :
                               /\ DOMAIN e.seen[i] = DOMAIN e.types[i]
                               /\ \A f \in DOMAIN e.seen[i] : /\ e.seen[i][f] \in DOMAIN LetterOf
                                                             /\ LetterOf[e.seen[i][f]] = e.types[i][f])
                  \cup IF e.full = 0 THEN {}
                       ELSE Clause("P08", "values-kept", SameRecs(e.got, Stored(e.recs)))
                            \cup Clause("P08", "dictionary-values-kept", SamePlainRecs(e.plain, Stored(e.recs)))
    ELSE JudgeRefusal("P08", e, groups, k)

JudgeS(e) == CASE e.ev = "swrite" -> JudgeSWrite(e)
               [] e.ev = "sread" -> JudgeSRead(e)

SNext == /\ l <= Len(Trace)
         /\ Report(l, JudgeS(Trace[l]))
         /\ l' = l + 1
SSpec == TraceInit /\ [][SNext]_l
=============================================================================
