-------------------------- MODULE MCBorealisChecks --------------------------
(***************************************************************************)
(* Data of a small format, damaged step by step.  The step-by-step verdict  *)
(* is acceptable by the declarative rules for every damage, and no other     *)
(* verdict hides a fault.  The damages are emitted for replay on the fields *)
(* of the real formats.                                                     *)
(***************************************************************************)
EXTENDS BorealisChecks, Json

CONSTANTS MaxRec, MaxSteps, Emit

VARIABLES form, recs, steps

(* attr: a number; data: an array shared by the records; per: an array with one entry per record *)
F == [site_attrs |-> [borealis_git_hash |-> "str", attr |-> "int64"],
      site_arrays |-> [data |-> "uint32", per |-> "float32"],
      array_attrs |-> [borealis_git_hash |-> "str", attr |-> "int64"],
      array_arrays |-> [data |-> "uint32", per |-> "float32", count |-> "uint32"],
      unshared |-> [per |-> <<>>], counts |-> [count |-> "x"]]
Sch == IF form = "site" THEN SiteSchema(F) ELSE ArraySchema(F)
PR == PerRecord(F)

Whole(S, n) == [f \in DOMAIN S |-> <<S[f][1], S[f][2], IF S[f][1] = "arr" THEN n ELSE 0>>]

Init == /\ steps = <<>>
        /\ \/ form = "site" /\ \E n \in 1..MaxRec : recs = [i \in 1..n |-> Whole(SiteSchema(F), 2)]
           \/ form = "array" /\ recs = <<Whole(ArraySchema(F), 2)>>

Step(what, i, f, d) == recs' = [recs EXCEPT ![i] = d] /\ steps' = Append(steps, [what |-> what, rec |-> i, field |-> f])
Without(d, f) == [g \in DOMAIN d \ {f} |-> d[g]]

Damage ==
    /\ Len(steps) < MaxSteps
    /\ \E i \in 1..Len(recs) :
        \/ \E f \in DOMAIN recs[i] \cap DOMAIN Sch :
              /\ Is(recs[i][f], Sch[f])
              /\ \/ Step("drop", i, f, Without(recs[i], f))
                 \/ Step("retype", i, f, [recs[i] EXCEPT ![f] = <<IF @[1] = "text" THEN "num" ELSE @[1], "other", @[3]>>])
                 \/ recs[i][f][1] = "arr"
                    /\ Step("single", i, f, [recs[i] EXCEPT ![f] = <<"num", "float64", 0>>])
                 \/ recs[i][f][1] # "arr"
                    /\ Step("array", i, f, [recs[i] EXCEPT ![f] = <<"arr", Sch[f][2], 2>>])
                 \/ form = "array" /\ f \in PR /\ recs[i][f][3] = 2
                    /\ Step("longer", i, f, [recs[i] EXCEPT ![f] = <<@[1], @[2], 3>>])
        \/ "zz" \notin DOMAIN recs[i] /\ Step("extra", i, "zz", recs[i] @@ ("zz" :> <<"num", "int64", 0>>))
        \/ DOMAIN recs[i] # {} /\ Step("empty", i, "*", [g \in DOMAIN recs[i] \ DOMAIN Sch |-> recs[i][g]])
    /\ UNCHANGED form

Next == Damage
Spec == Init /\ [][Next]_<<form, recs, steps>>

V == IF form = "site" THEN SiteVerdict(Sch, recs) ELSE ArrayVerdict(Sch, PR, recs[1])
IsGood == IF form = "site" THEN SiteGood(Sch, recs) ELSE ArrayGood(Sch, PR, recs[1])
Acc(v) == IF form = "site" THEN SiteAcceptable(Sch, recs, v) ELSE ArrayAcceptable(Sch, PR, recs[1], v)

VerdictAcceptable == Acc(V)
OkIffGood == (V.cls = "ok") <=> IsGood
AllLonger == /\ form = "array"
             /\ Len(steps) = Cardinality(PR)
             /\ \A f \in PR : \E k \in 1..Len(steps) : steps[k].what = "longer" /\ steps[k].field = f
OkIffUndamaged == IsGood <=> (steps = <<>> \/ AllLonger)
(* a verdict about another field, or fewer or more records, is never acceptable *)
NothingHidden ==
    form = "site" /\ V.cls = "BorealisBadRecordsError" =>
        /\ \A i \in DOMAIN V.missing : ~Acc([V EXCEPT !.missing = [j \in DOMAIN V.missing \ {i} |-> V.missing[j]]])
        /\ \A i \in DOMAIN V.wrong : \A f \in V.wrong[i] : ~Acc([V EXCEPT !.wrong[i] = @ \ {f}])
        /\ \A i \in DOMAIN V.extra : ~Acc([V EXCEPT !.extra[i] = @ \cup {"attr"}])
        /\ \A i \in 1..Len(recs) : Good(Sch, recs[i]) => ~Acc([V EXCEPT !.missing = @ @@ (i :> {"attr"})])
        /\ ~Acc(NoV)
NothingHiddenArray ==
    form = "array" /\ ~IsGood =>
        /\ ~Acc(NoV)
        /\ V.cls = "BorealisFieldMissingError" => \A f \in V.missing : ~Acc([V EXCEPT !.missing = @ \ {f}])

EmitCase == Emit => PrintT("CASE " \o ToJson([form |-> form, n |-> Len(recs), steps |-> steps]))
=============================================================================
