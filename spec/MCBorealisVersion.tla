-------------------------- MODULE MCBorealisVersion --------------------------
(* Git hashes grown part by part: once the version is named, nothing that is  *)
(* appended changes it, and only the exact names of versions are known.       *)
EXTENDS BorealisVersion, FiniteSets, Json, TLC

CONSTANTS MaxDots, MaxDashes, Emit
VARIABLE h

Majors == {"v0", "v1", "0", "V0", "v00", "", "vv0", "v0 "}
Minors == {"2", "3", "4", "5", "6", "7", "1", "8", "06", "61", "70", "10", "", "6 ", " 6", "x"}
Others == {"1", "6", ""}
Tails == {"12", "gabc1234", "v0.6"}
Pool(n) == IF n = 0 THEN Majors ELSE IF n = 1 THEN Minors ELSE Others

Init == \E m \in Majors : h = << <<m>> >>
Dot == /\ Len(h) = 1 /\ Len(h[1]) < MaxDots
       /\ \E p \in Pool(Len(h[1])) : h' = << Append(h[1], p) >>
Dash == /\ Len(h) < MaxDashes + 1
        /\ \E t \in Tails : h' = Append(h, <<t>>)
Next == Dot \/ Dash
Spec == Init /\ [][Next]_h

(* the version is settled by its first two parts *)
Settled == [][Len(h[1]) >= 2 \/ Len(h) > 1 => VersionOf(h') = VersionOf(h)]_h
KnownByName == Known(VersionOf(h)) <=> (Len(h[1]) >= 2 /\ h[1][1] = "v0" /\ Text(VersionOf(h)) \in
                                         {"v0.2", "v0.3", "v0.4", "v0.5", "v0.6", "v0.7"})
(* an unknown version is never accepted, and a version is judged alike by all operations *)
Ops == {"read", "write", "restructure", "convert"}
NeverUnknown == \A op \in Ops, f \in BOOLEAN, t \in {"right", "none"} :
                    (Errors(op, h, f, t) = {}) <=> (Known(VersionOf(h)) /\ f)
EmitCase == Emit => PrintT("HASH " \o ToJson([h |-> h]))
=============================================================================
