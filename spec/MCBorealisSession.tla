-------------------------- MODULE MCBorealisSession --------------------------
(* All Borealis sessions of a few calls; the generator of sessions for replay. *)
EXTENDS BorealisSession, Json, SequencesExt

CONSTANTS Files, Data, MaxOps, Record

VARIABLES s, hist, pre, last
vars == <<s, hist, pre, last>>

Cat == [d \in Data |-> Catalogue[d]]

O(op, f, g, d, form, kind, told, to, slice, alias) ==
    [op |-> op, f |-> f, g |-> g, d |-> d, form |-> form, kind |-> kind, told |-> told, to |-> to,
     slice |-> slice, alias |-> alias]
Real == Files \ {"nodir"}
(* the right type, another or none; the right structure, none given, the other or none there is *)
KindsFor(d) == {Cat[d].kind, "bogus", IF Cat[d].kind = "rawacf" THEN "bfiq" ELSE "rawacf"}
KindsOn(f) == IF s.disk[f].st \in Structures THEN KindsFor(s.disk[f].d) ELSE {"rawacf", "bogus"}
Tolds == Structures \cup {NONE, "bogus"}
FormsOf(d) == IF Cat[d].kind = "rawrf" THEN {"site"} ELSE IF ~Cat[d].back THEN {"array"} ELSE Structures

Reads == { O("read", f, NONE, NONE, NONE, k, t, NONE, FALSE, a) : f \in Real, k \in Kinds \cup {"bogus"}, t \in Tolds, a \in {FALSE} }
Writes == { O("write", f, NONE, d, fm, k, t, NONE, FALSE, FALSE) :
               f \in Files, d \in Data, fm \in Structures, k \in Kinds \cup {"bogus"}, t \in Tolds }
Restructures == { O("restructure", f, g, NONE, NONE, k, NONE, to, FALSE, a) :
               f \in Real, g \in Files, k \in Kinds \cup {"bogus"}, to \in Structures \cup {"bogus"}, a \in BOOLEAN }
Converts == { O("convert", f, g, NONE, NONE, k, t, NONE, sl, a) :
               f \in Real, g \in Files, k \in Kinds \cup {"bogus"}, t \in {"site", "array", NONE}, sl \in BOOLEAN, a \in BOOLEAN }
Puts == { O("put", f, NONE, d, fm, NONE, NONE, NONE, FALSE, FALSE) : f \in Real, d \in Data, fm \in Structures }
        \cup { O(e, f, NONE, NONE, NONE, NONE, NONE, NONE, FALSE, FALSE) : e \in {"junk", "remove"}, f \in Real }

Makeable(o) ==
    /\ o.op \in {"write", "put"} => o.form \in FormsOf(o.d)
    /\ o.op = "put" => \/ s.disk[o.f] = Absent          \* or another file takes its place
                       \/ s.disk[o.f].st \in Structures /\ s.disk[o.f].d # o.d /\ Cat[s.disk[o.f].d].kind = Cat[o.d].kind
    /\ o.op = "put" => Cat[o.d].stores
    /\ o.op = "write" => o.kind \in KindsFor(o.d)
    /\ o.op \in {"read", "restructure", "convert"} => o.kind \in KindsOn(o.f)
    /\ o.op = "remove" => s.disk[o.f] # Absent
    /\ o.op = "junk" => s.disk[o.f] # Junk
(* generated sessions: mostly calls with a chance to succeed *)
Odd(o) == (IF o.kind = "bogus" THEN 1 ELSE 0) + (IF o.told = "bogus" THEN 1 ELSE 0) + (IF o.to = "bogus" THEN 1 ELSE 0)
          + Cardinality(Faults(s, o, Cat))
Worthwhile(o) == Record => \/ Faults(s, o, Cat) = {}
                           \/ Odd(o) <= 2 /\ Len(hist) % 2 = 1
                           \/ FieldErrors \subseteq Faults(s, o, Cat) /\ Len(hist) % 4 = 2
                           \/ Len(hist) % 7 = 6

Init == /\ \E P \in SUBSET Real : s = SessionInit(Files, P) /\ pre = IF Record THEN P ELSE {}
        /\ hist = <<>> /\ last = [res |-> "ok", o |-> NONE]

Call(Ops) == /\ Record => Len(hist) < MaxOps
             /\ \E o \in Ops : /\ Makeable(o) /\ Enabled(s, o, Cat) /\ Worthwhile(o)
                               /\ LET r == Run(s, o, Cat) IN s' = r.st /\ last' = [res |-> r.res, o |-> o]
                               /\ hist' = IF Record THEN Append(hist, o) ELSE hist
             /\ UNCHANGED pre
Reading == Call(Reads)
Writing == Call(Writes)
Restructuring == Call(Restructures)
Converting == Call(Converts)
Environment == (Record => Len(hist) % 3 = 0) /\ Call(Puts)
Next == Reading \/ Writing \/ Restructuring \/ Converting \/ Environment
Spec == Init /\ [][Next]_vars
SView == <<s, hist>>

--------------------------------------------------------------------------------
(* the step-by-step outcome is one of the declared ones *)
StepsAgree ==
    \A o \in Reads \cup Writes \cup Restructures \cup Converts :
        Makeable(o) /\ Enabled(s, o, Cat) =>
            LET r == Run(s, o, Cat)  F == Faults(s, o, Cat) IN
            IF F = {} THEN r.res = "ok" ELSE r.res \in F
(* P17 *)
RefusedChangesNothing == [][last'.res # "ok" => s'.disk = s.disk]_vars
OnlyTheTarget == [][\A f \in Files : s'.disk[f] # s.disk[f] => f = Target(last'.o)]_vars
SourceKept == [][last'.o.op \in {"restructure", "convert"} => s'.disk[last'.o.f] = s.disk[last'.o.f]]_vars
(* only data that passes its checks gets into files the library writes *)
OutputsGood == [][last'.o.op \in {"write", "restructure", "convert"} /\ s'.disk # s.disk =>
                     LET c == s'.disk[Target(last'.o)] IN Cat[c.d].valid /\ Cat[c.d].known /\ Cat[c.d].stores]_vars
(* restructuring there and back gives the data of the source *)
NoInvention == \A f \in Files : s.disk[f].st \in {"absent", "junk"} \/ s.disk[f].d \in Data

(* what has no record form never gets one *)
NeverRecords == \A f \in Files : s.disk[f].st = "site" => Cat[s.disk[f].d].back

Emit == (Record /\ Len(hist) = MaxOps) => PrintT("SESSION " \o ToJson([ops |-> hist, pre |-> SetToSeq(pre)]))
=============================================================================
