---------------------------- MODULE MCBorealisStep ----------------------------
(* Every single Borealis call in every situation: a source file with any       *)
(* content, a target with any content that matters, then one call with any     *)
(* arguments.  Emitted as short sessions for replay.                           *)
EXTENDS BorealisSession, Json

CONSTANTS Data, Emit
VARIABLES s, hist, res
vars == <<s, hist, res>>

Cat == [d \in Data |-> Catalogue[d]]
Files == {"f1", "f2", "f3", "nodir"}
O(op, f, g, d, form, kind, told, to, slice, alias) ==
    [op |-> op, f |-> f, g |-> g, d |-> d, form |-> form, kind |-> kind, told |-> told, to |-> to,
     slice |-> slice, alias |-> alias]
Env(op, f) == O(op, f, NONE, NONE, NONE, NONE, NONE, NONE, FALSE, FALSE)
Put(f, d, form) == O("put", f, NONE, d, form, NONE, NONE, NONE, FALSE, FALSE)
Nothing == Env("nothing", "f3")
FormsOf(d) == IF Cat[d].kind = "rawrf" THEN {"site"} ELSE IF ~Cat[d].back THEN {"array"} ELSE Structures
KindsFor(d) == {Cat[d].kind, "bogus"} \cup Kinds
Tolds == Structures \cup {NONE, "bogus"}
Fills(f) == { Put(f, d, fm) : d \in { x \in Data : Cat[x].stores }, fm \in Structures } \cup {Env("junk", f), Nothing}
Possible(o) == o.op = "put" => o.form \in FormsOf(o.d)

Calls ==
    LET c == s.disk["f1"]
        ks == IF c.st \in Structures THEN KindsFor(c.d) ELSE {"rawacf", "bogus"}
        src == { O("read", "f1", NONE, NONE, NONE, k, t, NONE, FALSE, FALSE) : k \in ks, t \in Tolds }
               \cup { O("restructure", "f1", g, NONE, NONE, k, NONE, to, FALSE, g = "f1") :
                         g \in {"f1", "f2", "nodir"}, k \in ks, to \in Structures \cup {"bogus"} }
               \cup { O("convert", "f1", g, NONE, NONE, k, t, NONE, sl, g = "f1") :
                         g \in {"f1", "f2", "nodir"}, k \in ks, t \in {"site", "array", NONE}, sl \in BOOLEAN }
        wr == { O("write", g, NONE, d, fm, k, t, NONE, FALSE, FALSE) : g \in {"f2", "nodir"}, d \in Data, fm \in Structures,
                   k \in Kinds \cup {"bogus"}, t \in Tolds }
    IN  src \cup { o \in wr : c.st = "absent" /\ o.form \in FormsOf(o.d) }

Init == s = SessionInit(Files, {}) /\ hist = <<>> /\ res = "ok"
Fill(f) == \E o \in Fills(f) : Possible(o) /\ hist' = Append(hist, o) /\ s' = Effect(s, o, Cat) /\ res' = "ok"
(* the target matters when the source can be used: junk, the same data, or other data *)
Sensible == LET c == s.disk["f1"]  d == s.disk["f2"] IN
            IF c.st = "absent" THEN TRUE ELSE d.st \in {"absent", "junk"} \/ d.d = c.d \/ d.d = "raw"
Matters(o) == "f2" \in {o.f, o.g} \/ s.disk["f2"] = Absent
Call == \E o \in Calls : /\ Enabled(s, o, Cat) /\ Matters(o)
                         /\ LET r == Run(s, o, Cat) IN s' = r.st /\ res' = r.res
                         /\ hist' = Append(hist, o)
Next == \/ Len(hist) = 0 /\ Fill("f1")
        \/ Len(hist) = 1 /\ Fill("f2")
        \/ Len(hist) = 2 /\ Sensible /\ Call
Spec == Init /\ [][Next]_vars

Agrees == Len(hist) = 3 => LET o == hist[3] IN
            \A t \in {SessionInit(Files, {})} :
               LET a == Effect(t, hist[1], Cat)  b == Effect(a, hist[2], Cat)  F == Faults(b, o, Cat) IN
               IF F = {} THEN res = "ok" /\ s = Effect(b, o, Cat) ELSE res \in F /\ s = b
Real(q) == SelectSeq(q, LAMBDA o : o.op # "nothing")
EmitCase == (Emit /\ Len(hist) = 3) => PrintT("SESSION " \o ToJson([ops |-> Real(hist), pre |-> <<>>]))
=============================================================================
