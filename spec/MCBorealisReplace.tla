--------------------------- MODULE MCBorealisReplace ---------------------------
(* A file is used, replaced at the same path by other data of the same type and  *)
(* with records at the same times (of another software version: "twin"; of the   *)
(* same version and as many bytes: "copy"), and used again: every order of one   *)
(* use, one replacement and another use.  Nothing of the first content may be    *)
(* left.  Emitted as sessions for replay.                                       *)
EXTENDS BorealisSession, Json

CONSTANTS Data, Emit
VARIABLES s, hist, res
vars == <<s, hist, res>>

Cat == [d \in Data |-> Catalogue[d]]
Files == {"f1", "f2", "f3", "nodir"}
O(op, f, g, d, form, told, to, alias) ==
    [op |-> op, f |-> f, g |-> g, d |-> d, form |-> form,
     kind |-> IF op \in {"put", "remove"} THEN NONE ELSE "rawacf", told |-> told, to |-> to, slice |-> FALSE, alias |-> alias]
Puts == { O("put", "f1", NONE, d, fm, NONE, NONE, FALSE) : d \in Data, fm \in Structures }
Writes == { O("write", "f1", NONE, d, fm, NONE, NONE, FALSE) : d \in Data, fm \in Structures }
Uses == { O("read", "f1", NONE, NONE, NONE, t, NONE, FALSE) : t \in {NONE, s.disk["f1"].st} }
        \cup { O("restructure", "f1", "f2", NONE, NONE, NONE, Other(s.disk["f1"].st), FALSE) }
        \cup { O("convert", "f1", "f2", NONE, NONE, NONE, NONE, FALSE) }
Remove(f) == O("remove", f, NONE, NONE, NONE, NONE, NONE, FALSE)

Init == s = SessionInit(Files, {}) /\ hist = <<>> /\ res = "ok"
Step(o) == LET r == Run(s, o, Cat) IN /\ Enabled(s, o, Cat) /\ s' = r.st /\ res' = r.res /\ hist' = Append(hist, o)
Replace == \/ \E o \in Puts : o.d # s.disk["f1"].d /\ Step(o)
           \/ Step(Remove("f1"))
Next == CASE Len(hist) = 0 -> \E o \in Puts \cup Writes : Step(o)
          [] Len(hist) = 1 -> \E o \in Uses : Step(o)
          [] Len(hist) = 2 -> Replace
          [] Len(hist) >= 3 /\ s.disk["f1"] = Absent -> \E o \in Writes : o.d # hist[1].d /\ Step(o)
          [] Len(hist) >= 3 /\ s.disk["f2"] # Absent /\ hist[Len(hist)].op \in {"put", "write"} -> Step(Remove("f2"))
          [] Len(hist) >= 3 /\ hist[Len(hist)].op \notin {"read", "convert", "restructure"} -> \E o \in Uses : Step(o)
          [] OTHER -> FALSE
Spec == Init /\ [][Next]_vars

Done == Len(hist) > 3 /\ hist[Len(hist)].op \in {"read", "convert", "restructure"}
AllDone == res = "ok"
(* what the last use made is of the data that is there now *)
LastIsNew == Done => /\ s.disk["f1"].d # hist[1].d
                     /\ hist[Len(hist)].op \in {"convert", "restructure"} => s.disk["f2"].d = s.disk["f1"].d
EmitCase == (Emit /\ Done) => PrintT("SESSION " \o ToJson([ops |-> hist, pre |-> <<>>]))
=============================================================================
