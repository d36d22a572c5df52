--------------------------- MODULE BorealisSession ---------------------------
(***************************************************************************)
(* Sessions of Borealis calls over a few files: reading, writing, asking a   *)
(* reader for the other structure, restructuring a file into a file, and    *)
(* converting a file to a SuperDARN file.                                   *)
(*                                                                         *)
(* Data sets are abstract.  Cat[d] has                                     *)
(*   kind    its file type (rawacf, bfiq, antennas_iq, rawrf)              *)
(*   known   its software version is a known one                           *)
(*   valid   it passes the field checks of its type                        *)
(*   conv    its blanked samples and phase offsets can be converted         *)
(*   sliced  its records name their slice                                  *)
(*   back    (array form) its records have usable times of their own        *)
(*   stores  HDF5 can hold it                                              *)
(*                                                                         *)
(* Every call has a set of faults, each with the errors that may report it; *)
(* a call succeeds exactly when there is no fault, a refused call may       *)
(* report any of its faults, and only a call that succeeds changes a file:  *)
(* its target.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NONE == "none"
Kinds == {"rawacf", "bfiq", "antennas_iq", "rawrf"}
Structures == {"site", "array"}

C(st, d) == [st |-> st, d |-> d]
Absent == C("absent", NONE)
Junk == C("junk", NONE)
Openable(f) == f # "nodir"
Other(st) == IF st = "site" THEN "array" ELSE "site"

SessionInit(files, prefilled) == [disk |-> [f \in files |-> IF f \in prefilled THEN Junk ELSE Absent]]

FieldErrors == {"BorealisBadRecordsError", "BorealisFieldMissingError", "BorealisExtraFieldError",
                "BorealisDataFormatTypeError", "BorealisNumberOfRecordsError", "BorealisStructureError"}
NoFile == {"FileNotFoundError", "OSError"}
NotH5 == {"OSError"}
NotStored == {"OSError", "ValueError", "RuntimeError", "UnicodeEncodeError"}

E(kind, known, valid, conv, sliced, back, stores) ==
    [kind |-> kind, known |-> known, valid |-> valid, conv |-> conv, sliced |-> sliced, back |-> back, stores |-> stores]
Catalogue ==
    [raw   |-> E("rawacf", TRUE, TRUE, TRUE, TRUE, TRUE, TRUE),
     twin  |-> E("rawacf", TRUE, TRUE, TRUE, TRUE, TRUE, TRUE),     \* times as raw, another version
     copy  |-> E("rawacf", TRUE, TRUE, TRUE, TRUE, TRUE, TRUE),     \* as raw but for some values
     iq    |-> E("bfiq", TRUE, TRUE, TRUE, TRUE, TRUE, TRUE),
     oldiq |-> E("bfiq", TRUE, TRUE, TRUE, FALSE, TRUE, TRUE),
     ant   |-> E("antennas_iq", TRUE, TRUE, FALSE, TRUE, TRUE, TRUE),
     rf    |-> E("rawrf", TRUE, TRUE, FALSE, TRUE, TRUE, TRUE),
     blank |-> E("rawacf", TRUE, TRUE, FALSE, TRUE, TRUE, TRUE),
     phase |-> E("bfiq", TRUE, TRUE, FALSE, TRUE, TRUE, TRUE),
     bad   |-> E("rawacf", TRUE, FALSE, TRUE, TRUE, TRUE, TRUE),
     late  |-> E("bfiq", TRUE, TRUE, TRUE, TRUE, FALSE, TRUE),
     huge  |-> E("rawacf", TRUE, TRUE, TRUE, TRUE, TRUE, FALSE),
     newer |-> E("bfiq", FALSE, TRUE, TRUE, TRUE, TRUE, TRUE)]

If(cond, errs) == IF cond THEN errs ELSE {}

(* --- faults of each call: the union of the errors that may report them ---- *)
(* o has the fields op, f, g, d, form, kind, told, to, slice, alias            *)

ContentFaults(c, kind, told, cat) ==
    CASE c.st = "absent" -> NoFile
      [] c.st \in {"junk", "sdarn"} -> NotH5
      [] OTHER -> If(told \in Structures /\ told # c.st, {"BorealisStructureError"})
                  \cup If(~cat[c.d].known, {"BorealisVersionError"})
                  \cup If(kind # cat[c.d].kind \/ ~cat[c.d].valid, FieldErrors)

ReadFaults(s, o, cat) ==
    If(o.kind \notin Kinds, {"BorealisFileTypeError"})
    \cup If(o.told \notin Structures \cup {NONE}, {"BorealisStructureError"})
    \cup ContentFaults(s.disk[o.f], o.kind, o.told, cat)

(* asking what was read (or written) for a structure *)
AskFaults(d, have, want, cat) == If(have # want /\ (cat[d].kind = "rawrf" \/ ~cat[d].back), {"BorealisRestructureError"})

(* a file with anything of the same names in it is not written to *)
TargetFaults(c, collision) ==
    CASE c.st = "absent" -> {}
      [] c.st \in {"junk", "sdarn"} -> NotH5
      [] OTHER -> collision

WriteFaults(s, o, cat) ==
    If(o.kind \notin Kinds, {"BorealisFileTypeError"})
    \cup If(o.told \notin Structures \cup {NONE}, {"BorealisStructureError"})
    \cup If(o.told \in Structures /\ o.told # o.form, {"BorealisStructureError"})
    \cup If(~cat[o.d].known, {"BorealisVersionError"})
    \cup If(o.kind # cat[o.d].kind \/ ~cat[o.d].valid, FieldErrors)
    \cup (IF Openable(o.f) THEN TargetFaults(s.disk[o.f], {"ValueError"}) ELSE NoFile)
    \cup If(~cat[o.d].stores, NotStored)

RestructureFaults(s, o, cat) ==
    LET c == s.disk[o.f] IN
    If(o.kind \notin Kinds \ {"rawrf"}, {"BorealisFileTypeError"})
    \cup If(o.to \notin Structures, {"BorealisStructureError"})
    \cup If(o.f = o.g, {"ConvertFileOverWriteError"})
    \cup (CASE c.st = "absent" -> NoFile
            [] c.st \in {"junk", "sdarn"} -> NotH5
            [] OTHER -> If(~cat[c.d].known, {"BorealisVersionError"})
                        \cup If(o.to = Other(c.st) /\ (o.kind # cat[c.d].kind \/ ~cat[c.d].valid), {"BorealisRestructureError"})
                        \cup If(o.to = Other(c.st) /\ ~cat[c.d].back, {"BorealisRestructureError"})
                        \cup If(o.to = Other(c.st) /\ (~Openable(o.g) \/ s.disk[o.g].st # "absent"), {"BorealisRestructureError"}))

SDarnOf == [k \in {"rawacf", "bfiq"} |-> IF k = "rawacf" THEN "BorealisConvert2RawacfError" ELSE "BorealisConvert2IqdatError"]

ConvertFaults(s, o, cat) ==
    LET c == s.disk[o.f] IN
    ReadFaults(s, o, cat)
    \cup If(o.kind \in Kinds \ DOMAIN SDarnOf, {"BorealisConversionTypesError"}
            \cup If(o.kind = "rawrf" /\ c.st = "array", {"BorealisRestructureError"}))
    \cup If(o.f = o.g, {"ConvertFileOverWriteError"})
    \cup (IF c.st \in Structures /\ o.kind \in DOMAIN SDarnOf
          THEN If(~cat[c.d].sliced /\ ~o.slice, {"BorealisStructureError"})
               \cup If(~cat[c.d].conv, {SDarnOf[o.kind]})
               \cup If(c.st = "array" /\ ~cat[c.d].back, {"BorealisRestructureError"})
          ELSE {})
    \cup If(~Openable(o.g), NoFile)

Faults(s, o, cat) ==
    CASE o.op = "read" -> ReadFaults(s, o, cat)
      [] o.op = "write" -> WriteFaults(s, o, cat)
      [] o.op = "restructure" -> RestructureFaults(s, o, cat)
      [] o.op = "convert" -> ConvertFaults(s, o, cat)
      [] OTHER -> {}

(* --- calls whose effect is not specified are not made ---------------------- *)
(* writing onto a file that has other names in it adds to that file             *)
Collides(c, form, d) == \/ c.st \notin Structures
                        \/ c.st = "array" /\ form = "array"
                        \/ c.st = "site" /\ form = "site" /\ c.d = d
Enabled(s, o, cat) ==
    CASE o.op = "write" -> Openable(o.f) => Collides(s.disk[o.f], o.form, o.d)
      [] o.op = "restructure" ->
            /\ Openable(o.f)
            /\ (Openable(o.g) /\ s.disk[o.f].st \in Structures /\ o.f # o.g)
               => Collides(s.disk[o.g], Other(s.disk[o.f].st), s.disk[o.f].d)
      [] o.op \in {"convert", "read"} -> Openable(o.f)
      [] o.op \in {"put", "junk", "remove"} -> Openable(o.f)
      [] OTHER -> TRUE

(* --- effects ---------------------------------------------------------------- *)
Effect(s, o, cat) ==
    CASE o.op = "write" -> [s EXCEPT !.disk[o.f] = C(o.form, o.d)]
      [] o.op = "restructure" ->
            IF s.disk[o.f].st = o.to THEN s                     \* nothing to do
            ELSE [s EXCEPT !.disk[o.g] = C(o.to, s.disk[o.f].d)]
      [] o.op = "convert" -> [s EXCEPT !.disk[o.g] = C("sdarn", s.disk[o.f].d)]
      [] o.op = "put" -> [s EXCEPT !.disk[o.f] = C(o.form, o.d)]
      [] o.op = "junk" -> [s EXCEPT !.disk[o.f] = Junk]
      [] o.op = "remove" -> [s EXCEPT !.disk[o.f] = Absent]
      [] OTHER -> s

Target(o) == IF o.op \in {"restructure", "convert"} THEN o.g ELSE o.f

(* --- the same calls in the order of their steps ------------------------------ *)
(* A call is carried out as checks of its arguments, reading of the source,       *)
(* checks of the data and of the conversion, and the write: it stops at the first *)
(* fault.  Result: [res, disk].                                                 *)
First(q) == LET bad == { i \in 1..Len(q) : q[i] # {} }
            IN  IF bad = {} THEN {} ELSE q[CHOOSE i \in bad : \A j \in bad : i <= j]
Steps(s, o, cat) ==
    LET c == s.disk[o.f]
        data == If(c.st \in Structures, If(o.kind # cat[c.d].kind \/ ~cat[c.d].valid, FieldErrors))
        source == CASE c.st = "absent" -> NoFile [] c.st \in {"junk", "sdarn"} -> NotH5 [] OTHER -> {}
        version == If(c.st \in Structures, If(~cat[c.d].known, {"BorealisVersionError"}))
        told == If(c.st \in Structures /\ o.told \in Structures /\ o.told # c.st, {"BorealisStructureError"})
        read == <<If(o.kind \notin Kinds, {"BorealisFileTypeError"}),
                  If(o.told \notin Structures \cup {NONE}, {"BorealisStructureError"}), source, told, version, data>>
    IN  CASE o.op = "read" -> read
          [] o.op = "write" ->
                <<If(o.kind \notin Kinds, {"BorealisFileTypeError"}),
                  If(o.told \notin Structures \cup {NONE}, {"BorealisStructureError"}),
                  If(o.told \in Structures /\ o.told # o.form, {"BorealisStructureError"}),
                  If(~cat[o.d].known, {"BorealisVersionError"}),
                  If(o.kind # cat[o.d].kind \/ ~cat[o.d].valid, FieldErrors),
                  IF Openable(o.f) THEN TargetFaults(c, {"ValueError"}) ELSE NoFile,
                  If(~cat[o.d].stores, NotStored)>>
          [] o.op = "restructure" ->
                <<If(o.kind \notin Kinds \ {"rawrf"}, {"BorealisFileTypeError"}),
                  If(o.to \notin Structures, {"BorealisStructureError"}),
                  If(o.f = o.g, {"ConvertFileOverWriteError"}), source, version,
                  If(c.st \in Structures /\ o.to = Other(c.st) /\ data # {}, {"BorealisRestructureError"}),
                  If(c.st \in Structures /\ o.to = Other(c.st), If(~cat[c.d].back, {"BorealisRestructureError"})),
                  If(c.st \in Structures /\ o.to = Other(c.st) /\ (~Openable(o.g) \/ s.disk[o.g].st # "absent"),
                     {"BorealisRestructureError"})>>
          [] o.op = "convert" ->
                read \o
                <<If(o.kind \notin DOMAIN SDarnOf, {"BorealisConversionTypesError"}),
                  If(c.st = "array", If(~cat[c.d].back, {"BorealisRestructureError"})),
                  If(c.st \in Structures, If(~cat[c.d].sliced /\ ~o.slice, {"BorealisStructureError"})),
                  If(o.f = o.g, {"ConvertFileOverWriteError"}),
                  If(c.st \in Structures /\ o.kind \in DOMAIN SDarnOf, If(~cat[c.d].conv, {SDarnOf[o.kind]})),
                  If(~Openable(o.g), NoFile)>>
          [] OTHER -> <<>>
Run(s, o, cat) ==
    LET bad == First(Steps(s, o, cat)) IN
    IF bad # {} THEN [res |-> CHOOSE e \in bad : TRUE, st |-> s] ELSE [res |-> "ok", st |-> Effect(s, o, cat)]
=============================================================================
