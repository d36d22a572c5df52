---------------------------- MODULE SDarnSchema ----------------------------
(***************************************************************************)
(* The field rules of the SuperDARN file types.  A record is the function   *)
(* from its field names to their DMAP type letters.  Tables is the set of   *)
(* published field groups (sdarn_tables.json).                             *)
(*                                                                         *)
(* Two descriptions are given: what is allowed (declarative) and the three  *)
(* checks in the order reader and writer run them (operational).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FieldsOf(groups) == UNION { DOMAIN groups[i].fields : i \in 1..Len(groups) }

(* later groups win where a name occurs twice *)
TypeOf(groups, f) ==
    LET i == CHOOSE i \in 1..Len(groups) :
                /\ f \in DOMAIN groups[i].fields
                /\ \A j \in (i+1)..Len(groups) : f \notin DOMAIN groups[j].fields
    IN  groups[i].fields[f]

(* --- declarative ------------------------------------------------------- *)
Allowed(groups, r) ==
    /\ DOMAIN r \subseteq FieldsOf(groups)
    /\ \A i \in 1..Len(groups) :
          \/ groups[i].optional
          \/ DOMAIN groups[i].fields \subseteq DOMAIN r
          \/ DOMAIN groups[i].fields \cap DOMAIN r = {}
    /\ \A f \in DOMAIN r \cap FieldsOf(groups) : r[f] = TypeOf(groups, f)

(* --- operational ------------------------------------------------------- *)
Extra(groups, r) == DOMAIN r \ FieldsOf(groups)

Missing(groups, r) ==
    UNION { LET miss == DOMAIN groups[i].fields \ DOMAIN r
            IN  IF groups[i].optional \/ Cardinality(miss) \in {0, Cardinality(DOMAIN groups[i].fields)}
                THEN {} ELSE miss : i \in 1..Len(groups) }

Wrong(groups, r) == { f \in DOMAIN r \cap FieldsOf(groups) : r[f] # TypeOf(groups, f) }

OK == [kind |-> "ok", fields |-> {}]
ExtraV(groups, r)   == [kind |-> "extra", fields |-> Extra(groups, r)]
MissingV(groups, r) == [kind |-> "missing", fields |-> Missing(groups, r)]
WrongV(groups, r)   == [kind |-> "type", fields |-> Wrong(groups, r)]

CheckInOrder(vs) ==
    IF \A i \in 1..Len(vs) : vs[i].fields = {} THEN OK
    ELSE vs[CHOOSE i \in 1..Len(vs) : vs[i].fields # {} /\ \A j \in 1..(i-1) : vs[j].fields = {}]

WriterCheck(groups, r) == CheckInOrder(<< ExtraV(groups, r), MissingV(groups, r), WrongV(groups, r) >>)
ReaderCheck(groups, r) == CheckInOrder(<< MissingV(groups, r), ExtraV(groups, r), WrongV(groups, r) >>)

(* every verdict an implementation may give for a record: any of the faults it has *)
Admissible(groups, r) ==
    LET F == { v \in {ExtraV(groups, r), MissingV(groups, r), WrongV(groups, r)} : v.fields # {} }
    IN  IF F = {} THEN {OK} ELSE F

(* first record of a list that is not allowed, or 0 *)
FirstBad(groups, rs) ==
    LET B == { i \in 1..Len(rs) : ~Allowed(groups, rs[i]) }
    IN  IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
=============================================================================
