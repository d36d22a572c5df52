----------------------------- MODULE MCStructure -----------------------------
(* Every mismatch of description and value within small bounds.             *)
EXTENDS DmapStructure, TLC, TLCExt, Json

CONSTANTS Types,      \* type codes, letters and kinds of values
          ShapeTypes, \* types for which all combinations of shapes are tried
          OutFile     \* "" or anything: print the structures

Shapes == {<< >>, <<1>>, <<2>>, <<3>>, <<4>>, <<6>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 2>>, <<1, 2, 1>>, <<-1>>, <<-1, -2>>}
RealShapes == {s \in Shapes : \A i \in 1..Len(s) : s[i] > 0}
KindSize(k) == IF k = UNTYPED THEN 1 ELSE IF k = TEXT THEN 2 ELSE TypeSize[k]
Bytes(n) == [i \in 1..n |-> 1 + (i % 120)]

Scalars == { [what |-> "scalar", key |-> k, name |-> n, code |-> c, letter |-> l, kind |-> l, dim |-> 0,
              shape |-> << >>, vshape |-> << >>, data |-> IF z /\ l = TEXT THEN <<97, 0, 98>> ELSE Bytes(KindSize(l))] :
             k \in {<<97>>, <<98>>}, n \in {<<97>>, <<97, 0, 98>>, << >>}, c \in Types \cup {UNTYPED, 5}, l \in Types, z \in BOOLEAN }
Arrays1 == { [what |-> "array", key |-> <<97>>, name |-> <<97>>, code |-> c, letter |-> l, kind |-> k, dim |-> 1,
              shape |-> <<2>>, vshape |-> <<2>>, data |-> Bytes(2 * KindSize(k))] :
             c \in (Types \ {TEXT}) \cup {UNTYPED, 5}, l \in Types \ {TEXT}, k \in (Types \ {TEXT}) \cup {UNTYPED} }
Arrays2 == { [what |-> "array", key |-> k, name |-> n, code |-> c, letter |-> c, kind |-> c, dim |-> d,
              shape |-> s, vshape |-> v, data |-> Bytes(Cells(v) * KindSize(c))] :
             k \in {<<97>>}, n \in {<<97>>}, c \in ShapeTypes, d \in 0..3, s \in Shapes, v \in RealShapes }
Arrays3 == { [what |-> "array", key |-> k, name |-> n, code |-> c, letter |-> c, kind |-> c, dim |-> 1,
              shape |-> <<2>>, vshape |-> <<2>>, data |-> Bytes(2 * KindSize(c))] :
             k \in {<<97>>, <<98>>, <<97, 0, 98>>}, n \in {<<97>>, <<97, 0, 98>>, << >>}, c \in Types \ {TEXT} }

VARIABLE d
Init == d \in Scalars \cup Arrays1 \cup Arrays2 \cup Arrays3
Next == UNCHANGED d
Spec == Init /\ [][Next]_d

(* P01: what is accepted reads back as it is, and only that can be accepted *)
AcceptedReadsBack ==
    AsDescribed(d) => LET r == Decode(TrustingRecord(d)) IN
                      /\ TrustingRecord(d) = EncRecord(RecordWith(d))
                      /\ r.phase = "done" /\ r.recs = << RecordWith(d) >>
                      /\ Truthful(d, FieldOf(d))
LiesDoNot ==
    ~AsDescribed(d) => LET r == Decode(TrustingRecord(d)) IN
                       \/ r.phase # "done"
                       \/ Len(r.recs) # 1
                       \/ LET fs == Fields(r.recs[1]) IN \A i \in 1..Len(fs) :
                            fs[i].name = d.key => ~Truthful(d, fs[i])
                       \/ d.name \in {<<110>>, <<120>>}

Emit == OutFile # "" => PrintT("STRUCT " \o ToJson(d))
=============================================================================
