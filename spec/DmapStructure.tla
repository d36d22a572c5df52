---------------------------- MODULE DmapStructure ----------------------------
(***************************************************************************)
(* DMAP structures as a caller may build them.  A structure carries a      *)
(* description of its field (name, type code, format letter, number of     *)
(* dimensions, sizes) next to the value itself, and nothing but the writer *)
(* makes the two agree.  AsDescribed says when they do: exactly then what  *)
(* the layout puts into the file reads back as the field it is.            *)
(***************************************************************************)
EXTENDS DmapFormat

UNTYPED == 0    \* kind of value the format has no type for (booleans, complex numbers, objects)

(* d.what    "scalar" or "array"
   d.key     the name under which the record holds the structure
   d.name    the name the structure gives
   d.code    the type code it gives
   d.letter  the type its format letter stands for
   d.kind    the type its values really have
   d.dim, d.shape   dimensions it gives;   d.vshape   dimensions of the value
   d.data    the bytes of the value *)
NoZero(s) == \A i \in 1..Len(s) : s[i] # 0

AsDescribed(d) ==
    /\ d.key = d.name
    /\ NoZero(d.name)
    /\ d.code = d.letter
    /\ d.code \in ScalarTypes
    /\ d.kind = d.code
    /\ IF d.what = "scalar" THEN d.code = TEXT => NoZero(d.data)
       ELSE /\ d.code # TEXT
            /\ d.dim = Len(d.shape) /\ d.dim >= 1
            /\ \A i \in 1..Len(d.shape) : d.shape[i] >= 0
            /\ d.vshape = d.shape \/ (Len(d.vshape) = 1 /\ d.vshape[1] = Cells(d.shape))   \* or the same, laid out flat

FieldOf(d) == [name |-> d.name, type |-> d.code, shape |-> IF d.what = "scalar" THEN << >> ELSE d.shape, data |-> d.data]

(* what a writer that trusts the description would put into the file *)
TrustingBytes(d) ==
    IF d.what = "scalar" THEN EncScalar([name |-> d.name, type |-> d.code, shape |-> << >>, data |-> d.data])
    ELSE d.name \o <<0, d.code>> \o LE32(d.dim)
         \o FlattenSeq([i \in 1..Len(d.shape) |-> LE32(d.shape[Len(d.shape) + 1 - i])]) \o d.data

(* the record it goes into: one more scalar and one more array *)
Beside == [scalars |-> << [name |-> <<110>>, type |-> SHORT, shape |-> << >>, data |-> <<7, 0>>] >>,
           arrays |-> << [name |-> <<120>>, type |-> SHORT, shape |-> <<2>>, data |-> <<1, 0, 2, 0>>] >>]
RecordWith(d) ==
    IF d.what = "scalar" THEN [Beside EXCEPT !.scalars = Append(@, FieldOf(d))]
    ELSE [Beside EXCEPT !.arrays = Append(@, FieldOf(d))]
TrustingRecord(d) ==
    LET sc == EncScalar(Beside.scalars[1])   ar == EncArray(Beside.arrays[1])
        body == IF d.what = "scalar" THEN sc \o TrustingBytes(d) \o ar ELSE sc \o ar \o TrustingBytes(d)
    IN  LE32(BlockCode) \o LE32(16 + Len(body)) \o LE32(IF d.what = "scalar" THEN 2 ELSE 1)
        \o LE32(IF d.what = "scalar" THEN 1 ELSE 2) \o body

(* the field read back is the one the caller has: its name, format and type there, and its value *)
Truthful(d, f) ==
    /\ f.name = d.key /\ f.type = d.kind /\ f.type = d.letter /\ f.data = d.data
    /\ IF d.what = "scalar" THEN f.shape = << >>
       ELSE f.shape = d.vshape \/ (Len(d.vshape) = 1 /\ Cells(f.shape) = d.vshape[1] /\ f.shape = d.shape)
=============================================================================
