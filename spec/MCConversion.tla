---------------------------- MODULE MCConversion ----------------------------
(* All records of up to MaxFields entries over every kind of value: building *)
(* a record field by field, converting it and converting it back.           *)
EXTENDS DmapConversion
CONSTANTS MaxFields
VARIABLES rec, structs, back
vars == <<rec, structs, back>>

Shapes == { << >>, <<2>>, <<2, 3>> }
Entries(n) == { [name |-> ToString(n), kind |-> k, shape |-> s, val |-> ToString(n)] :
                  k \in Kinds, s \in Shapes } 
Legal(p) == p.shape # << >> => p.kind \in ArrayKinds

Init == rec = << >> /\ structs = << >> /\ back = << >>
Add == /\ Len(rec) < MaxFields /\ structs = << >>
       /\ \E p \in Entries(Len(rec) + 1) : Legal(p) /\ rec' = Append(rec, p)
       /\ UNCHANGED <<structs, back>>
Convert == rec # << >> /\ structs = << >> /\ structs' = ToStructs(rec) /\ UNCHANGED <<rec, back>>
ConvertBack == structs # << >> /\ back = << >> /\ back' = ToPlains(structs, rec) /\ UNCHANGED <<rec, structs>>
Next == Add \/ Convert \/ ConvertBack
Spec == Init /\ [][Next]_vars

(* kinds int32/int and float32/float are the same kind once stored *)
SameKind(a, b) == a = b \/ {a, b} \subseteq {"int", "int32"} \/ {a, b} \subseteq {"float", "float32"}
Lossless == back # << >> =>
    /\ Len(back) = Len(rec)
    /\ \A i \in 1..Len(rec) : /\ back[i].name = rec[i].name /\ back[i].val = rec[i].val
                              /\ back[i].shape = rec[i].shape /\ SameKind(back[i].kind, rec[i].kind)
Faithful == \A i \in 1..Len(structs) : /\ structs[i].dim = Len(structs[i].shape)
                                       /\ LetterOfCode[structs[i].code] = structs[i].fmt
ASSUME \A c \in DOMAIN KindOfCode : CodeOfKind[KindOfCode[c]] = c
=============================================================================
