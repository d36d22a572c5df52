--------------------------- MODULE DmapConversion ---------------------------
(***************************************************************************)
(* Plain dictionaries <-> DMAP structures.  A plain entry is                *)
(*   [name, kind, shape, val]  kind: Python/NumPy type name, val: a token   *)
(* identifying the exact value; a structure is                             *)
(*   [name, key, isarray, code, fmt, shape, dim, kind, val].               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CodeOfKind == ("int8" :> 1) @@ ("int16" :> 2) @@ ("int" :> 3) @@ ("int32" :> 3) @@ ("float" :> 4) @@ ("float32" :> 4)
              @@ ("float64" :> 8) @@ ("str" :> 9) @@ ("int64" :> 10) @@ ("uint8" :> 16) @@ ("uint16" :> 17)
              @@ ("uint32" :> 18) @@ ("uint64" :> 19)
LetterOfCode == (1 :> "c") @@ (2 :> "h") @@ (3 :> "i") @@ (4 :> "f") @@ (8 :> "d") @@ (9 :> "s") @@ (10 :> "q")
                @@ (16 :> "B") @@ (17 :> "H") @@ (18 :> "I") @@ (19 :> "Q")
(* the kind of scalar a structure of this code converts back to *)
KindOfCode == (1 :> "int8") @@ (2 :> "int16") @@ (3 :> "int") @@ (4 :> "float") @@ (8 :> "float64") @@ (9 :> "str")
              @@ (10 :> "int64") @@ (16 :> "uint8") @@ (17 :> "uint16") @@ (18 :> "uint32") @@ (19 :> "uint64")

Kinds == DOMAIN CodeOfKind
ArrayKinds == Kinds \ {"int", "float", "str"}

ToStruct(p) ==
    LET c == CodeOfKind[p.kind] IN
    [name |-> p.name, key |-> p.name, isarray |-> p.shape # << >>, code |-> c, fmt |-> LetterOfCode[c],
     shape |-> p.shape, dim |-> Len(p.shape), val |-> p.val]

ToPlain(s, arraykind) ==
    [name |-> s.key, shape |-> s.shape, val |-> s.val,
     kind |-> IF s.isarray THEN arraykind ELSE KindOfCode[s.code]]

ToStructs(rec) == [i \in 1..Len(rec) |-> ToStruct(rec[i])]
ToPlains(rec, orig) == [i \in 1..Len(rec) |-> ToPlain(rec[i], orig[i].kind)]
=============================================================================
