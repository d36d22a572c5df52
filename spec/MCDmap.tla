------------------------------- MODULE MCDmap -------------------------------
(***************************************************************************)
(* Exhaustive model of writing and reading DMAP data: every short file made *)
(* of template records, whole, cut off, extended, or with one byte or one   *)
(* 32-bit word replaced, read step by step.                                 *)
(***************************************************************************)
EXTENDS DmapFormat, TLC, TLCExt, Json

CONSTANTS NTemplates,    \* how many of the templates to use
          MaxRecords,    \* records per file
          ByteSubst,     \* byte values substituted in turn at every position
          WordSubst,     \* 32-bit values substituted in turn at every position
          OutFile        \* "" or file for the inputs, as JSON lines

Words == {-2147483647 - 1, -1, 0, 1, 2, 3, 33, 65536, 2147483647}

F(n, t, sh, d) == [name |-> n, type |-> t, shape |-> sh, data |-> d]

Templates == <<
    [scalars |-> << F(<<97>>, CHAR, << >>, <<200>>) >>,
     arrays  |-> << F(<<120>>, SHORT, <<2>>, <<1, 0, 255, 255>>) >>],
    [scalars |-> << F(<<115>>, TEXT, << >>, <<104, 105>>), F(<<98>>, INT, << >>, <<1, 2, 3, 128>>) >>,
     arrays  |-> << F(<<121, 121>>, UCHAR, <<1, 2, 1>>, <<7, 0>>), F(SlistName, CHAR, <<0>>, << >>) >>],
    [scalars |-> << F(<<195, 169>>, TEXT, << >>, << >>), F(<< >>, DOUBLE, << >>, <<0,0,0,0,0,0,240,63>>),
                    F(<<97>>, USHORT, << >>, <<16, 17>>) >>,
     arrays  |-> << F(<<97>>, FLOAT, <<1, 1>>, <<0, 0, 128, 63>>) >>],
    [scalars |-> << F(<<113>>, LONG, << >>, <<1,2,3,4,5,6,7,8>>), F(<<81>>, ULONG, << >>, <<255,255,255,255,255,255,255,255>>) >>,
     arrays  |-> << F(SlistName, INT, <<1>>, <<5, 0, 0, 0>>), F(<<73>>, UINT, <<2, 1>>, <<0,0,0,0,1,1,1,1>>) >>]
>>

Files == UNION { [1..n -> 1..NTemplates] : n \in 1..MaxRecords }
RecsOf(f) == [i \in 1..Len(f) |-> Templates[f[i]]]

Damage(b) ==
    {b}
    \cup { SubSeq(b, 1, n) : n \in 0..(Len(b) - 1) }                     \* cut off
    \cup { b \o SubSeq(b, 1, n) : n \in 1..Len(b) }                      \* extended
    \cup { SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b)) : i \in 1..Len(b) }   \* a byte lost
    \cup { [b EXCEPT ![i] = v] : i \in 1..Len(b), v \in ByteSubst }
    \cup { [b EXCEPT ![i] = (@ + 1) % 256] : i \in 1..Len(b) }
    \cup { [b EXCEPT ![i] = (@ + 255) % 256] : i \in 1..Len(b) }
    \cup { SubSeq(b, 1, i - 1) \o LE32(v) \o SubSeq(b, i + 4, Len(b)) : i \in 1..(Len(b) - 3), v \in WordSubst }

VARIABLES file, bytes, st
vars == <<file, bytes, st>>

Init == /\ file \in Files
        /\ bytes \in Damage(EncAll(RecsOf(file)))
        /\ st = ReaderInit
Next == /\ ~Finished(st)
        /\ st' = ReaderStep(bytes, st)
        /\ UNCHANGED <<file, bytes>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------------
TemplatesWellFormed == \A i \in 1..Len(Templates) : WellFormed(Templates[i])
ASSUME TemplatesWellFormed
ASSUME \A n \in {-2147483647 - 1, -1, 0, 1, 255, 256, 65537, 2147483647} : Int32At(LE32(n), 1) = n

(* P01: what was written is what is read *)
RoundTrip == (st = ReaderInit /\ bytes = EncAll(RecsOf(file)))
             => LET d == Decode(bytes) IN d.phase = "done" /\ d.recs = RecsOf(file)

(* the identifier of a block is not interpreted *)
RECURSIVE MaskCodes(_, _)
MaskCodes(b, rs) ==    \* b with the identifiers of its blocks (of records rs) set to the usual one
    IF rs = << >> THEN b
    ELSE LET n == Len(EncRecord(Head(rs))) IN
         LE32(BlockCode) \o SubSeq(b, 5, n) \o MaskCodes(SubSeq(b, n + 1, Len(b)), Tail(rs))

(* P02/P03: nothing is accepted but the encoding of what is returned, so every byte is accounted for *)
AcceptedIsEncoding ==
    st.phase = "done" => /\ MaskCodes(bytes, st.recs) = EncAll(st.recs)
                         /\ st.pos = Len(bytes)
                         /\ \A i \in 1..Len(st.recs) : WellFormed(st.recs[i])

(* P03: never past the end, nothing handed out unless everything is consistent *)
InBounds == st.pos <= Len(bytes) /\ st.start <= st.pos
Progress == [][st'.pos > st.pos \/ Finished(st') \/ (st.phase = "end" /\ st'.phase = "header")]_vars
Terminates == <>Finished(st)

Emit == (st = ReaderInit /\ OutFile # "") =>
           PrintT("INPUT " \o ToJson([b |-> bytes, r |-> Decode(bytes).phase]))
=============================================================================
