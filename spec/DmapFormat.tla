----------------------------- MODULE DmapFormat -----------------------------
(***************************************************************************)
(* The DMAP binary format: abstract records, their unique encoding, and    *)
(* the reader as a deterministic step machine over a byte string.          *)
(*                                                                         *)
(* A byte is an integer 0..255 and values are kept as their little-endian  *)
(* byte strings, so that nothing here depends on number representations.   *)
(*                                                                         *)
(* A field of a record is                                                  *)
(*   [name |-> Seq(byte), type |-> code, shape |-> Seq(Nat),               *)
(*    data |-> Seq(byte)]                                                  *)
(* where a scalar has shape << >> and an array the shape seen by the user  *)
(* (slowest-varying dimension first).  A record is                         *)
(*   [scalars |-> Seq(field), arrays |-> Seq(field)].                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CHAR == 1    SHORT == 2   INT == 3     FLOAT == 4    DOUBLE == 8
TEXT == 9  LONG == 10   UCHAR == 16  USHORT == 17  UINT == 18  ULONG == 19
DMAPTYPE == 0

TypeSize == (CHAR :> 1) @@ (SHORT :> 2) @@ (INT :> 4) @@ (FLOAT :> 4) @@ (DOUBLE :> 8)
            @@ (LONG :> 8) @@ (UCHAR :> 1) @@ (USHORT :> 2) @@ (UINT :> 4) @@ (ULONG :> 8)
NumericTypes == {CHAR, SHORT, INT, FLOAT, DOUBLE, LONG, UCHAR, USHORT, UINT, ULONG}
ScalarTypes == NumericTypes \cup {TEXT}
KnownTypes == ScalarTypes \cup {DMAPTYPE}

SlistName == <<115, 108, 105, 115, 116>>     \* "slist": the one array that may be empty
MaxDims == 32                                \* limit of the array library
BlockCode == 65537

--------------------------------------------------------------------------------
(* Integers as four little-endian bytes *)

LE32(n) == << n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256 >>

Int32At(b, p) ==   \* signed value of the four bytes of b starting at position p (1-based)
    b[p] + 256 * b[p+1] + 65536 * b[p+2]
         + 16777216 * (IF b[p+3] >= 128 THEN b[p+3] - 256 ELSE b[p+3])

(* product of a sequence of naturals, saturating at limit + 1 *)
RECURSIVE SatProduct(_, _)
SatProduct(s, limit) ==
    IF s = << >> THEN 1
    ELSE LET h == Head(s)
             r == SatProduct(Tail(s), limit)
         IN  IF h = 0 \/ r = 0 THEN 0
             ELSE IF r > limit \/ h > limit \/ h > limit \div r THEN limit + 1 ELSE h * r

(* the largest product of dimensions that ever has to be told apart *)
Cells(shape) == SatProduct(shape, 100000000)

--------------------------------------------------------------------------------
(* Encoding *)

EncScalar(f) == f.name \o <<0, f.type>> \o f.data \o (IF f.type = TEXT THEN <<0>> ELSE << >>)

EncArray(f) == f.name \o <<0, f.type>> \o LE32(Len(f.shape))
               \o FlattenSeq([i \in 1..Len(f.shape) |-> LE32(f.shape[Len(f.shape) + 1 - i])])
               \o f.data

EncBody(r) == FlattenSeq([i \in 1..Len(r.scalars) |-> EncScalar(r.scalars[i])])
              \o FlattenSeq([i \in 1..Len(r.arrays) |-> EncArray(r.arrays[i])])

EncRecord(r) ==
    LET body == EncBody(r)
    IN  LE32(BlockCode) \o LE32(16 + Len(body)) \o LE32(Len(r.scalars)) \o LE32(Len(r.arrays)) \o body

EncAll(rs) == FlattenSeq([i \in 1..Len(rs) |-> EncRecord(rs[i])])

(* A record that the format can carry and a reader hands back *)
WellFormedField(f) ==
    /\ \A i \in 1..Len(f.name) : f.name[i] # 0
    /\ IF f.shape = << >>
       THEN /\ f.type \in ScalarTypes
            /\ IF f.type = TEXT THEN \A i \in 1..Len(f.data) : f.data[i] # 0
                                  ELSE Len(f.data) = TypeSize[f.type]
       ELSE /\ f.type \in NumericTypes
            /\ Len(f.shape) <= MaxDims
            /\ \A i \in 1..Len(f.shape) : f.shape[i] > 0 \/ (f.shape[i] = 0 /\ f.name = SlistName)
            /\ Len(f.data) = Cells(f.shape) * TypeSize[f.type]

WellFormed(r) ==
    /\ Len(r.scalars) > 0 /\ Len(r.arrays) > 0
    /\ \A i \in 1..Len(r.scalars) : WellFormedField(r.scalars[i]) /\ r.scalars[i].shape = << >>
    /\ \A i \in 1..Len(r.arrays) : WellFormedField(r.arrays[i]) /\ r.arrays[i].shape # << >>

--------------------------------------------------------------------------------
(* UTF-8 validity (names and strings are text) *)

Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191

RECURSIVE Utf8From(_, _)
Utf8From(b, i) ==
    IF i > Len(b) THEN TRUE
    ELSE LET c == b[i] IN
         CASE c <= 127 -> Utf8From(b, i + 1)
           [] c \in 194..223 -> Cont(b, i+1) /\ Utf8From(b, i + 2)
           [] c \in 224..239 -> /\ Cont(b, i+1) /\ Cont(b, i+2)
                                /\ (c = 224 => b[i+1] >= 160) /\ (c = 237 => b[i+1] <= 159)
                                /\ Utf8From(b, i + 3)
           [] c \in 240..244 -> /\ Cont(b, i+1) /\ Cont(b, i+2) /\ Cont(b, i+3)
                                /\ (c = 240 => b[i+1] >= 144) /\ (c = 244 => b[i+1] <= 143)
                                /\ Utf8From(b, i + 4)
           [] OTHER -> FALSE
Utf8Valid(b) == Utf8From(b, 1)

--------------------------------------------------------------------------------
(* The reader.  State: the number of bytes consumed so far, the phase, what  *)
(* is left to read of the current record, and the finished records.          *)

NoRec == [scalars |-> << >>, arrays |-> << >>]

ReaderInit == [phase |-> "header", pos |-> 0, start |-> 0, size |-> 0, ns |-> 0, na |-> 0,
               rec |-> NoRec, recs |-> << >>, why |-> ""]

Refuse(st, reason) == [st EXCEPT !.phase = "refused", !.why = reason]

Finished(st) == st.phase \in {"done", "refused"}

(* position (1-based) of the first zero byte at or after p, or 0 *)
RECURSIVE ZeroAt(_, _)
ZeroAt(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = 0 THEN p ELSE ZeroAt(b, p + 1)

ReadHeader(b, st) ==
    LET c == st.pos   N == Len(b) IN
    IF c = N THEN [st EXCEPT !.phase = "done"]
    ELSE IF c + 8 > N THEN Refuse(st, "header cut off")
    ELSE LET bs == Int32At(b, c + 5) IN
         IF bs > N - c THEN Refuse(st, "block exceeds data")
         ELSE IF bs <= 0 THEN Refuse(st, "block size not positive")
         ELSE IF c + 16 > N THEN Refuse(st, "header cut off")
         ELSE LET ns == Int32At(b, c + 9)   na == Int32At(b, c + 13) IN
              IF ns <= 0 THEN Refuse(st, "number of scalars not positive")
              ELSE IF na <= 0 THEN Refuse(st, "number of arrays not positive")
              ELSE IF ns > bs \/ na > bs - ns THEN Refuse(st, "more fields than bytes")
              ELSE [st EXCEPT !.phase = "scalar", !.pos = c + 16, !.start = c, !.size = bs,
                              !.ns = ns, !.na = na, !.rec = NoRec]

(* name and type code shared by scalars and arrays *)
FieldHead(b, st) ==
    LET p == st.pos + 1   z == ZeroAt(b, p) IN
    IF z = 0 THEN [ok |-> FALSE, why |-> "name not terminated"]
    ELSE LET name == SubSeq(b, p, z - 1) IN
         IF ~Utf8Valid(name) THEN [ok |-> FALSE, why |-> "name not text"]
         ELSE IF z + 1 > Len(b) THEN [ok |-> FALSE, why |-> "type cut off"]
         ELSE IF b[z+1] \notin KnownTypes THEN [ok |-> FALSE, why |-> "unknown type"]
         ELSE [ok |-> TRUE, name |-> name, type |-> b[z+1], pos |-> z + 1]   \* pos: bytes consumed

NextPhase(st) ==
    IF st.ns > 0 THEN "scalar" ELSE IF st.na > 0 THEN "array" ELSE "end"

AddScalar(st, f, pos) ==
    LET s == [st EXCEPT !.rec.scalars = Append(@, f), !.pos = pos, !.ns = @ - 1]
    IN  [s EXCEPT !.phase = NextPhase(s)]

AddArray(st, f, pos) ==
    LET s == [st EXCEPT !.rec.arrays = Append(@, f), !.pos = pos, !.na = @ - 1]
    IN  [s EXCEPT !.phase = NextPhase(s)]

ReadScalar(b, st) ==
    LET h == FieldHead(b, st) IN
    IF ~h.ok THEN Refuse(st, h.why)
    ELSE IF h.type = DMAPTYPE THEN Refuse(st, "nested DMAP")
    ELSE IF h.type = TEXT THEN
         LET z == ZeroAt(b, h.pos + 1) IN
         IF z = 0 THEN Refuse(st, "string not terminated")
         ELSE LET d == SubSeq(b, h.pos + 1, z - 1) IN
              IF ~Utf8Valid(d) THEN Refuse(st, "string not text")
              ELSE AddScalar(st, [name |-> h.name, type |-> TEXT, shape |-> << >>, data |-> d], z)
    ELSE LET e == h.pos + TypeSize[h.type] IN
         IF e > Len(b) THEN Refuse(st, "value cut off")
         ELSE AddScalar(st, [name |-> h.name, type |-> h.type, shape |-> << >>,
                             data |-> SubSeq(b, h.pos + 1, e)], e)

ReadArray(b, st) ==
    LET h == FieldHead(b, st) IN
    IF ~h.ok THEN Refuse(st, h.why)
    ELSE IF h.pos + 4 > Len(b) THEN Refuse(st, "dimensions cut off")
    ELSE LET nd == Int32At(b, h.pos + 1) IN
         IF nd <= 0 THEN Refuse(st, "number of dimensions not positive")
         ELSE IF nd > st.size THEN Refuse(st, "more dimensions than bytes")
         ELSE IF h.pos + 4 + 4 * nd > Len(b) THEN Refuse(st, "sizes cut off")
         ELSE LET shape == [i \in 1..nd |-> Int32At(b, h.pos + 5 + 4 * (nd - i))] IN
              IF \E i \in 1..nd : shape[i] < 0 \/ (shape[i] = 0 /\ h.name # SlistName)
              THEN Refuse(st, "size not positive")
              ELSE IF \E i \in 1..nd : shape[i] >= st.size THEN Refuse(st, "size exceeds block")
              ELSE IF nd > MaxDims THEN Refuse(st, "too many dimensions")
              ELSE IF h.type \notin NumericTypes THEN Refuse(st, "array of strings or DMAP")
              ELSE LET n == SatProduct(shape, st.size) IN
                   IF n > st.size \/ n * TypeSize[h.type] > st.size THEN Refuse(st, "array exceeds block")
                   ELSE LET d == h.pos + 4 + 4 * nd   e == d + n * TypeSize[h.type] IN
                        IF e > Len(b) THEN Refuse(st, "array cut off")
                        ELSE AddArray(st, [name |-> h.name, type |-> h.type, shape |-> shape,
                                           data |-> SubSeq(b, d + 1, e)], e)

EndRecord(b, st) ==
    IF st.pos - st.start # st.size THEN Refuse(st, "block size is not what was read")
    ELSE [st EXCEPT !.phase = "header", !.recs = Append(@, st.rec), !.rec = NoRec]

ReaderStep(b, st) ==
    CASE st.phase = "header" -> IF b = << >> THEN Refuse(st, "empty") ELSE ReadHeader(b, st)
      [] st.phase = "scalar" -> ReadScalar(b, st)
      [] st.phase = "array"  -> ReadArray(b, st)
      [] st.phase = "end"    -> EndRecord(b, st)

RECURSIVE RunReader(_, _)
RunReader(b, st) == IF Finished(st) THEN st ELSE RunReader(b, ReaderStep(b, st))

Decode(b) == RunReader(b, ReaderInit)

--------------------------------------------------------------------------------
(* What a reader hands out: one list of fields per record.  A name that occurs *)
(* again replaces the earlier field of that name, in its place.                *)

RECURSIVE Collapse(_, _)
Collapse(done, todo) ==
    IF todo = << >> THEN done
    ELSE LET f == Head(todo)
             same == {i \in 1..Len(done) : done[i].name = f.name}
         IN  Collapse(IF same = {} THEN Append(done, f)
                      ELSE [done EXCEPT ![CHOOSE i \in same : TRUE] = f], Tail(todo))

Fields(r) == Collapse(<< >>, r.scalars \o r.arrays)

(* Floating-point NaNs are one value *)
IsNaN(type, d) ==
    \/ type = FLOAT /\ Len(d) = 4 /\ d[4] \in {127, 255} /\ d[3] >= 128
       /\ (d[3] > 128 \/ d[2] > 0 \/ d[1] > 0)
    \/ type = DOUBLE /\ Len(d) = 8 /\ d[8] \in {127, 255} /\ d[7] >= 240
       /\ (d[7] > 240 \/ \E i \in 1..6 : d[i] > 0)

SameData(f, g) == f.data = g.data \/ (f.shape = << >> /\ IsNaN(f.type, f.data) /\ IsNaN(g.type, g.data))

SameField(f, g) == f.name = g.name /\ f.type = g.type /\ f.shape = g.shape /\ SameData(f, g)
SameFields(fs, gs) == Len(fs) = Len(gs) /\ \A i \in 1..Len(fs) : SameField(fs[i], gs[i])
=============================================================================
