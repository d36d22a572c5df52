--------------------------- MODULE BorealisFormat ---------------------------
(***************************************************************************)
(* The two structures of Borealis data and the mapping between them.        *)
(*                                                                         *)
(* A value is [k, t, sh, v]: kind (num, text or arr), element type, shape   *)
(* and the elements in C order, each a token.  Site data is a sequence of   *)
(* records (functions from field names to values) in time order; array     *)
(* data is one function from field names to values.                        *)
(*                                                                         *)
(* A format (borealis_tables.json) names the fields and types of both, which *)
(* fields are shared by all records, and the symbolic dimensions of those    *)
(* that are not (seq, beam, blank, range, lag, ant, samp, tx, phase).        *)
(*                                                                         *)
(* A shape S gives the true sizes: S.seqs[i], S.beams[i], S.blanks[i] per   *)
(* record, and the sizes all records share.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Prod(q) == LET P[i \in 0..Len(q)] == IF i = 0 THEN 1 ELSE q[i] * P[i-1] IN P[Len(q)]
Tl(q) == SubSeq(q, 2, Len(q))
MaxOf(A) == CHOOSE a \in A : \A b \in A : b <= a

(* C order: After(sh)[d] elements lie between neighbours along dimension d *)
After(sh) == [d \in 1..Len(sh) |-> Prod(SubSeq(sh, d+1, Len(sh)))]
IndexOf(sh, af, j) == [d \in 1..Len(sh) |-> ((j-1) \div af[d]) % sh[d]]
FlatOf(af, ix) == LET F[d \in 0..Len(ix)] == IF d = 0 THEN 1 ELSE F[d-1] + ix[d] * af[d] IN F[Len(ix)]

Fill(t) == CASE t = "int64" -> "-1"
             [] t \in {"uint32", "uint8"} -> "0"
             [] OTHER -> "nan"

(* --- site to arrays ------------------------------------------------------ *)
(* the elements of value x laid into an array of shape M, filler elsewhere *)
PadTo(M, x, t) ==
    LET am == After(M)   ax == After(x.sh) IN
    [j \in 1..Prod(M) |->
        LET ix == IndexOf(M, am, j) IN
        IF \A d \in 1..Len(M) : ix[d] < x.sh[d] THEN x.v[FlatOf(ax, ix)] ELSE Fill(t)]

Concat(qs) == LET C[i \in 0..Len(qs)] == IF i = 0 THEN <<>> ELSE C[i-1] \o qs[i] IN C[Len(qs)]

Stack(xs, t) ==
    LET n == Len(xs)
        M == [d \in 1..Len(xs[1].sh) |-> MaxOf({ xs[i].sh[d] : i \in 1..n })]
    IN  [k |-> "arr", t |-> t, sh |-> <<n>> \o M, v |-> Concat([i \in 1..n |-> PadTo(M, xs[i], t)])]

Scalars(ts, t) == [k |-> "arr", t |-> t, sh |-> <<Len(ts)>>, v |-> ts]

(* true sizes of dimension d in record i *)
Size(S, d, i) == CASE d = "seq" -> S.seqs[i]
                   [] d = "beam" -> S.beams[i]
                   [] d = "blank" -> S.blanks[i]
                   [] OTHER -> S[d]

(* phase offsets: one per pulse, or one per sequence and pulse *)
PhaseDims(S, i) == IF S.phase = "sequence" THEN <<S.seqs[i], S.pulses>> ELSE <<S.pulses>>

DimsOf(S, ds, i) == IF ds = <<"phase">> THEN PhaseDims(S, i)
                    ELSE [d \in 1..Len(ds) |-> Size(S, ds[d], i)]

In(x, q) == \E i \in 1..Len(q) : q[i] = x
IsAttr(F, f) == f \in DOMAIN F.site_attrs

(* the value of a record with its true dimensions (some fields are stored flat) *)
Shaped(F, S, recs, f, i) ==
    IF In(f, F.flat) THEN [recs[i][f] EXCEPT !.sh = DimsOf(S, F.unshared[f], i)] ELSE recs[i][f]

Names(ws, t) == [k |-> "arr", t |-> t, sh |-> <<Len(ws)>>, v |-> ws]

ToArrays(F, S, recs) ==
    LET n == Len(recs)
        Fields == { F.shared[i] : i \in 1..Len(F.shared) } \cup DOMAIN F.unshared
                  \cup DOMAIN F.counts \cup {F.descriptors}
    IN  [f \in Fields |->
            CASE f = F.descriptors -> Names(F.array_descriptors, F.array_arrays[f])
              [] f \in DOMAIN F.counts ->
                     Scalars([i \in 1..n |-> ToString(Size(S, F.counts[f], i))], "uint32")
              [] In(f, F.shared) -> recs[1][f]
              [] IsAttr(F, f) -> Scalars([i \in 1..n |-> recs[i][f].v[1]],
                                         IF F.site_attrs[f] = "str" THEN "str_" ELSE F.site_attrs[f])
              [] OTHER -> Stack([i \in 1..n |-> Shaped(F, S, recs, f, i)], F.site_arrays[f])]

(* --- arrays to site ------------------------------------------------------ *)
(* the first dims elements of entry i along each dimension *)
Cut(a, i, dims) ==
    LET M == Tl(a.sh)   am == After(M)   ad == After(dims) IN
    [k |-> "arr", t |-> a.t, sh |-> dims,
     v |-> [j \in 1..Prod(dims) |-> a.v[(i-1) * Prod(M) + FlatOf(am, IndexOf(dims, ad, j))]]]

Flat(x) == [x EXCEPT !.sh = <<Prod(x.sh)>>]

ToSite(F, S, arrs) ==
    LET n == arrs["num_sequences"].sh[1]
        Fields == { F.shared[i] : i \in 1..Len(F.shared) } \cup DOMAIN F.unshared
                  \cup {F.descriptors, F.dimensions}
        Rec(i) == [f \in Fields |->
            CASE f = F.descriptors -> Names(F.site_descriptors, F.site_arrays[f])
              [] f = F.dimensions ->
                     [k |-> "arr", t |-> "uint32", sh |-> <<Len(F.dims)>>,
                      v |-> [d \in 1..Len(F.dims) |-> ToString(Size(S, F.dims[d], i))]]
              [] In(f, F.shared) -> arrs[f]
              [] IsAttr(F, f) -> IF F.site_attrs[f] = "str"
                                 THEN [k |-> "text", t |-> "str", sh |-> <<>>, v |-> <<arrs[f].v[i]>>]
                                 ELSE [k |-> "num", t |-> arrs[f].t, sh |-> <<>>, v |-> <<arrs[f].v[i]>>]
              [] OTHER -> LET c == Cut(arrs[f], i, DimsOf(S, F.unshared[f], i))
                          IN  IF In(f, F.flat) THEN Flat(c) ELSE c]
    IN  [i \in 1..n |-> Rec(i)]

(* --- record names -------------------------------------------------------- *)
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
(* whole milliseconds since the epoch of a first sequence time <<seconds, microseconds>> *)
KeyOf(tm) == ToString(tm[1]) \o Pad3(tm[2] \div 1000)

(* --- sameness ------------------------------------------------------------ *)
(* No phase offsets may be stored as an empty field, in which case readers give *)
(* zeros; all three forms stand for the same.                                 *)
NoPhase(x) == x.k = "arr" /\ x.t = "float32" /\ \A j \in 1..Len(x.v) : x.v[j] \in {"zero", "nan"}
SameValue(f, a, b) ==
    IF f = "pulse_phase_offset" /\ NoPhase(a) THEN NoPhase(b) ELSE a = b
SameFields(a, b) == DOMAIN a = DOMAIN b
SameRecord(a, b) == SameFields(a, b) /\ \A f \in DOMAIN a : SameValue(f, a[f], b[f])
SameRecords(as, bs) == Len(as) = Len(bs) /\ \A i \in 1..Len(as) : SameRecord(as[i], bs[i])
=============================================================================
