----------------------------- MODULE MCBorealis -----------------------------
(***************************************************************************)
(* Exhaustive check of the two structures for small shapes: going to arrays *)
(* and back is the identity, true values lie at the start, filler beyond,   *)
(* and every count is the true one.  States are grown record by record, so  *)
(* that every history of additions is covered.  The shapes are emitted for  *)
(* replay in the real code, for every version and file type.                *)
(***************************************************************************)
EXTENDS BorealisFormat, Json

CONSTANTS MaxRec, MaxSeq, MaxBeam, MaxBlank, Ranges, Lags, Samps, Phases, Emit

VARIABLES S, recs

(* a format with one field of every symbolic shape *)
F == [shared |-> <<"station", "pulses">>,
      unshared |-> [num_sequences |-> <<>>, note |-> <<>>, beam_nums |-> <<"beam">>,
                    noise |-> <<"seq">>, blanked |-> <<"blank">>, acf |-> <<"beam", "range", "lag">>,
                    data |-> <<"ant", "seq", "beam", "samp">>, pulse_phase_offset |-> <<"phase">>,
                    txphase |-> <<"tx">>],
      counts |-> [num_beams |-> "beam", num_blanked |-> "blank"],
      flat |-> <<"acf", "data">>, descriptors |-> "desc", dimensions |-> "dimens",
      dims |-> <<"ant", "seq", "beam", "samp">>, site_descriptors |-> <<"a", "s", "b", "p">>,
      array_descriptors |-> <<"r", "a", "s", "b", "p">>,
      site_attrs |-> [station |-> "str", num_sequences |-> "int64", note |-> "str"],
      site_arrays |-> [pulses |-> "uint32", beam_nums |-> "uint32", noise |-> "float64", blanked |-> "uint32",
                       acf |-> "complex64", data |-> "complex64", pulse_phase_offset |-> "float32",
                       txphase |-> "complex64", desc |-> "bytes_", dimens |-> "uint32"],
      array_arrays |-> [desc |-> "bytes_"]]

(* every element is told apart by its record, field and place *)
Val(t, f, i, dims) == [k |-> "arr", t |-> t, sh |-> dims,
                       v |-> [j \in 1..Prod(dims) |-> f \o "." \o ToString(i) \o "." \o ToString(j)]]
MakeRec(T, i) ==
    [f \in {"station", "pulses", "desc", "dimens"} \cup DOMAIN F.unshared |->
        CASE f = "station" -> [k |-> "text", t |-> "str", sh |-> <<>>, v |-> <<"sas">>]
          [] f = "pulses" -> Val("uint32", "pulses", 0, <<T.pulses>>)
          [] f = "desc" -> Names(F.site_descriptors, "bytes_")
          [] f = "dimens" -> [k |-> "arr", t |-> "uint32", sh |-> <<4>>,
                              v |-> [d \in 1..4 |-> ToString(Size(T, F.dims[d], i))]]
          [] f = "num_sequences" -> [k |-> "num", t |-> "int64", sh |-> <<>>, v |-> <<ToString(T.seqs[i])>>]
          [] f = "note" -> [k |-> "text", t |-> "str", sh |-> <<>>, v |-> <<"n" \o ToString(i)>>]
          [] f \in {"acf", "data"} -> Flat(Val("complex64", f, i, DimsOf(T, F.unshared[f], i)))
          [] OTHER -> Val(F.site_arrays[f], f, i, DimsOf(T, F.unshared[f], i))]

Base(r, l, p, ph) == [seqs |-> <<>>, beams |-> <<>>, blanks |-> <<>>, range |-> r, lag |-> l, ant |-> 2,
                      samp |-> p, tx |-> 2, pulses |-> 2, phase |-> ph]

Init == \E r \in Ranges, l \in Lags, p \in Samps, ph \in Phases : S = Base(r, l, p, ph) /\ recs = <<>>

Add == \E s \in 1..MaxSeq, b \in 1..MaxBeam, k \in 0..MaxBlank :
          /\ Len(recs) < MaxRec
          /\ S' = [S EXCEPT !.seqs = Append(@, s), !.beams = Append(@, b), !.blanks = Append(@, k)]
          /\ recs' = Append(recs, MakeRec(S', Len(recs) + 1))

Next == Add
Spec == Init /\ [][Next]_<<S, recs>>

Arrs == ToArrays(F, S, recs)
RoundTrip == recs # <<>> => SameRecords(ToSite(F, S, Arrs), recs)

(* entry i of each array holds record i at its start and filler elsewhere; nothing else *)
Places ==
    recs # <<>> =>
    \A f \in DOMAIN F.unshared \ {"num_sequences", "note"} :
        LET a == Arrs[f]   M == Tl(a.sh)   am == After(M) IN
        /\ a.sh[1] = Len(recs)
        /\ \A d \in 1..Len(M) : \E i \in 1..Len(recs) : DimsOf(S, F.unshared[f], i)[d] = M[d]
        /\ \A i \in 1..Len(recs), j \in 1..Prod(M) :
              LET D == DimsOf(S, F.unshared[f], i)
                  ix == IndexOf(M, am, j)
                  in == \A d \in 1..Len(M) : ix[d] < D[d]
                  x == a.v[(i-1) * Prod(M) + j]
              IN  IF in THEN x = f \o "." \o ToString(i) \o "." \o ToString(FlatOf(After(D), ix))
                  ELSE x = Fill(a.t)

Counts == recs # <<>> => /\ Arrs["num_beams"].v = [i \in 1..Len(recs) |-> ToString(S.beams[i])]
                         /\ Arrs["num_blanked"].v = [i \in 1..Len(recs) |-> ToString(S.blanks[i])]

EmitShape == Emit /\ recs # <<>> => PrintT("SHAPE " \o ToJson(S))
=============================================================================
