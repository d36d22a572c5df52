------------------------- MODULE MCBorealisConvert -------------------------
(***************************************************************************)
(* The index maps of the conversion are one-to-one and reach everything but  *)
(* the last lag, the record list has one entry per record and beam in order, *)
(* the calendar is right day by day, and the blanked-sample rule accepts      *)
(* exactly what it describes.  Shapes are emitted for replay.               *)
(***************************************************************************)
EXTENDS BorealisConvert, Json

CONSTANTS MaxRec, MaxSeq, MaxBeam, MaxArr, MaxSamp, MaxRange, MaxLag, MaxPulse, Days, Emit

VARIABLES day, sh, R
vars == <<day, sh, R>>

None == [seqs |-> <<>>, beams |-> <<>>, arrays |-> 0, samps |-> 0, range |-> 0, lag |-> 0]
NoRec == [pulses |-> <<>>]

(* three independent parts: the calendar counted day by day, shapes, blanked samples *)
Init ==
    \/ /\ day = [n |-> 0, y |-> 1970, m |-> 1, d |-> 1, wd |-> 4] /\ sh = None /\ R = NoRec
    \/ /\ day = [n |-> -1]  /\ R = NoRec
       /\ \E a \in 1..MaxArr, k \in 1..MaxSamp, r \in 1..MaxRange, g \in 2..MaxLag :
             sh = [None EXCEPT !.arrays = a, !.samps = k, !.range = r, !.lag = g]
    \/ /\ day = [n |-> -1] /\ sh = None
       /\ \E n \in 1..MaxPulse, tau \in {100, 300, 700}, minor \in {4, 6} :
             \E p \in [1..n -> 0..3] : \E len \in 0..(2 * n) : \E b \in [1..len -> 0..5] :
                 /\ \A i \in 1..(n-1) : p[i] < p[i+1]
                 /\ R = [pulses |-> p, tau |-> tau, txpl |-> 300, minor |-> minor, blanked |-> b]

Tomorrow ==
    /\ day.n >= 0 /\ day.n < Days
    /\ day' = LET last == day.d = DaysIn(day.y, day.m) IN
              [n |-> day.n + 1, wd |-> (day.wd + 1) % 7,
               d |-> IF last THEN 1 ELSE day.d + 1,
               m |-> IF last THEN (IF day.m = 12 THEN 1 ELSE day.m + 1) ELSE day.m,
               y |-> IF last /\ day.m = 12 THEN day.y + 1 ELSE day.y]
    /\ UNCHANGED <<sh, R>>
AddRecord ==
    /\ sh.arrays > 0 /\ Len(sh.seqs) < MaxRec
    /\ \E s \in 1..MaxSeq, b \in 1..MaxBeam : sh' = [sh EXCEPT !.seqs = Append(@, s), !.beams = Append(@, b)]
    /\ UNCHANGED <<day, R>>
Next == Tomorrow \/ AddRecord
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------------
Calendar == day.n >= 0 =>
    \A t \in {0, 1, 59, 60, 3599, 3600, 86399} :
        LET x == Date(day.n * 86400 + t) IN
        /\ x.yr = day.y /\ x.mo = day.m /\ x.dy = day.d /\ x.wd = day.wd
        /\ x.hr * 3600 + x.mt * 60 + x.sc = t /\ x.mt < 60 /\ x.sc < 60

Shaped == sh.beams # <<>>
RecOf(i) == [arrays |-> sh.arrays, samps |-> sh.samps, nrange |-> sh.range, lagsdim |-> sh.lag,
             times |-> [j \in 1..sh.seqs[i] |-> <<0, 0>>], beams |-> [j \in 1..sh.beams[i] |-> j]]

(* every element of the Borealis samples of the beam, once *)
IqOneToOne == Shaped =>
    LET i == Len(sh.beams)   T == RecOf(i)   n == Chunk(T) * sh.seqs[i]
        Src == [b \in 1..sh.beams[i] |-> [j \in 1..n |-> <<IqSource(T, b, IqPlace(T, j)), IqPlace(T, j)[4]>>]]
    IN  /\ \A b \in 1..sh.beams[i] : Cardinality(Range(Src[b])) = n
        /\ UNION { Range(Src[b]) : b \in 1..sh.beams[i] }
             = (1..(sh.arrays * sh.seqs[i] * sh.beams[i] * sh.samps)) \X {0, 1}
(* every lag but the last of every range of the beam, once, and beams apart *)
AcfOneToOne == Shaped =>
    LET i == Len(sh.beams)   T == RecOf(i)   n == 2 * sh.range * (sh.lag - 1)
        Src == [b \in 1..sh.beams[i] |-> [j \in 1..n |-> <<AcfSource(T, b, AcfPlace(T, j)), AcfPlace(T, j)[3]>>]]
        All == (1..(sh.beams[i] * sh.range * sh.lag)) \X {0, 1}
    IN  /\ \A b \in 1..sh.beams[i] : Cardinality(Range(Src[b])) = n
        /\ UNION { Range(Src[b]) : b \in 1..sh.beams[i] } = { x \in All : x[1] % sh.lag # 0 }

InOrder == Shaped =>
    LET P == Pairs(sh.beams) IN
    /\ Range(P) = { <<i, b>> \in (1..Len(sh.beams)) \X (1..MaxBeam) : b <= sh.beams[i] }
    /\ \A x, y \in 1..Len(P) : x < y => P[x][1] < P[y][1] \/ (P[x][1] = P[y][1] /\ P[x][2] < P[y][2])

(* blanked samples are accepted exactly when they are the pulses' samples, or (v0.6 on) *)
(* in ascending order the pulses' samples and those after them                         *)
Count(q, x) == Cardinality({ i \in 1..Len(q) : q[i] = x })
Blanked == R # NoRec =>
    LET P == Pulses(R)   D == Doubled(P) IN
    BlankedOk(R) <=>
        \/ R.blanked = P
        \/ /\ R.minor > 5
           /\ \A i \in 1..(Len(R.blanked) - 1) : R.blanked[i] <= R.blanked[i+1]
           /\ \A x \in 0..12 : Count(R.blanked, x) = Count(P, x) + Count(P, x - 1)

EmitShape == Emit /\ Shaped => PrintT("SHAPE " \o ToJson(sh))
=============================================================================
