--------------------------- MODULE BorealisConvert ---------------------------
(***************************************************************************)
(* Conversion of Borealis rawacf and bfiq records to SuperDARN rawacf and    *)
(* iqdat records.                                                          *)
(*                                                                         *)
(* A Borealis record R is given in whole numbers: times are <<seconds,      *)
(* microseconds>>, fields named *4, *8 and *1024 are in those parts.          *)
(*   bfiq   the real (imaginary) part of a sample is re (im) / 128; the       *)
(*          normalisation is norm, the scaling factor scale                  *)
(*   rawacf scaled values are re * num / den: the normalisation is such that *)
(*          32767^2 * scale / norm^2 = num / den                            *)
(* The result has, per field, its values in whole numbers or texts: the      *)
(* fields in Eighths are in eighths, acfd and xcfd in units of 1/den and      *)
(* pwr0 in units of 1/(16 den).                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Stid == [tst |-> 0, gbr |-> 1, sch |-> 2, kap |-> 3, hal |-> 4, sas |-> 5, pgr |-> 6, kod |-> 7, sto |-> 8,
         pyk |-> 9, han |-> 10, san |-> 11, sys |-> 12, sye |-> 13, tig |-> 14, ker |-> 15, ksr |-> 16, unw |-> 18,
         zho |-> 19, mcm |-> 20, fir |-> 21, sps |-> 22, bpk |-> 24, wal |-> 32, bks |-> 33, hok |-> 40, hkw |-> 41,
         inv |-> 64, rkn |-> 65, cly |-> 66, dce |-> 96, svb |-> 128, fhw |-> 204, fhe |-> 205, cvw |-> 206,
         cve |-> 207, adw |-> 208, ade |-> 209, ekb |-> 512]

Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a
Range(q) == { q[i] : i \in 1..Len(q) }

(* --- calendar -------------------------------------------------------------- *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 31
DaysToYear(y) == 365 * (y - 1970) + ((y - 1) \div 4 - 492) - ((y - 1) \div 100 - 19) + ((y - 1) \div 400 - 4)
YearOf(d) == CHOOSE y \in (1970 + d \div 366)..(1971 + d \div 365) : DaysToYear(y) <= d /\ d < DaysToYear(y + 1)
DaysToMonth(y, m) == LET D[k \in 1..12] == IF k = 1 THEN 0 ELSE D[k-1] + DaysIn(y, k-1) IN D[m]
Date(sec) ==
    LET d == sec \div 86400   y == YearOf(d)   r == d - DaysToYear(y)
        m == CHOOSE m \in 1..12 : DaysToMonth(y, m) <= r /\ (m = 12 \/ r < DaysToMonth(y, m + 1))
        t == sec % 86400
    IN  [yr |-> y, mo |-> m, dy |-> r - DaysToMonth(y, m) + 1, hr |-> t \div 3600, mt |-> (t % 3600) \div 60,
         sc |-> t % 60, wd |-> (d + 4) % 7]
WeekDay == <<"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat">>
Month == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
P2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
S2(n) == IF n < 10 THEN " " \o ToString(n) ELSE ToString(n)
TimeText(sec) == LET d == Date(sec) IN
    WeekDay[d.wd + 1] \o " " \o Month[d.mo] \o " " \o S2(d.dy) \o " " \o P2(d.hr) \o ":" \o P2(d.mt) \o ":" \o P2(d.sc)
    \o " " \o ToString(d.yr)

(* --- what can be converted --------------------------------------------------- *)
Spacing(R) == R.tau \div R.txpl
Sorted(q) == LET n == Len(q) IN
    [i \in 1..n |-> CHOOSE x \in Range(q) : /\ Cardinality({ j \in 1..n : q[j] < x }) < i
                                            /\ Cardinality({ j \in 1..n : q[j] <= x }) >= i]
Pulses(R) == [i \in 1..Len(R.pulses) |-> R.pulses[i] * Spacing(R)]
(* pulses ascend, so each blanked sample and the one after it ascend unless the spacing is 1 *)
Doubled(q) == [i \in 1..(2 * Len(q)) |-> q[(i + 1) \div 2] + (IF i % 2 = 0 THEN 1 ELSE 0)]
BlankedOk(R) ==
    \/ R.blanked = Pulses(R)
    \/ R.minor > 5 /\ R.blanked = (IF Spacing(R) > 1 THEN Doubled(Pulses(R)) ELSE Sorted(Doubled(Pulses(R))))
Convertible(type, R) ==
    /\ BlankedOk(R)
    /\ type = "iqdat" => ~R.phases
    /\ R.station \in DOMAIN Stid

(* --- fields -------------------------------------------------------------------- *)
Bits(q) == LET B[i \in 0..Len(q)] == IF i = 0 THEN 0 ELSE B[i-1] + (IF q[i] THEN 2^(i-1) ELSE 0) IN B[Len(q)]
ToI16(n) == IF n >= 32768 THEN n - 65536 ELSE n
Fill(n, x) == [i \in 1..n |-> x]
Flat2(q) == [i \in 1..(2 * Len(q)) |-> q[(i + 1) \div 2][IF i % 2 = 1 THEN 1 ELSE 2]]

Eighths == {"noise.search", "noise.mean", "bmazm", "thr", "tnoise"}

Common(R, b) ==
    LET d == Date(R.times[1][1]) IN
    ("radar.revision.major" :> <<R.major>>) @@ ("radar.revision.minor" :> <<R.minor>>) @@
    ("origin.code" :> <<100>>) @@
    ("origin.time" :> <<TimeText(R.times[1][1])>>) @@
    ("origin.command" :> <<"Borealis " \o R.hash \o " " \o R.name>>) @@
    ("cp" :> <<R.expid>>) @@ ("stid" :> <<Stid[R.station]>>) @@
    ("time.yr" :> <<d.yr>>) @@ ("time.mo" :> <<d.mo>>) @@ ("time.dy" :> <<d.dy>>) @@
    ("time.hr" :> <<d.hr>>) @@ ("time.mt" :> <<d.mt>>) @@ ("time.sc" :> <<d.sc>>) @@
    ("time.us" :> <<R.times[1][2]>>) @@
    ("nave" :> <<Len(R.times)>>) @@ ("atten" :> <<0>>) @@
    ("lagfr" :> <<R.rtt>>) @@ ("smsep" :> <<(1000000 * R.rate[2]) \div R.rate[1]>>) @@ ("ercod" :> <<0>>) @@
    ("stat.agc" :> <<R.agc>>) @@ ("stat.lopwr" :> <<R.lp>>) @@
    ("noise.search" :> <<R.noise8[1]>>) @@ ("noise.mean" :> <<0>>) @@
    ("channel" :> <<R.slice>>) @@ ("bmnum" :> <<R.beams[b]>>) @@ ("bmazm" :> <<R.azm8[b]>>) @@
    ("scan" :> <<R.scan>>) @@ ("offset" :> <<0>>) @@ ("rxrise" :> <<0>>) @@
    ("intt.sc" :> <<R.int1024 \div 1024>>) @@ ("intt.us" :> <<((R.int1024 % 1024) * 15625) \div 16>>) @@
    ("txpl" :> <<R.txpl>>) @@ ("mpinc" :> <<R.tau>>) @@ ("mppul" :> <<Len(R.pulses)>>) @@
    ("mplgs" :> <<Len(R.lags) - 1>>) @@ ("nrang" :> <<R.nrange>>) @@
    ("frang" :> <<(R.fr4 + 2) \div 4>>) @@ ("rsep" :> <<(R.rs4 + 2) \div 4>>) @@ ("tfreq" :> <<R.freq>>) @@
    ("mxpwr" :> <<-1>>) @@ ("lvmax" :> <<20000>>) @@
    ("ptab" :> R.pulses) @@ ("ltab" :> Flat2(R.lags))

(* iqdat: in each record, sequence after sequence; in each, antenna array after
   antenna array; in each, sample after sample, real then imaginary *)
Chunk(R) == 2 * R.arrays * R.samps
IqPlace(R, j) ==      \* <<array, sequence, sample, part>>, all from 0, of element j
    LET p == (j - 1) % 2   k == ((j - 1) \div 2) % R.samps
        a == ((j - 1) \div (2 * R.samps)) % R.arrays
        s == (j - 1) \div Chunk(R)
    IN  <<a, s, k, p>>
IqSource(R, b, q) ==  \* index in the Borealis samples, which go array, sequence, beam, sample
    ((q[1] * Len(R.times) + q[2]) * Len(R.beams) + (b - 1)) * R.samps + q[3] + 1
Part(R, i, p) == IF p = 0 THEN R.re[i] ELSE R.im[i]

(* an element is the scaled sample within one unit, clipped at the limits *)
IqOk(R, x, got) ==
    LET n == 128 * R.norm   want == x * R.scale IN
    CASE want >= n -> got = 32767
      [] want * 32767 <= -32769 * n -> got = -32768
      [] OTHER -> /\ -32768 <= got /\ got <= 32767
                  /\ Abs(got * n - want * 32767) <= n + (n \div 16)
IqDataOk(R, b, got) ==
    /\ Len(got) = Chunk(R) * Len(R.times)
    /\ \A j \in 1..Len(got) : LET q == IqPlace(R, j) IN IqOk(R, Part(R, IqSource(R, b, q), q[4]), got[j])

Iqdat(R, b) ==
    LET n == Len(R.times) IN
    Common(R, b) @@
    ("txpow" :> <<-1>>) @@ ("xcf" :> <<IF R.intf THEN 1 ELSE 0>>) @@
    ("iqdata.revision.major" :> <<1>>) @@ ("iqdata.revision.minor" :> <<0>>) @@
    ("seqnum" :> <<n>>) @@ ("chnnum" :> <<R.arrays>>) @@ ("smpnum" :> <<R.samps>>) @@
    ("skpnum" :> <<R.fr4 \div R.rs4>>) @@
    ("tatten" :> Fill(n, 0)) @@ ("tnoise" :> R.noise8) @@
    ("toff" :> [i \in 1..n |-> (i - 1) * Chunk(R)]) @@ ("tsze" :> Fill(n, Chunk(R)))

(* sequence times, within a microsecond *)
TimesOk(R, tsc, tus) ==
    /\ Len(tsc) = Len(R.times) /\ Len(tus) = Len(R.times)
    /\ \A i \in 1..Len(R.times) :
          /\ 0 <= tus[i] /\ tus[i] < 1000000
          /\ tsc[i] \in (R.times[i][1] - 1)..(R.times[i][1] + 1)
          /\ Abs((tsc[i] - R.times[i][1]) * 1000000 + tus[i] - R.times[i][2]) <= 1

(* rawacf: range after range, in each the lags but the last, real then imaginary *)
AcfPlace(R, j) ==     \* <<range, lag, part>> from 0
    LET n == R.lagsdim - 1 IN <<(j - 1) \div (2 * n), ((j - 1) \div 2) % n, (j - 1) % 2>>
AcfSource(R, b, q) == ((b - 1) * R.nrange + q[1]) * R.lagsdim + q[2] + 1
Acf(R, b, src) ==
    [j \in 1..(2 * R.nrange * (R.lagsdim - 1)) |->
        LET q == AcfPlace(R, j)   i == AcfSource(R, b, q)
        IN  (IF q[3] = 0 THEN src.re[i] ELSE src.im[i]) * R.num]
(* the power of lag zero, within a sixteenth of a unit *)
PowerOk(R, b, got) ==
    /\ Len(got) = R.nrange
    /\ \A r \in 1..R.nrange :
          LET i == AcfSource(R, b, <<r - 1, 0, 0>>)
              x == R.main.re[i] * R.num   y == R.main.im[i] * R.num
              p == 256 * (x * x + y * y)
          IN  got[r] \in 0..46000 /\ (got[r] = 0 \/ (got[r] - 1) * (got[r] - 1) <= p) /\ p <= (got[r] + 1) * (got[r] + 1)

Rawacf(R, b) ==
    Common(R, b) @@
    ("txpow" :> <<IF R.tx = <<>> THEN -1 ELSE ToI16(Bits(R.tx))>>) @@ ("xcf" :> <<1>>) @@
    ("rawacf.revision.major" :> <<1>>) @@ ("rawacf.revision.minor" :> <<0>>) @@
    ("thr" :> <<0>>) @@ ("slist" :> [i \in 1..R.nrange |-> i - 1]) @@
    ("acfd" :> Acf(R, b, R.main)) @@ ("xcfd" :> Acf(R, b, R.cross))

(* --- the list of records: Borealis record after Borealis record, in each the beams *)
Pairs(beams) ==       \* beams[i]: number of beams of record i
    LET n == Len(beams)
        C[i \in 0..n] == IF i = 0 THEN <<>> ELSE C[i-1] \o [b \in 1..beams[i] |-> <<i, b>>]
    IN  C[n]
=============================================================================
