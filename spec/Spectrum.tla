------------------------------ MODULE Spectrum ------------------------------
(* Power accounting of a single-tone test.  Two sources of spectra:            *)
(*  - exact: runs of coherent tones <<bin, re, im>> (a Gaussian integer          *)
(*    amplitude) seen through a cosine-sum window with integer coefficients;      *)
(*    the windowed DFT is an exact convolution;                                  *)
(*  - trace: the bin powers recorded from a run of the implementation, as        *)
(*    integers (cfg.p).                                                          *)
(* The machine locates the fundamental, sorts the bins into DC lobe, signal lobe  *)
(* and rest, walks through the harmonics and finally estimates the noise.         *)
(* Powers are integers in units of 1/(2*M*E*FS^2), E = energy of the window       *)
(* coefficients: a full-scale sine sums to 2*M*E*FS^2.                            *)
EXTENDS Common
CONSTANTS Mode, NS, Wins, SBs, OSRs, MaxA
VARIABLES cfg, P, inb, fund, lobe, dcl, sig, nad, spurs, h, hb, hp, coll, thdset, noise, phase
vars == <<cfg, P, inb, fund, lobe, dcl, sig, nad, spurs, h, hb, hp, coll, thdset, noise, phase>>

Grid == UNION {{[N |-> N, win |-> w, sb |-> sb, osr |-> <<o, 1>>, H |-> 4, cut |-> ct, runs |-> << << <<b1, MaxA, 0>>, <<b2, z[1], z[2]>> >> >>] :
                 b1 \in 1..((N - 1) \div 2), b2 \in 1..((N - 1) \div 2), z \in {<<2, 0>>, <<0, -1>>}, w \in Wins, sb \in SBs, o \in OSRs,
                 ct \in {0, 3}} : N \in NS}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Top == cfg.N \div 2
Coef(w) == CASE w = "rect" -> <<1>> [] w = "hann" -> <<2, -1>> [] w = "hamming" -> <<54, -23>>
             [] w = "blackman" -> <<42, -25, 4>>
Energy(w) == LET cc == Coef(w) IN cc[1] * cc[1] + 2 * SumSeq([i \in 1..(Len(cc) - 1) |-> cc[i + 1] * cc[i + 1]])
\* ---------------------------------------------------------------- spectrum
\* Two-sided line amplitude of a run at bin k (any integer), as <<re, im>>.
Line(run, k) == LET kk == k % cfg.N
                    S == {i \in DOMAIN run : run[i][1] = kk}  T == {i \in DOMAIN run : run[i][1] # kk /\ (cfg.N - run[i][1]) = kk}
                    nyq == IF 2 * kk = cfg.N THEN 2 ELSE 1
                    re == [i \in DOMAIN run |-> run[i][2]]  im == [i \in DOMAIN run |-> run[i][3]]
                IN <<nyq * (SumSet(re, S) + SumSet(re, T)), IF nyq = 2 THEN 0 ELSE SumSet(im, S) - SumSet(im, T)>>
WLine(run, k) == LET cc == Coef(cfg.win)
                     a == [j \in 1..Len(cc) |-> IF j = 1 THEN Line(run, k)
                              ELSE LET u == Line(run, k - j + 1) v == Line(run, k + j - 1) IN <<u[1] + v[1], u[2] + v[2]>>]
                 IN <<SumSeq([j \in 1..Len(cc) |-> cc[j] * a[j][1]]), SumSeq([j \in 1..Len(cc) |-> cc[j] * a[j][2]])>>
BinPower(run, k) == LET z == WLine(run, k) IN (IF k = 0 \/ 2 * k = cfg.N THEN 1 ELSE 2) * (z[1] * z[1] + z[2] * z[2])
Raw(c) == IF "p" \in DOMAIN c THEN [k \in 0..(c.N \div 2) |-> c.p[k + 1]]
          ELSE [k \in 0..(c.N \div 2) |-> SumSeq([r \in DOMAIN c.runs |-> BinPower(c.runs[r], k)])]
InBandCount(c) == Max2(1, Min2((c.N * c.osr[2]) \div (2 * c.osr[1]) + 1, c.N \div 2 + 1))

Init == /\ cfg \in InitSet
        /\ P = <<>> /\ inb = InBandCount(cfg) /\ fund = {} /\ lobe = {} /\ dcl = {} /\ sig = 0 /\ nad = 0 /\ spurs = {}
        /\ h = 2 /\ hb = <<>> /\ hp = <<>> /\ coll = <<>> /\ thdset = {} /\ noise = <<>> /\ phase = "record"
Transform == /\ phase = "record" /\ P' = [k \in 0..Top |-> IF k < cfg.cut THEN 0 ELSE Raw(cfg)[k]]
             /\ phase' = "locate" /\ UNCHANGED <<cfg, inb, fund, lobe, dcl, sig, nad, spurs, h, hb, hp, coll, thdset, noise>>
\* The strongest in-band bin that is not DC (all of them, if several tie).
Locate == /\ phase = "locate"
          /\ fund' = IF inb = 1 THEN {0} ELSE {k \in 1..(inb - 1) : \A j \in 1..(inb - 1) : P[j] <= P[k]}
          /\ phase' = IF Cardinality(fund') = 1 /\ inb > 1 THEN "sort" ELSE "undecided"
          /\ UNCHANGED <<cfg, P, inb, lobe, dcl, sig, nad, spurs, h, hb, hp, coll, thdset, noise>>
F == CHOOSE k \in fund : TRUE
Around(k, top) == {j \in 0..top : Abs(j - k) <= cfg.sb}
Sum(S) == SumSet(P, S)
Sort == /\ phase = "sort"
        /\ lobe' = Around(F, inb - 1) /\ dcl' = (0..Min2(cfg.sb, inb - 1)) \ Around(F, inb - 1)
        /\ LET rest == ((0..(inb - 1)) \ lobe') \ dcl'
               cleared == [k \in 0..(inb - 1) |-> IF k \in rest THEN P[k] ELSE 0]
               tops == {k \in 0..(inb - 1) : \A j \in 0..(inb - 1) : cleared[j] <= cleared[k]}
           IN /\ sig' = Sum(lobe') /\ nad' = Sum(rest)
              /\ spurs' = {<<k, SumSet(cleared, Around(k, inb - 1))>> : k \in tops}
        /\ phase' = "harmonics" /\ UNCHANGED <<cfg, P, inb, fund, h, hb, hp, coll, thdset, noise>>
Fold(x) == LET y == x % cfg.N IN IF 2 * y > cfg.N THEN cfg.N - y ELSE y
Harmonic == /\ phase = "harmonics" /\ h <= cfg.H
            /\ LET b == Fold(h * F)
                   onFund == Abs(b - F) <= 2 * cfg.sb
                   onDc == b <= cfg.sb
                   band == IF onFund \/ onDc THEN {} ELSE Around(b, Top)
               IN /\ hb' = Append(hb, b) /\ hp' = Append(hp, Sum(band))
                  /\ coll' = IF onFund THEN Append(coll, h) ELSE coll
                  /\ thdset' = thdset \union band
            /\ h' = h + 1 /\ UNCHANGED <<cfg, P, inb, fund, lobe, dcl, sig, nad, spurs, noise, phase>>
\* ------------------------------------------------------------------- noise
Lt(a, b) == a < b
Estimate == /\ phase = "harmonics" /\ h > cfg.H
            /\ LET rest == ((0..(inb - 1)) \ lobe) \ (0..cfg.sb)
                   live == {k \in rest : P[k] > 0}
                   n == Cardinality(live)
                   vals == [i \in 1..n |-> P[CHOOSE k \in live : Cardinality({j \in live : j < k}) = i - 1]]
                   srt == SortSeq(vals, Lt)
                   lo == Max2(1, (5 * n) \div 100)  hi == Min2(Max2(lo, Max2(1, (95 * n) \div 100)), n)
                   hset == {hb[i] : i \in DOMAIN hb}
                   wide == UNION {IF b >= 1 /\ b < inb THEN Around(b, inb - 1) ELSE {} : b \in hset}
               IN noise' = [live |-> n,
                            med2 |-> IF n = 0 THEN 0 ELSE srt[(n + 1) \div 2] + srt[(n \div 2) + 1],
                            trim |-> IF n = 0 THEN 0 ELSE SumFn(srt, lo, hi), trimn |-> IF n = 0 THEN 1 ELSE hi - lo + 1,
                            excl |-> Sum(rest \ hset), wide |-> Sum(rest \ wide), wideEmpty |-> (rest \ wide) = {}]
            /\ phase' = "done" /\ UNCHANGED <<cfg, P, inb, fund, lobe, dcl, sig, nad, spurs, h, hb, hp, coll, thdset>>
Next == Transform \/ Locate \/ Sort \/ Harmonic \/ Estimate
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
Sorted == phase \in {"harmonics", "done"}
Partition == Sorted => /\ lobe \intersect dcl = {} /\ lobe \subseteq 0..(inb - 1) /\ F \in lobe
                       /\ sig + nad + Sum(dcl) = Sum(0..(inb - 1))
SpurInRest == Sorted => \A s \in spurs : s[2] <= nad /\ (nad > 0 => s[1] \notin lobe \union dcl)
NoDoubleCount == (phase = "done") => /\ Sum(thdset) <= SumSeq(hp) /\ \A i \in DOMAIN hp : hp[i] <= Sum(thdset)
                                     /\ thdset \intersect Around(F, Top) = {}
NoiseWithinRest == (phase = "done") => /\ noise.excl <= nad /\ noise.wide <= noise.excl
                                       /\ noise.trim <= nad
\* One isolated tone in any window: its lobe holds all its power, whatever its phase.
Calibrated == (phase = "done" /\ ~("p" \in DOMAIN cfg) /\ Len(cfg.runs) = 1 /\ Len(cfg.runs[1]) = 1 /\ cfg.cut = 0
               /\ cfg.sb >= Len(Coef(cfg.win)) - 1 /\ F > 2 * cfg.sb /\ F + 2 * cfg.sb < cfg.N \div 2 /\ F + cfg.sb < inb) =>
   sig = 2 * Energy(cfg.win) * (cfg.runs[1][1][2] * cfg.runs[1][1][2] + cfg.runs[1][1][3] * cfg.runs[1][1][3]) /\ nad = 0
\* Neighbours of the fundamental are equal or (one of them) far below: no sub-bin correction.
Centered == LET a == P[F - 1]  b == IF F + 1 <= inb - 1 THEN P[F + 1] ELSE 0 IN a = b \/ Min2(a, b) < P[F] \div 11000 \/ F = inb - 1
EmitDone == (phase = "done") =>
   Emit([c |-> cfg, P |-> [k \in 1..(Top + 1) |-> P[k - 1]], inb |-> inb, F |-> F, sig |-> sig, nad |-> nad, spurs |-> spurs,
         hb |-> hb, hp |-> hp, coll |-> coll, thd |-> Sum(thdset), noise |-> noise,
         centered |-> Centered,
         E |-> IF "p" \in DOMAIN cfg THEN 0 ELSE Energy(cfg.win)])
=============================================================================
