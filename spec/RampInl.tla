------------------------------ MODULE RampInl ------------------------------
(* Ramp test: the converter's output codes are counted one by one; the verdict   *)
(* is a function of the histogram alone, so every order of arrival that reaches  *)
(* the same histogram reaches the same state.  All results are exact: with K     *)
(* analysed codes and S hits among them,                                          *)
(*    DNL(k) = (K cnt(k) - S) / S,  raw INL(t) = (K cum(t) - t S) / S.            *)
EXTENDS Common
CONSTANTS Mode, Los, Spans, MaxHits
VARIABLES cfg, hist, at, n, bad, done
vars == <<cfg, hist, at, n, bad, done>>
\* hi = "given" upper code; open = TRUE when it is inferred from the data
Grid == {[lo |-> lo, hi |-> lo + s, open |-> o, excl |-> e] : lo \in Los, s \in Spans, o \in BOOLEAN, e \in BOOLEAN}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Universe == (cfg.lo - 1)..(cfg.hi + 1)
Init == /\ cfg \in InitSet /\ hist = [k \in Universe |-> 0] /\ at = 0 /\ n = 0 /\ bad = FALSE /\ done = FALSE
\* the converter dwells on code k for m samples
Hit(k, m) == /\ hist' = [hist EXCEPT ![k] = @ + m] /\ n' = n + m /\ at' = at + 1
          /\ bad' = (bad \/ k < cfg.lo \/ (k > cfg.hi /\ ~cfg.open)) /\ UNCHANGED <<cfg, done>>
Acquire == /\ ~done
           /\ IF Mode = "file" THEN at < Len(cfg.xs) /\ Hit(cfg.xs[at + 1][1], cfg.xs[at + 1][2])
              ELSE n < MaxHits /\ \E k \in Universe : Hit(k, 1)
Stop == /\ ~done /\ n > 0 /\ (Mode = "file" => at = Len(cfg.xs)) /\ done' = TRUE /\ UNCHANGED <<cfg, hist, at, n, bad>>
Next == Acquire \/ Stop
Spec == Init /\ [][Next]_vars

Seen == {k \in Universe : hist[k] > 0}
MaxOf(S) == CHOOSE k \in S : \A j \in S : j <= k
Top == IF cfg.open THEN MaxOf(Seen) ELSE cfg.hi
Wide == Top - cfg.lo + 1
First == IF cfg.excl /\ Wide > 2 THEN cfg.lo + 1 ELSE cfg.lo
Last == IF cfg.excl /\ Wide > 2 THEN Top - 1 ELSE Top
K == Last - First + 1
S == SumFn(hist, First, Last)
Refuse == bad \/ Top < cfg.lo \/ S = 0
Cnt == [i \in 1..K |-> hist[First + i - 1]]
Dnl == [i \in 1..K |-> K * Cnt[i] - S]                       \* over S
Raw == [t \in 1..(K + 1) |-> K * SumFn(hist, First, First + t - 2) - (t - 1) * S]     \* over S
\* best-fit line over the K+1 transitions, in centred coordinates u = 2t - (K+2)
U(t) == 2 * t - (K + 2)
Suu == SumFn([t \in 1..(K + 1) |-> U(t) * U(t)], 1, K + 1)
Sur == SumFn([t \in 1..(K + 1) |-> U(t) * Raw[t]], 1, K + 1)
Sr == SumFn(Raw, 1, K + 1)
Missing == {k \in First..Last : hist[k] = 0}
Ok == done /\ ~Refuse
\* --- laws
Conserved == done => SumFn(hist, cfg.lo - 1, cfg.hi + 1) = n
ZeroSum == Ok => SumFn(Dnl, 1, K) = 0
EndsAtZero == Ok => Raw[1] = 0 /\ Raw[K + 1] = 0
Step == Ok => \A t \in 1..K : Raw[t + 1] - Raw[t] = Dnl[t]
NeverBelow == Ok => \A i \in 1..K : Dnl[i] >= -S /\ ((Dnl[i] = -S) <=> ((First + i - 1) \in Missing))
Uniform == Ok => ((\A i \in 1..K : Cnt[i] = Cnt[1]) <=> (\A i \in 1..K : Dnl[i] = 0))
\* (K+1) Suu times the best-fit residual, which is orthogonal to constants and to the ramp
FitRes(t) == (K + 1) * Suu * Raw[t] - Suu * Sr - (K + 1) * Sur * U(t)
FitOrthogonal == (Ok /\ Mode # "file") =>
    /\ SumFn([t \in 1..(K + 1) |-> FitRes(t)], 1, K + 1) = 0
    /\ SumFn([t \in 1..(K + 1) |-> U(t) * FitRes(t)], 1, K + 1) = 0
SortedSet(T, lo, hi) == SelectSeq([i \in 1..(hi - lo + 1) |-> lo + i - 1], LAMBDA k : k \in T)
EmitDone == done => Emit([c |-> [lo |-> cfg.lo, hi |-> cfg.hi, open |-> cfg.open, excl |-> cfg.excl],
                          id |-> IF Mode = "file" THEN cfg.id ELSE 0,
                          hist |-> [i \in 1..(cfg.hi - cfg.lo + 3) |-> hist[cfg.lo + i - 2]],
                          refuse |-> Refuse,
                          r |-> IF Refuse THEN [S |-> 0] ELSE
                                [S |-> S, first |-> First, last |-> Last, top |-> Top, cnt |-> Cnt, dnl |-> Dnl, raw |-> Raw,
                                 suu |-> Suu, sur |-> Sur, sr |-> Sr, missing |-> SortedSet(Missing, First, Last)]])
=============================================================================
