------------------------------ MODULE ErrStats ------------------------------
(* Statistics of an error sequence read sample by sample: lagged products,       *)
(* moments and extremes.  The error repeats a zero-sum integer pattern, so it     *)
(* shares no spectral line with the sine it is added to and a fit recovers it      *)
(* exactly.                                                                         *)
EXTENDS Common
CONSTANTS Mode, MaxLag
VARIABLES cfg, i, acc, cnt, s1, s2, s3, top
vars == <<cfg, i, acc, cnt, s1, s2, s3, top>>
P == Len(cfg.pat)
N == P * cfg.reps
E(j) == cfg.pat[(j % P) + 1]              \* j from 0
Patterns == UNION {{q \in [1..p -> -2..2] : SumFn(q, 1, p) = 0 /\ \E j \in 1..p : q[j] /= 0} : p \in 2..4}
Grid == {[pat |-> q, reps |-> r] : q \in Patterns, r \in {5, 7}}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
L == IF Mode = "file" THEN cfg.maxlag ELSE MaxLag
Lags == 0..(IF Mode = "file" THEN cfg.maxlag ELSE MaxLag)
Init == cfg \in InitSet /\ i = 0 /\ acc = [k \in Lags |-> 0] /\ cnt = [k \in Lags |-> 0] /\ s1 = 0 /\ s2 = 0 /\ s3 = 0 /\ top = 0
Next == /\ i < N /\ i' = i + 1 /\ UNCHANGED cfg
        /\ acc' = [k \in Lags |-> IF i >= k THEN acc[k] + E(i) * E(i - k) ELSE acc[k]]
        /\ cnt' = [k \in Lags |-> IF i >= k THEN cnt[k] + 1 ELSE cnt[k]]
        /\ s1' = s1 + E(i) /\ s2' = s2 + E(i) * E(i) /\ s3' = s3 + E(i) * E(i) * E(i) /\ top' = Max2(top, Abs(E(i)))
Spec == Init /\ [][Next]_vars
Done == i = N
\* every lag averages over all pairs of that distance
Counts == Done => \A k \in Lags : k <= N => cnt[k] = N - k
Moments == Done => (s1 = 0 /\ acc[0] = s2 /\ s2 <= N * top * top)
\* lag zero dominates, and a repeating error is fully correlated with itself one period later
LagZeroTop == Done => \A k \in Lags : k < N => Abs(acc[k]) <= s2
Periodic == Done => \A k \in Lags : (k % P = 0 /\ k < N) => acc[k] * N = s2 * (N - k)
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE -1, pat |-> cfg.pat, reps |-> cfg.reps, n |-> N, acc |-> [k \in 1..(L + 1) |-> acc[k - 1]], s2 |-> s2, top |-> top])
=============================================================================
