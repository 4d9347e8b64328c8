------------------------------ MODULE SineInl ------------------------------
(* Sine-histogram linearity test.  A converter with integer code widths counts   *)
(* codes one by one; after Clip the outer codes are merged into the edges of the  *)
(* analysed range, the cumulative histogram is taken, and each transition is the  *)
(* angle pi cum/S of the arcsine law, i.e. level -cos(pi cum/S).  Levels are kept *)
(* as exact angles cum/S; the width of a code vanishes exactly when it has no hit.*)
EXTENDS Common
CONSTANTS Mode, Los, Spans, MaxHits, Clips
VARIABLES cfg, hist, n, ch, phase
vars == <<cfg, hist, n, ch, phase>>
\* clip is given in thousandths of the observed range
Grid == {[lo |-> lo, hi |-> lo + s, clip |-> p] : lo \in Los, s \in Spans, p \in Clips}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == cfg \in InitSet /\ hist = [k \in cfg.lo..cfg.hi |-> 0] /\ n = 0 /\ ch = <<>> /\ phase = "count"
Hit(k) == hist' = [hist EXCEPT ![k] = @ + 1] /\ n' = n + 1 /\ UNCHANGED <<cfg, ch, phase>>
Acquire == /\ phase = "count"
           /\ IF Mode = "file" THEN n < Len(cfg.xs) /\ Hit(cfg.xs[n + 1]) ELSE n < MaxHits /\ \E k \in cfg.lo..cfg.hi : Hit(k)
Seen == {k \in cfg.lo..cfg.hi : hist[k] > 0}
MinOf(S) == CHOOSE k \in S : \A j \in S : k <= j
MaxOf(S) == CHOOSE k \in S : \A j \in S : j <= k
Bot == MinOf(Seen)
Top == MaxOf(Seen)
Tie == (2 * cfg.clip * (Top - Bot)) % 2000 = 1000
Ex == (2 * cfg.clip * (Top - Bot) + 1000) \div 2000
Last == Top - Ex
First == Min2(Bot + Ex, Last)
K == Last - First + 1
Clip == /\ phase = "count" /\ n > 0 /\ (Mode = "file" => n = Len(cfg.xs))
        /\ phase' = "done" /\ UNCHANGED <<cfg, hist, n>>
        /\ ch' = [i \in 1..K |-> LET k == First + i - 1 IN
                    SumFn(hist, IF i = 1 THEN cfg.lo ELSE k, IF i = K THEN cfg.hi ELSE k)]
Next == Acquire \/ Clip
Spec == Init /\ [][Next]_vars
Done == phase = "done"
Cum == [i \in 1..K |-> SumFn(ch, 1, i)]
\* Merging the clipped codes into the edges never loses a sample; the angles run up to pi.
Conserved == SumFn(hist, cfg.lo, cfg.hi) = n /\ (Done => Cum[K] = n)
\* A code has zero width exactly when it was never hit.
Monotone == Done => \A i \in 2..K : Cum[i - 1] <= Cum[i] /\ ((Cum[i - 1] = Cum[i]) <=> (ch[i] = 0))
\* Reversing the histogram reverses the angles.
Mirror == Done => \A i \in 1..(K - 1) : Cum[i] + SumFn(ch, i + 1, K) = n
\* The reported range never leaves the observed one.
Inside == Done => Bot <= First /\ First <= Last /\ Last <= Top
EmitDone == Done => Emit([c |-> [lo |-> cfg.lo, hi |-> cfg.hi, clip |-> cfg.clip], id |-> IF Mode = "file" THEN cfg.id ELSE 0,
   hist |-> [i \in 1..(cfg.hi - cfg.lo + 1) |-> hist[cfg.lo + i - 1]], tie |-> Tie, first |-> First, k |-> K, n |-> n, cum |-> Cum])
=============================================================================
