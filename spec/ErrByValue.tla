----------------------------- MODULE ErrByValue -----------------------------
(* Sorting samples into equal-width value bins.  Samples are integers in units   *)
(* of 1/unit; the range is given or inferred from the record; samples are sorted  *)
(* one by one.  Bin centres are spread from end to end of the range, a sample     *)
(* belongs to the nearest centre, samples beyond the ends to the end bins, and    *)
(* the outer `margin` bins on both sides are emptied afterwards.                   *)
EXTENDS Common
CONSTANTS Mode, Bins, Vals, Lens
VARIABLES cfg, span, n, cnt, idx, done
vars == <<cfg, span, n, cnt, idx, done>>
Grid == UNION {{[unit |-> 1, x |-> x, B |-> b, given |-> g, lo |-> 0, hi |-> 4, margin |-> m] :
                  x \in [1..l -> Vals], b \in Bins, g \in BOOLEAN, m \in {0, 1}} : l \in Lens}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
RECURSIVE Ext(_, _, _, _)
Ext(x, i, lo, hi) == IF i > Len(x) THEN <<lo, hi>> ELSE Ext(x, i + 1, Min2(lo, x[i]), Max2(hi, x[i]))
\* codes use their own extremes; small values the customary voltage ranges (in units of 1/(2 unit))
SpanOf(q) == LET u == q.unit  e == Ext(q.x, 1, q.x[1], q.x[1])  peak == Max2(Abs(e[1]), Abs(e[2])) IN
        IF q.given THEN <<2 * q.lo, 2 * q.hi>>
        ELSE IF peak > 2 * u THEN <<2 * e[1], 2 * e[2]>>
        ELSE IF 10 * SumSeq(q.x) > Len(q.x) * u THEN <<0, 2 * u>>
        ELSE IF 10 * peak <= 6 * u THEN <<-u, u>>
        ELSE <<-(2 * u), 2 * u>>
W == span[2] - span[1]
MeanTie == ~cfg.given /\ 10 * SumSeq(cfg.x) = Len(cfg.x) * cfg.unit
\* nearest centre: floor(2(x - lo)(B-1)/W + 1/2)
Pos(v) == (2 * v - span[1]) * (cfg.B - 1)
Clamp(k) == Max2(0, Min2(cfg.B - 1, k))
BinOf(v) == Clamp((2 * Pos(v) + W) \div (2 * W))
TieAt(v) == (2 * Pos(v) + W) % (2 * W) = 0 /\ Clamp((2 * Pos(v) + W) \div (2 * W)) # Clamp((2 * Pos(v) + W) \div (2 * W) - 1)
Refuse == W <= 0 \/ 2 * cfg.margin >= cfg.B
Init == cfg \in InitSet /\ span = SpanOf(cfg) /\ n = 0 /\ cnt = [b \in 0..(cfg.B - 1) |-> 0] /\ idx = <<>> /\ done = FALSE
Sort == /\ ~done /\ ~Refuse /\ n < Len(cfg.x) /\ n' = n + 1
        /\ LET b == BinOf(cfg.x[n + 1]) IN cnt' = [cnt EXCEPT ![b] = @ + 1] /\ idx' = Append(idx, b)
        /\ UNCHANGED <<cfg, span, done>>
Valid(b) == cfg.margin <= b /\ b <= cfg.B - 1 - cfg.margin
Trim == /\ ~done /\ (Refuse \/ n = Len(cfg.x)) /\ done' = TRUE
        /\ cnt' = [b \in 0..(cfg.B - 1) |-> IF Valid(b) THEN cnt[b] ELSE 0] /\ UNCHANGED <<cfg, span, n, idx>>
Next == Sort \/ Trim
Spec == Init /\ [][Next]_vars
Kept == Cardinality({i \in 1..n : Valid(idx[i])})
\* Every sample is in exactly one bin, and trimming only removes the trimmed bins.
Conserved == IF done THEN (Refuse \/ SumFn(cnt, 0, cfg.B - 1) = Kept) ELSE SumFn(cnt, 0, cfg.B - 1) = n
\* A larger value never lands in a lower bin.
Ordered == done => \A i, j \in 1..n : cfg.x[i] <= cfg.x[j] => idx[i] <= idx[j]
\* No other centre is nearer than the chosen one (for samples inside the range).
Nearest == done => \A i \in 1..n : (span[1] <= 2 * cfg.x[i] /\ 2 * cfg.x[i] <= span[2]) =>
              Abs(Pos(cfg.x[i]) - idx[i] * W) * 2 <= W
Tie == MeanTie \/ (~Refuse /\ \E i \in 1..Len(cfg.x) : TieAt(cfg.x[i]))
EmitDone == done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE 0, c |-> cfg, refuse |-> Refuse \/ Kept = 0, tie |-> Tie, span |-> span, idx |-> idx,
                          cnt |-> [b \in 1..cfg.B |-> cnt[b - 1]]])
=============================================================================
