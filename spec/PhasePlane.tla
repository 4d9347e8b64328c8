----------------------------- MODULE PhasePlane -----------------------------
(* Outlier detection in the phase plane.  Points are pairs of samples one lag     *)
(* apart; a point is an outlier when its distance from the centre differs from    *)
(* the median distance by more than a multiple of the median absolute deviation.   *)
(* Square roots are taken in fixed point; points within the resulting              *)
(* uncertainty of the threshold are left undecided.                                 *)
EXTENDS Common
CONSTANTS Mode
VARIABLES cfg, k, rad, med, mad
vars == <<cfg, k, rad, med, mad>>
Grid == [x : [1..4 -> {0, 3, 9}], lag : {1}, th : {1, 4}] \cup {[x |-> <<0, 4, 0, -4, 0, 4, 0, -4, 30>>, lag |-> l, th |-> 4] : l \in 1..8}
InitSet == IF Mode = "file" THEN {Scens[j] : j \in 1..Len(Scens)} ELSE Grid
M == Len(cfg.x) - cfg.lag                            \* points
X(j) == cfg.x[j]
Y(j) == cfg.x[j + cfg.lag]
SumX == SumFn([j \in 1..M |-> X(j)], 1, M)
SumY == SumFn([j \in 1..M |-> Y(j)], 1, M)
RECURSIVE SqrtIt(_, _, _)
SqrtIt(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN SqrtIt(v, m, hi) ELSE SqrtIt(v, lo, m)
Sqrt(v) == SqrtIt(v, 0, 46000)
Sc == 8                                             \* fixed point: 1/8 of (unit / M)
Rad(j) == LET a == M * X(j) - SumX b == M * Y(j) - SumY IN Sqrt((a * a + b * b) * Sc * Sc)
Sorted(f, n) == SortSeq([j \in 1..n |-> f[j]], LAMBDA a, b : a < b)
\* twice the median, so that it stays an integer
Med2(f, n) == LET s == Sorted(f, n) IN IF n % 2 = 1 THEN 2 * s[(n + 1) \div 2] ELSE s[n \div 2] + s[n \div 2 + 1]
Init == cfg \in InitSet /\ k = 0 /\ rad = <<>> /\ med = 0 /\ mad = 0
Dev(j) == Abs(2 * rad[j] - med)                     \* twice the deviation
Next == /\ UNCHANGED cfg
        /\ \/ k = 0 /\ k' = 1 /\ rad' = [j \in 1..M |-> Rad(j)] /\ UNCHANGED <<med, mad>>
           \/ k = 1 /\ k' = 2 /\ med' = Med2(rad, M) /\ UNCHANGED <<rad, mad>>
           \/ k = 2 /\ k' = 3 /\ mad' = Med2([j \in 1..M |-> Dev(j)], M) /\ UNCHANGED <<rad, med>>
Spec == Init /\ [][Next]_vars
Done == k = 3
\* deviation compared with th * 1.4826 * mad, everything times 400; margin of a few fixed-point steps
Lhs(j) == 200 * Dev(j)
Rhs == mad * 148 * cfg.th + (mad * 26 * cfg.th) \div 100
Slack == 2000 + 2000 * cfg.th
Out == {j \in 1..M : Lhs(j) > Rhs + Slack}
In == {j \in 1..M : Lhs(j) < Rhs - Slack}
\* at least half of the points are never outliers for thresholds of one and more
HalfInside == Done => 2 * Cardinality(Out) <= M
\* the reference statistics ignore where the points are
Fits == Done => (Out \cap In = {})
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE -1, x |-> cfg.x, lag |-> cfg.lag, th |-> cfg.th, out |-> Out, in |-> In,
                         dev |-> [j \in 1..M |-> Dev(j)], mad |-> mad])
=============================================================================
