------------------------------ MODULE AutoLobe ------------------------------
(* How many side bins belong to the signal when the caller leaves it open.         *)
(*                                                                                 *)
(* The lobe grows one bin to each side until the leakage an ideal tone of the same *)
(* position and height would have is, on both sides, no higher than the typical    *)
(* in-band bin.  It never shrinks below the window's own lobe, never leaves the    *)
(* band, and falls back to the window's customary width when the band ends first.  *)
(*                                                                                 *)
(* Levels are integers on any increasing scale (the binding uses 1/100 dB), so an  *)
(* even number of bins gives the middle pair rather than its mean.  A level of     *)
(* Dead or less is a bin that was removed and does not take part.                  *)
EXTENDS Common
CONSTANTS Mode, MaxB
VARIABLES cfg, flr, d, st, sb
vars == <<cfg, flr, d, st, sb>>
Dead == 0
\* ------------------------------------------------------------- the band
Room(c) == Min2(c.F, c.B - 1 - c.F)                          \* bins available on both sides of bin F of 0..B-1
Live(c) == LET l == {i \in 1..c.B : c.p[i] > Dead} IN IF Cardinality(l) >= 3 THEN l ELSE 1..c.B
Below(c, s, v) == Cardinality({i \in s : c.p[i] < v})
UpTo(c, s, v) == Cardinality({i \in s : c.p[i] <= v})
Kth(c, s, k) == CHOOSE v \in {c.p[i] : i \in s} : Below(c, s, v) < k /\ k <= UpTo(c, s, v)
Middle(c) == LET s == Live(c)  n == Cardinality(s) IN {Kth(c, s, (n + 1) \div 2), Kth(c, s, n \div 2 + 1)}
\* the floor is never taken deeper than the arithmetic reaches below the peak
Floors(c) == LET m == Middle(c) IN {Max2(v, c.deep) : v \in {x - c.slack : x \in m} \cup {x + c.slack : x \in m}}
\* ------------------------------------------------------------- scenarios
Grid == UNION {[B : {b}, F : 0..(b - 1), p : [1..b -> {0, 2, 4}], left : [1..((b - 1) \div 2) -> {1, 3}], right : [1..((b - 1) \div 2) -> {1, 3}],
                minimum : {0, 1}, fallback : {0, 2}, deep : {0, 3}, slack : {0}] : b \in 3..MaxB}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == /\ cfg \in InitSet
        /\ flr \in Floors(cfg)
        /\ d = 1 /\ st = "widen" /\ sb = 0
\* ------------------------------------------------------------- growing
Own == Min2(cfg.minimum, Room(cfg))
Quiet(k) == cfg.left[k] <= flr /\ cfg.right[k] <= flr
Widen == st = "widen" /\ d <= Room(cfg) /\ ~Quiet(d) /\ d' = d + 1 /\ UNCHANGED <<cfg, flr, st, sb>>
Found == st = "widen" /\ d <= Room(cfg) /\ Quiet(d) /\ st' = "found" /\ sb' = Max2(d - 1, Own) /\ UNCHANGED <<cfg, flr, d>>
Edge == st = "widen" /\ d > Room(cfg) /\ st' = "edge" /\ sb' = Min2(Max2(cfg.fallback, Own), Room(cfg)) /\ UNCHANGED <<cfg, flr, d>>
Next == Widen \/ Found \/ Edge
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == st # "widen"
\* ------------------------------------------------------------- properties
InsideBand == cfg.F - sb >= 0 /\ cfg.F + sb < cfg.B
OwnLobe == Done => sb >= Own
Covers == (st = "found") => (\A k \in 1..sb : k > Own => ~Quiet(k))
Stops == (st = "found") => (sb = Own \/ Quiet(sb + 1))
EdgeMeansLoud == (st = "edge") => (\A k \in 1..Room(cfg) : ~Quiet(k))
MedianIsMedian == \A v \in Middle(cfg) : LET s == Live(cfg) IN 2 * Below(cfg, s, v) <= Cardinality(s) /\ 2 * UpTo(cfg, s, v) >= Cardinality(s)
Decides == <>Done
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE 0, sb |-> sb, how |-> st])
=============================================================================
