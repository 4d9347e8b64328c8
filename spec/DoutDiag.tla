------------------------------ MODULE DoutDiag ------------------------------
(* Diagnostics of a matrix of bit decisions, collected row by row: ones per bit,  *)
(* the range of the residue formed by each bit and all lower ones, how often it   *)
(* sits at or beyond either end, and the partial sums of the leading bits; plus    *)
(* radix and effective resolution of the weights.                                  *)
EXTENDS Common
CONSTANTS Mode, MaxRows
VARIABLES cfg, n, ones, lo, hi, zero, one, part, rows
vars == <<cfg, n, ones, lo, hi, zero, one, part, rows>>
Grid == {[w |-> w] : w \in {<<4, 2, 1>>, <<4, 2, 2>>, <<3, 3, 1>>, <<5, -1, 2>>, <<7, 2>>}}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
M == Len(cfg.w)
Low(r, i) == SumFn([b \in i..M |-> r[b] * cfg.w[b]], i, M)
Lead(r, i) == SumFn([b \in 1..i |-> r[b] * cfg.w[b]], 1, i)
Seg(i) == SumFn(cfg.w, i, M)                     \* weight of the whole segment
Init == cfg \in InitSet /\ n = 0 /\ ones = [b \in 1..Len(cfg.w) |-> 0] /\ lo = <<>> /\ hi = <<>> /\ zero = [b \in 1..Len(cfg.w) |-> 0]
        /\ one = [b \in 1..Len(cfg.w) |-> 0] /\ part = <<>> /\ rows = <<>>
Below(v, s) == IF s > 0 THEN v <= 0 ELSE v >= 0
Above(v, s) == IF s > 0 THEN v >= s ELSE v <= s
Less(a, b, s) == IF s > 0 THEN a < b ELSE a > b  \* order of a/s and b/s
Row(r) == /\ n' = n + 1 /\ UNCHANGED cfg
          /\ ones' = [b \in 1..M |-> ones[b] + r[b]]
          /\ lo' = [b \in 1..M |-> IF n = 0 \/ Less(Low(r, b), lo[b], Seg(b)) THEN Low(r, b) ELSE lo[b]]
          /\ hi' = [b \in 1..M |-> IF n = 0 \/ Less(hi[b], Low(r, b), Seg(b)) THEN Low(r, b) ELSE hi[b]]
          /\ zero' = [b \in 1..M |-> zero[b] + (IF Below(Low(r, b), Seg(b)) THEN 1 ELSE 0)]
          /\ one' = [b \in 1..M |-> one[b] + (IF Above(Low(r, b), Seg(b)) THEN 1 ELSE 0)]
          /\ part' = Append(part, [b \in 1..M |-> Lead(r, b)])
          /\ rows' = Append(rows, r)
Next == IF Mode = "file" THEN n < Len(cfg.rows) /\ Row(cfg.rows[n + 1]) ELSE n < MaxRows /\ \E r \in [1..M -> {0, 1}] : Row(r)
Spec == Init /\ [][Next]_vars
Done == IF Mode = "file" THEN n = Len(cfg.rows) ELSE n > 0
Positive == \A b \in 1..M : cfg.w[b] > 0
\* With positive weights the residue stays inside its segment, and both ends are hit exactly by
\* all-zero and all-one tails.
InRange == (Done /\ Positive) => \A b \in 1..M : 0 <= lo[b] /\ lo[b] <= hi[b] /\ hi[b] <= Seg(b)
EndsExact == (Done /\ Positive) => \A b \in 1..M :
    /\ zero[b] = Cardinality({i \in 1..n : \A c \in b..M : rows[i][c] = 0})
    /\ one[b] = Cardinality({i \in 1..n : \A c \in b..M : rows[i][c] = 1})
\* The leading part and the residue below it always add up to the whole.
Adds == \A i \in 1..n : \A b \in 1..(M - 1) : part[i][b] + Low(rows[i], b + 1) = part[i][M]
\* The order of rows does not matter: totals are those of the multiset of rows.
Totals == \A b \in 1..M : ones[b] = SumFn([i \in 1..n |-> rows[i][b]], 1, n)
\* --- the weights themselves
Mag == [b \in 1..M |-> Abs(cfg.w[b])]
Sorted == SortSeq(Mag, LAMBDA a, b : a > b)
Breaks == {i \in 1..(M - 1) : Sorted[i] >= 3 * Sorted[i + 1]}
Sig == IF Breaks = {} THEN M ELSE CHOOSE i \in Breaks : \A j \in Breaks : i <= j      \* significant weights
SigSum == SumFn(Sorted, 1, Sig)
NoGap == \A i \in 1..(Sig - 1) : Sorted[i] < 3 * Sorted[i + 1]
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE 0, w |-> cfg.w, rows |-> IF Mode = "file" THEN <<>> ELSE rows, n |-> n, ones |-> ones, lo |-> lo, hi |-> hi, zero |-> zero, one |-> one,
                          seg |-> [b \in 1..M |-> Seg(b)], part |-> part, sorted |-> Sorted, sig |-> Sig, sum |-> SigSum])
=============================================================================
