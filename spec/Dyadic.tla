------------------------------- MODULE Dyadic -------------------------------
(* Exact dyadic arithmetic: <<n, e>> stands for n / 2^e, e >= 0, lowest terms.  *)
(* Results that would leave the 32-bit range of the checker become Bad, which   *)
(* propagates: an action whose result holds Bad is simply not enabled.          *)
EXTENDS Common
Bad == <<0, -1>>
IsBad(v) == v[2] = -1
Cap == 536870912
RECURSIVE DNorm(_, _)
DNorm(n, e) == IF n = 0 THEN <<0, 0>> ELSE IF e > 0 /\ n % 2 = 0 THEN DNorm(n \div 2, e - 1) ELSE <<n, e>>
D(n, e) == DNorm(n, e)
ShiftOk(n, s) == s <= 28 /\ Abs(n) <= Cap \div Pow(2, s)
DAdd(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE LET e == Max2(a[2], b[2]) IN
                   IF ShiftOk(a[1], e - a[2]) /\ ShiftOk(b[1], e - b[2])
                   THEN DNorm(a[1] * Pow(2, e - a[2]) + b[1] * Pow(2, e - b[2]), e) ELSE Bad
DNeg(a) == IF IsBad(a) THEN Bad ELSE <<-a[1], a[2]>>
DSub(a, b) == DAdd(a, DNeg(b))
DMul(a, b) == IF IsBad(a) \/ IsBad(b) THEN Bad
              ELSE IF a[1] = 0 \/ b[1] = 0 THEN <<0, 0>>
              ELSE IF Abs(a[1]) <= Cap \div Abs(b[1]) /\ a[2] + b[2] <= 40 THEN DNorm(a[1] * b[1], a[2] + b[2]) ELSE Bad
\* times 2^-s, s of either sign
DShift(a, s) == IF IsBad(a) THEN Bad ELSE IF s >= 0 THEN DMul(a, <<1, s>>)
                ELSE IF -s <= 28 THEN DMul(a, <<Pow(2, -s), 0>>) ELSE Bad
RECURSIVE DPow(_, _)
DPow(a, n) == IF n = 0 THEN <<1, 0>> ELSE DMul(a, DPow(a, n - 1))
DAbs(a) == IF IsBad(a) THEN Bad ELSE <<Abs(a[1]), a[2]>>
DLe(a, b) == LET d == DSub(a, b) IN ~IsBad(d) /\ d[1] <= 0
DLt(a, b) == LET d == DSub(a, b) IN ~IsBad(d) /\ d[1] < 0
DMin(a, b) == IF DLe(a, b) THEN a ELSE b
DMax(a, b) == IF DLe(a, b) THEN b ELSE a
\* largest multiple of 2^-g not above a
DFloor(a, g) == IF IsBad(a) THEN Bad ELSE IF a[2] <= g THEN a ELSE DNorm(a[1] \div Pow(2, a[2] - g), g)
RECURSIVE DSumFn(_, _, _)
DSumFn(f, lo, hi) == IF lo > hi THEN <<0, 0>> ELSE DAdd(f[lo], DSumFn(f, lo + 1, hi))
=============================================================================
