------------------------------ MODULE Shaping -------------------------------
(* Noise-shaped quantisation, sample by sample: the quantiser's error passes     *)
(* through a filter with zero initial state and is added to the signal.  Also    *)
(* the autocorrelation of the filter's numerator, which fixes the noise power     *)
(* in every band.                                                                 *)
EXTENDS Dyadic
CONSTANTS Mode, MaxLen
VARIABLES cfg, i, x, q, y
vars == <<cfg, i, x, q, y>>
D64(n) == D(n, 6)
\* (1 - 1/z)^n by repeated multiplication
RECURSIVE Diff(_)
Diff(n) == IF n = 0 THEN <<1>> ELSE LET p == Diff(n - 1) IN
    [k \in 1..(n + 1) |-> (IF k <= n THEN p[k] ELSE 0) - (IF k > 1 THEN p[k - 1] ELSE 0)]
Num == IF cfg.order > 0 THEN Diff(cfg.order) ELSE cfg.num
NB == IF cfg.order > 0 THEN 0 ELSE cfg.nb              \* numerator in units of 2^-nb
Den == IF cfg.order > 0 THEN <<1>> ELSE cfg.den        \* feedback in units of 2^-db; leading entry 2^lead
DB == IF cfg.order > 0 THEN 0 ELSE cfg.db
Quant1(v) == LET p == DSub(v, D64(cfg.lo))
                 c == IF ~ShiftOk(p[1], cfg.n + 6) THEN -1
                      ELSE Max2(0, Min2(Pow(2, cfg.n) - 1, (p[1] * Pow(2, cfg.n + 6)) \div ((cfg.hi - cfg.lo) * Pow(2, p[2]))))
             IN IF c = -1 THEN Bad ELSE DAdd(D(c * (cfg.hi - cfg.lo), 6 + cfg.n), D64(cfg.lo))
Grid == [order : 1..5, n : {1, 3}, lo : {0}, hi : {64}, e : {6}] \cup [order : {1, 2}, n : {2}, lo : {-32}, hi : {32}, e : {6}]
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == cfg \in InitSet /\ i = 0 /\ x = <<>> /\ q = <<>> /\ y = <<>>
\* den[1] is a power of two, 2^lead / 2^db
Lead == CHOOSE z \in 0..10 : Pow(2, z) = Den[1]
Filter(qq, yy, m) ==
    LET ff == DSumFn([k \in 1..Len(Num) |-> IF m - k + 1 < 1 THEN <<0, 0>> ELSE DMul(D(Num[k], NB), qq[m - k + 1])], 1, Len(Num))
        fb == DSumFn([k \in 2..Len(Den) |-> IF m - k + 1 < 1 THEN <<0, 0>> ELSE DMul(D(Den[k], DB), yy[m - k + 1])], 2, Len(Den))
    IN DShift(DSub(ff, fb), Lead - DB)
Sample(v) == LET e == DSub(Quant1(v), v) qq == Append(q, e) f == Filter(qq, y, i + 1) IN
    /\ ~IsBad(e) /\ ~IsBad(f) /\ ~IsBad(DAdd(v, f))
    /\ i' = i + 1 /\ x' = Append(x, v) /\ q' = qq /\ y' = Append(y, f) /\ UNCHANGED cfg
Next == IF Mode = "file" THEN i < Len(cfg.x) /\ Sample(D(cfg.x[i + 1], cfg.e)) ELSE i < MaxLen /\ \E v \in {-10, 3, 31, 50, 64} : Sample(D(v, cfg.e))
CanNext == IF Mode = "file" THEN i < Len(cfg.x) /\ ENABLED Sample(D(cfg.x[i + 1], cfg.e)) ELSE i < MaxLen
Spec == Init /\ [][Next]_vars
\* -------------------------------------------------------------- properties
Cum(s) == [k \in 1..Len(s) |-> DSumFn(s, 1, k)]
RECURSIVE CumN(_, _)
CumN(s, n) == IF n = 0 THEN s ELSE Cum(CumN(s, n - 1))
\* summing the shaped error as often as the order gives the quantiser's error back
Integrates == cfg.order > 0 => CumN(y, cfg.order) = q
\* a shaper never lets a constant error through for longer than its order
FlatErrorVanishes == cfg.order > 0 => \A k \in 1..i : (k > cfg.order /\ \A j \in (k - cfg.order)..k : q[j] = q[k]) => y[k] = <<0, 0>>
Auto(k) == SumFn([j \in 1..(Len(Num) - k) |-> Num[j] * Num[j + k]], 1, Len(Num) - k)
AutoAll == [k \in 1..Len(Num) |-> Auto(k - 1)]
\* all the zeros of the default shapers are at zero frequency, and their total power is the central binomial coefficient
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
Binomial == cfg.order > 0 => /\ SumSeq(Num) = 0
                             /\ Auto(0) = Fact(2 * cfg.order) \div (Fact(cfg.order) * Fact(cfg.order))
                             /\ Auto(0) + 2 * SumFn([k \in 1..(Len(Num) - 1) |-> Auto(k)], 1, Len(Num) - 1) = 0
EmitDone == (i > 0 /\ ~CanNext) => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE -1, cfg |-> IF Mode = "file" THEN <<>> ELSE cfg, x |-> x, y |-> y, num |-> Num, r |-> AutoAll])
=============================================================================
