------------------------------ MODULE SigGen --------------------------------
(* The impairment chain of the signal generator.  The state is the current      *)
(* signal, a sequence of exact dyadic samples; every action applies one          *)
(* impairment.  Parameters whose numeric form involves an exponential or a       *)
(* sine are drawn from the values for which the result is dyadic (decay 2^-d,    *)
(* modulation at multiples of a quarter of the sampling rate, levels that are    *)
(* powers of two), so the model stays exact; `exact` records whether the          *)
(* implementation's float arithmetic is exact too, and impairments with jumps     *)
(* are only applied where rounding cannot move a sample across a jump.            *)
EXTENDS Dyadic
CONSTANTS Mode, Depth
VARIABLES cfg, k, sig, prev, op, exact, ops, path
vars == <<cfg, k, sig, prev, op, exact, ops, path>>
D64(n) == D(n, 6)
N == Len(sig)
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
Ac == [i \in 1..Len(sig) |-> DSub(sig[i], D64(cfg.dc))]
AddDc(s) == [i \in 1..Len(s) |-> DAdd(s[i], D64(cfg.dc))]
\* ---------------------------------------------------------------- quantiser
QNum(v, lo, n) == LET p == DSub(v, D64(lo)) IN IF IsBad(p) \/ ~ShiftOk(p[1], n + 6) \/ p[2] > 16 THEN Bad ELSE <<p[1] * Pow(2, n + 6), p[2]>>
QCode(v, o) == LET q == QNum(v, o.lo, o.n) IN
               Max2(0, Min2(Pow(2, o.n) - 1, q[1] \div ((o.hi - o.lo) * Pow(2, q[2]))))
Quant1(v, o) == IF IsBad(QNum(v, o.lo, o.n)) THEN Bad
                ELSE DAdd(D(QCode(v, o) * (o.hi - o.lo), 6 + o.n), D64(o.lo))
QOnGrid(v, o) == LET q == QNum(v, o.lo, o.n) IN IsBad(q) \/ q[1] % ((o.hi - o.lo) * Pow(2, q[2])) = 0
Quant(o) == Map(LAMBDA v : Quant1(v, o), sig)
\* ------------------------------------------------------------ nonlinearity
PolyOf(x, ks, kb) == DAdd(x, DSumFn([j \in 2..5 |-> IF ks[j - 1] = 0 THEN <<0, 0>> ELSE DMul(D(ks[j - 1], kb), DPow(x, j))], 2, 5))
Poly(o) == AddDc([i \in 1..N |-> PolyOf(Ac[i], o.ks, o.kb)])
\* harmonic `o.n` at 2^-o.j of the fundamental of amplitude 2^-cfg.a
Hd(o) == AddDc([i \in 1..N |-> DAdd(Ac[i], DShift(DPow(Ac[i], o.n), o.j - (o.n - 1) - cfg.a * (o.n - 1)))])
\* ------------------------------------------------------- two-stage effects
Prev(i) == IF i = 1 THEN N ELSE i - 1
Fine(v, mb, lb) == DFloor(DSub(v, DFloor(v, mb)), lb)
Memory(o) == [i \in 1..N |-> DAdd(DAdd(DFloor(sig[i], 4), Fine(sig[i], 4, 12)), DMul(D64(o.s), DFloor(sig[Prev(i)], 4)))]
Ra(o) == AddDc([i \in 1..N |-> LET m == DFloor(Ac[i], o.mb) l == Fine(Ac[i], o.mb, o.lb) IN
           IF o.coarse THEN DAdd(DMul(m, D64(o.g)), l) ELSE DAdd(m, DMul(l, D64(o.g)))])
RECURSIVE RaDynTo(_, _)       \* <<output, state>> at sample i
RaDynTo(i, o) == IF i = 0 THEN <<<<0, 0>>, <<0, 0>>>>
    ELSE LET s == RaDynTo(i - 1, o)[2]
             g == DAdd(D64(o.g), DMul(D64(o.c), DMul(s, s)))
             m == DFloor(Ac[i], o.mb)
             l == Fine(Ac[i], o.mb, o.lb)
             path1 == IF o.coarse THEN DMul(m, g) ELSE DMul(l, g)
             out == IF o.coarse THEN DAdd(path1, l) ELSE DAdd(m, path1)
         IN <<out, IF o.coarse THEN out ELSE path1>>
RaDyn(o) == AddDc([i \in 1..N |-> RaDynTo(i, o)[1]])
\* ------------------------------------------------------------ with a state
\* exponent of the settling factor of a sample: m / (1 + c v^2), which must be an integer
SetDen(v, o) == DAdd(<<1, 0>>, DMul(<<o.c, 0>>, DMul(v, v)))
SetOk(v, o) == LET d == SetDen(v, o) IN ~IsBad(d) /\ d[2] = 0 /\ d[1] > 0 /\ o.m % d[1] = 0
RECURSIVE SettleTo(_, _)
SettleTo(i, o) == IF i = 0 THEN <<0, 0>>
    ELSE IF ~SetOk(Ac[i], o) THEN Bad
    ELSE DAdd(Ac[i], DShift(DSub(SettleTo(i - 1, o), Ac[i]), o.m \div SetDen(Ac[i], o)[1]))
Settle(o) == AddDc([i \in 1..N |-> SettleTo(i, o)])
RECURSIVE DroopTo(_, _)
DroopTo(i, o) == IF i = 0 THEN <<0, 0>> ELSE DAdd(DMul(D64(o.s), DAbs(Ac[i])), DShift(DroopTo(i - 1, o), o.d))
RefErr(o) == AddDc([i \in 1..N |-> DMul(Ac[i], DSub(<<1, 0>>, DroopTo(i, o)))])
\* -------------------------------------------------------------- modulation
Quarter(j) == CASE j % 4 = 0 -> 0 [] j % 4 = 1 -> 1 [] j % 4 = 2 -> 0 [] OTHER -> -1
AmTone(o) == AddDc([i \in 1..N |-> DMul(Ac[i], DAdd(<<1, 0>>, D64(o.s * Quarter(o.q * (i - 1)))))])
\* ---------------------------------------------------------------- clipping
Sorted == SortSeq(sig, LAMBDA a, b : DLt(a, b))
\* order statistic at position p/b of the way (linear between neighbours); b a power of two
AtRank(p, b) == LET h == (N - 1) * p  lo == h \div b  f == h % b  be == CHOOSE z \in 0..6 : Pow(2, z) = b IN
                IF f = 0 THEN Sorted[lo + 1]
                ELSE DAdd(Sorted[lo + 1], DMul(D(f, be), DSub(Sorted[lo + 2], Sorted[lo + 1])))
Clip(o) == LET lo == AtRank(o.p, o.b) hi == AtRank(o.b - o.p, o.b) IN
           IF IsBad(lo) \/ IsBad(hi) \/ \E i, j \in 1..N : IsBad(DSub(sig[i], sig[j])) \/ IsBad(DSub(sig[i], lo)) \/ IsBad(DSub(sig[i], hi)) THEN <<Bad>> ELSE [i \in 1..N |-> DMin(DMax(sig[i], lo), hi)]
\* ------------------------------------------------------------------ chain
\* away from every jump of the floor operations involved
Clear(o) == exact \/ CASE o.t = "quant" -> \A i \in 1..N : ~QOnGrid(sig[i], o)
                       [] o.t = "memory" -> \A i \in 1..N : sig[i][2] > 12
                       [] o.t \in {"ra", "radyn"} -> \A i \in 1..N : Ac[i][2] > Max2(o.lb, o.mb)
                       [] OTHER -> TRUE
Out(o) == CASE o.t = "quant" -> Quant(o) [] o.t = "poly" -> Poly(o) [] o.t = "hd" -> Hd(o) [] o.t = "memory" -> Memory(o)
            [] o.t = "ra" -> Ra(o) [] o.t = "radyn" -> RaDyn(o) [] o.t = "settle" -> Settle(o) [] o.t = "ref" -> RefErr(o)
            [] o.t = "am" -> AmTone(o) [] o.t = "clip" -> Clip(o)
Inexact == {"hd", "settle", "ref", "am"}
None == [t |-> "none"]
Apply(o) == /\ Clear(o)
            /\ LET s == Out(o) IN
               /\ \A i \in 1..Len(s) : ~IsBad(s[i])
               /\ sig' = s /\ path' = Append(path, s)
            /\ prev' = sig /\ op' = o /\ exact' = (exact /\ ~(o.t \in Inexact)) /\ ops' = Append(ops, o) /\ k' = k + 1 /\ UNCHANGED cfg
Catalog ==
    {[t |-> "quant", n |-> n, lo |-> r[1], hi |-> r[2]] : n \in {1, 2, 4}, r \in {<<0, 64>>, <<-32, 32>>, <<-16, 80>>}}
    \cup {[t |-> "poly", ks |-> ks, kb |-> 2] : ks \in {<<0, 0, 0, 0>>, <<1, 0, 0, 0>>, <<0, -1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>>, <<2, 1, 0, 0>>}}
    \cup {[t |-> "hd", n |-> n, j |-> j] : n \in 2..5, j \in {3, 6}}
    \cup {[t |-> "memory", s |-> s] : s \in {0, 1, -4}}
    \cup {[t |-> "ra", coarse |-> c, g |-> g, mb |-> mb, lb |-> 5] : c \in BOOLEAN, g \in {64, 62}, mb \in {1, 3}}
    \cup {[t |-> "radyn", coarse |-> c, g |-> 64, c |-> s, mb |-> 2, lb |-> 5] : c \in BOOLEAN, s \in {0, 16}}
    \cup {[t |-> "settle", m |-> m, c |-> c] : m \in {1, 2}, c \in {0, 4, 16}}
    \cup {[t |-> "ref", d |-> d, s |-> s] : d \in {1, 2}, s \in {0, 4}}
    \cup {[t |-> "am", q |-> q, s |-> s] : q \in {1, 2, 3}, s \in {0, 4}}
    \cup {[t |-> "clip", p |-> p, b |-> 16] : p \in {0, 1, 4}}
Grid == [dc : {0, -5}, a : {1}, x : {<<0, 16, 8, -16>>, <<3, -20, 40, 60, 33>>, <<16>>, <<-48, 80, 80, 0>>}, e : {6}]
InitSet == IF Mode = "file" THEN {Scens[i] : i \in 1..Len(Scens)} ELSE Grid
Init == cfg \in InitSet /\ k = 0 /\ sig = [i \in 1..Len(cfg.x) |-> D(cfg.x[i], cfg.e)] /\ prev = <<>> /\ op = None /\ exact = TRUE /\ ops = <<>> /\ path = <<>>
CanNext == IF Mode = "file" THEN k < Len(cfg.ops) /\ ENABLED Apply(cfg.ops[k + 1]) ELSE k < Depth
Next == IF Mode = "file" THEN k < Len(cfg.ops) /\ Apply(cfg.ops[k + 1]) ELSE k < Depth /\ \E o \in Catalog : Apply(o)
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- properties
ZeroStrength(o) == \/ o.t = "poly" /\ o.ks = <<0, 0, 0, 0>>
                   \/ o.t \in {"ref", "am"} /\ o.s = 0
                   \/ o.t = "clip" /\ o.p = 0
ZeroIsIdentity == (k > 0 /\ ZeroStrength(op)) => sig = prev
SameLength == k > 0 => Len(sig) = Len(prev)
QuantExact == (k > 0 /\ op.t = "quant") =>
    LET lsb == D(op.hi - op.lo, 6 + op.n) IN \A i \in 1..N :
      /\ DLe(D64(op.lo), sig[i]) /\ DLe(sig[i], DSub(D64(op.hi), lsb))
      /\ (DLe(D64(op.lo), prev[i]) /\ DLt(prev[i], D64(op.hi))) => (DLe(sig[i], prev[i]) /\ DLt(DSub(prev[i], sig[i]), lsb))
      /\ Quant1(sig[i], op) = sig[i]
Monotone == (k > 0 /\ op.t \in {"quant", "clip"}) => \A i, j \in 1..N : DLe(prev[i], prev[j]) => DLe(sig[i], sig[j])
ClipBounds == (k > 0 /\ op.t = "clip") =>
    \A i \in 1..N : (sig[i] = prev[i]) \/ (\A j \in 1..N : DLe(sig[j], sig[i])) \/ (\A j \in 1..N : DLe(sig[i], sig[j]))
\* a settling output lies between the previous output and its target
Between(v, a, b) == IsBad(DSub(a, b)) \/ IsBad(DSub(v, b)) \/ IsBad(DSub(v, a)) \/ (DLe(DMin(a, b), v) /\ DLe(v, DMax(a, b)))
SettleBetween == (k > 0 /\ op.t = "settle") => \A i \in 1..N : Between(sig[i], prev[i], IF i = 1 THEN D64(cfg.dc) ELSE sig[i - 1])
\* unit gain leaves only the two-stage quantisation
UnitGain == (k > 0 /\ ((op.t = "ra" /\ op.g = 64) \/ (op.t = "radyn" /\ op.g = 64 /\ op.c = 0))) =>
    \A i \in 1..N : LET d == DSub(prev[i], sig[i]) IN DLe(<<0, 0>>, d) /\ DLt(d, D(1, op.lb))
EmitDone == (k > 0 /\ ~CanNext) => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE 0, dc |-> cfg.dc, a |-> cfg.a, x |-> cfg.x, e |-> cfg.e, ops |-> ops, path |-> path])
=============================================================================
