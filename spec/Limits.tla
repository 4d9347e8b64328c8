------------------------------- MODULE Limits -------------------------------
(* Figures of merit and theoretical limits, exact on logarithmic coordinates   *)
(* (see Units): each result is the power ratio its dB value stands for, or the  *)
(* energy per step.  Step doubles or halves one argument; the result must move  *)
(* by the law's exponent.                                                       *)
EXTENDS Common
CONSTANTS Mode, Depth
VARIABLES cfg, arg, moved, base
vars == <<cfg, arg, moved, base>>
D == 6
VAdd(a, b) == [i \in 1..D |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..D |-> a[i] - b[i]]
VMul(a, k) == [i \in 1..D |-> k * a[i]]
Two(n) == <<2 * n, 0, 0, 0, 0, 0>>
Ten(n) == <<2 * n, 0, 2 * n, 0, 0, 0>>
One == <<0, 0, 0, 0, 0, 0>>
KT == VAdd(VAdd(<<2, 2, 0, 0, 2, 0>>, Ten(-25)), <<4, 2, 4, 0, 0, 0>>)      \* 1.38e-23 * 300
Value(f, a) ==
  CASE f = "walden"   -> VSub(a[1], VAdd(VMul(Two(1), a[3][1]), a[2]))     \* power, fs, ENOB (a[3][1] bits)
    [] f = "schreier" -> VAdd(a[2], VSub(a[3], a[1]))                       \* power, SNDR level, bandwidth
    [] f = "thermal"  -> VSub(VAdd(VAdd(VMul(a[2], 2), Two(-3)), VAdd(a[1], Ten(-12))), KT)   \* pF, Vfs
    [] f = "jitter"   -> VMul(VAdd(VAdd(Two(1), <<0, 0, 0, 0, 0, 2>>), VAdd(a[1], a[2])), -2)  \* f, tj
    [] f = "snr"      -> VAdd(VSub(VAdd(VMul(a[1], 2), Two(-1)), VMul(a[2], 2)), a[3])         \* A, sigma, OSR
    [] f = "sinepow"  -> VSub(VAdd(VMul(a[1], 2), Two(-1)), a[2])           \* A, z
    [] f = "vpp"      -> VAdd(a[1], VMul(VSub(a[3], a[2]), 1))              \* Vpp, measured and target magnitude
Arity == [walden |-> 2, schreier |-> 3, thermal |-> 2, jitter |-> 2, snr |-> 2, sinepow |-> 2, vpp |-> 3]
\* exponent of two by which the result moves when argument i doubles
Law(f, i) == CASE f = "walden" -> <<1, -1>>[i] [] f = "schreier" -> <<-1, 1, 1>>[i] [] f = "thermal" -> <<1, 2>>[i]
               [] f = "jitter" -> <<-2, -2>>[i] [] f = "snr" -> <<2, -2>>[i] [] f = "sinepow" -> <<2, -1>>[i]
               [] f = "vpp" -> <<1, -1, 1>>[i]
Grid == {[f |-> f, a |-> <<One, Ten(1), Two(4)>>] : f \in DOMAIN Arity}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == cfg \in InitSet /\ arg = cfg.a /\ moved = 0 /\ base = Value(cfg.f, cfg.a)
Step(i, s) == /\ arg' = [arg EXCEPT ![i] = VAdd(@, Two(s))] /\ moved' = moved + s * Law(cfg.f, i) /\ UNCHANGED <<cfg, base>>
Small == \A i \in 1..3 : \A j \in 1..D : Abs(arg[i][j] - cfg.a[i][j]) <= 2 * Depth
Next == Small /\ \E i \in 1..Arity[cfg.f] : \E s \in {-1, 1} : Step(i, s)
Spec == Init /\ [][Next]_vars
Bound == Small
ScalingLaw == Value(cfg.f, arg) = VAdd(base, Two(moved))
EmitAll == Emit([f |-> cfg.f, a |-> arg, val |-> Value(cfg.f, arg)])
=============================================================================
