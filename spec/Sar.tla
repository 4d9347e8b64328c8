-------------------------------- MODULE Sar --------------------------------
(* Successive-approximation conversion in exact integer units.                *)
(* cfg.w   : sequence of integer weights, MSB first, over denominator cfg.den *)
(* cfg.v   : input numerator over the same denominator (may be out of range)  *)
(* One step of the machine is one bit trial, as in the converter's loop.      *)
EXTENDS Common
CONSTANTS Mode, MaxBits, MaxW, VNeg, VMax

VARIABLES cfg, j, dac, bits
vars == <<cfg, j, dac, bits>>

RECURSIVE WSeqs(_)
WSeqs(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, w) : s \in WSeqs(n - 1), w \in 0..MaxW}

\* Ideal weights: powers of two, one optionally duplicated, over sum + LSB.
IdealRaw(n, r) ==
  LET pw == [i \in 1..n |-> Pow(2, n - i)]
  IN IF r < 0 THEN pw
     ELSE [i \in 1..(n + 1) |-> IF i <= r + 1 THEN pw[i] ELSE pw[i - 1]]
IdealDen(n, r) == LET w == IdealRaw(n, r) IN SumSeq(w) + w[Len(w)]

\* Half-LSB units, so that inputs strictly between two codes exist.
IdealCfg(n, r, v) == [kind |-> "ideal", n |-> n, r |-> r, w |-> [i \in 1..Len(IdealRaw(n, r)) |-> 2 * IdealRaw(n, r)[i]],
                      den |-> 2 * IdealDen(n, r), v |-> v]

Exhaustive ==
  {[kind |-> "any", n |-> Len(w), r |-> -1, w |-> w, den |-> 8, v |-> v] :
      w \in UNION {WSeqs(n) : n \in 1..MaxBits}, v \in (-VNeg)..VMax}

IdealAll == UNION {UNION {{IdealCfg(n, r, v) : v \in -3..(2 * IdealDen(n, r) + 3)} : r \in -1..(n - 1)} : n \in 1..5}

FromFile(s) == IF s.kind = "ideal" THEN IdealCfg(s.n, s.r, s.v) ELSE
               [kind |-> "any", n |-> Len(s.w), r |-> -1, w |-> s.w, den |-> s.den, v |-> s.v]

InitSet == CASE Mode = "exhaustive" -> Exhaustive
             [] Mode = "ideal" -> IdealAll
             [] Mode = "file" -> {FromFile(Scens[i]) : i \in 1..Len(Scens)}

Init == cfg \in InitSet /\ j = 1 /\ dac = 0 /\ bits = <<>>

Trial == /\ j <= Len(cfg.w)
         /\ LET test == dac + cfg.w[j]
                keep == cfg.v >= test
            IN /\ bits' = Append(bits, IF keep THEN 1 ELSE 0)
               /\ dac' = IF keep THEN test ELSE dac
         /\ j' = j + 1
         /\ UNCHANGED cfg
Next == Trial
Spec == Init /\ [][Next]_vars

Done == j > Len(cfg.w)

\* --------------------------------------------------------------- properties
\* The DAC value is always the weighted sum of the kept bits.
DacIsSum == dac = SumSeq([i \in 1..Len(bits) |-> bits[i] * cfg.w[i]])
\* The DAC never exceeds a non-negative input.
NeverAbove == cfg.v >= 0 => dac <= cfg.v
\* A refused bit was really too large at the time, a kept one fitted.
Greedy == \A i \in 1..Len(bits) :
            LET before == SumSeq([k \in 1..(i - 1) |-> bits[k] * cfg.w[k]])
            IN (bits[i] = 1) <=> (cfg.v >= before + cfg.w[i])
\* With ideal (redundant) weights: residue below one LSB, saturation.
Lsb == cfg.w[Len(cfg.w)]
IdealResidue == (Done /\ cfg.kind = "ideal" /\ cfg.v >= 0 /\ cfg.v < cfg.den) => cfg.v - dac < Lsb
SaturateLow == (Done /\ cfg.v < 0 /\ \A i \in 1..Len(cfg.w) : cfg.w[i] >= 0) => dac = 0
SaturateHigh == (Done /\ cfg.v >= SumSeq(cfg.w)) => \A i \in 1..Len(bits) : bits[i] = 1
\* In range of ideal weights the output is the input floored to the grid: monotone.
IdealFloor == (Done /\ cfg.kind = "ideal" /\ cfg.v >= 0) => dac = Min2(2 * (cfg.v \div 2), SumSeq(cfg.w))

EmitDone == Done => Emit([kind |-> cfg.kind, n |-> cfg.n, r |-> cfg.r, w |-> cfg.w, den |-> cfg.den, v |-> cfg.v,
                          bits |-> bits, dac |-> dac])
=============================================================================
