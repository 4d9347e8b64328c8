------------------------------ MODULE StaticNl ------------------------------
(* A sine of amplitude A through g (x + k2 x^2 + k3 x^3) + d, exactly.  The sine   *)
(* fitted to the output has amplitude s A with s = g (1 + 3/4 k3 A^2); expressed   *)
(* in that reference the curve is y = (g/s) u + (g k2/s^2) u^2 + (g k3/s^3) u^3,    *)
(* so relative to unit linear gain the coefficients are k2/s and k3/s^2.  Actions   *)
(* scale, offset, delay and mirror the record; the extracted coefficients follow.   *)
EXTENDS Common
CONSTANTS Mode, Depth, Amps, K2s, K3s
VARIABLES cfg, A, k2, k3, g, d, word
vars == <<cfg, A, k2, k3, g, d, word>>
\* A in tenths, k2 and k3 in hundredths: file scenarios carry their own numbers
Grid == {[A |-> a, k2 |-> p, k3 |-> q] : a \in Amps, p \in K2s, q \in K3s}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == cfg \in InitSet /\ A = Q(cfg.A, 10) /\ k2 = Q(cfg.k2, 100) /\ k3 = Q(cfg.k3, 100) /\ g = R(1) /\ d = R(0) /\ word = <<>>
S == RMul(g, RAdd(R(1), RMul(Q(3, 4), RMul(k3, RMul(A, A)))))
Log(o, v) == word' = Append(word, [op |-> o, v |-> v])
Scale(v) == g' = RMul(g, R(v)) /\ d' = RMul(d, R(v)) /\ UNCHANGED <<cfg, A, k2, k3>> /\ Log("scale", v)
Offset(v) == d' = RAdd(d, R(v)) /\ UNCHANGED <<cfg, A, k2, k3, g>> /\ Log("offset", v)
Delay(v) == UNCHANGED <<cfg, A, k2, k3, g, d>> /\ Log("delay", v)
Mirror == g' = RNeg(g) /\ d' = RNeg(d) /\ UNCHANGED <<cfg, A, k2, k3>> /\ Log("mirror", 0)
Act(o) == CASE o.op = "scale" -> Scale(o.v) [] o.op = "offset" -> Offset(o.v) [] o.op = "delay" -> Delay(o.v) [] o.op = "mirror" -> Mirror
Ops == {[op |-> "scale", v |-> 3], [op |-> "offset", v |-> 2], [op |-> "delay", v |-> 5], [op |-> "mirror", v |-> 0]}
Next == IF Mode = "file" THEN Len(word) < Len(cfg.todo) /\ Act(cfg.todo[Len(word) + 1]) ELSE Len(word) < Depth /\ \E o \in Ops : Act(o)
Spec == Init /\ [][Next]_vars
\* amplitudes of the harmonics of the output (signed, cosine phase)
H1 == RMul(S, A)
H2 == RMul(g, RMul(Q(1, 2), RMul(k2, RMul(A, A))))
H3 == RMul(g, RMul(Q(1, 4), RMul(k3, RMul(A, RMul(A, A)))))
DC == RAdd(d, H2)
\* Second harmonic over fundamental is half the extracted quadratic coefficient times the reference
\* amplitude, over the linear gain g/s: independent of gain and offset.
RatioLaw == REq(RMul(H2, S), RMul(RMul(Q(1, 2), RMul(k2, A)), RMul(g, H1)))
\* At the positive peak (cos = 1) the harmonics add up to the curve at x = A.
PeakLaw == REq(RAdd(RAdd(DC, H1), RAdd(H2, H3)), RAdd(d, RMul(g, RAdd(A, RAdd(RMul(k2, RMul(A, A)), RMul(k3, RMul(A, RMul(A, A))))))))
EmitAll == (Mode = "file" => Len(word) = Len(cfg.todo)) => Emit([A |-> A, k2 |-> k2, k3 |-> k3, g |-> g, d |-> d, s |-> S, h1 |-> H1, h2 |-> H2, h3 |-> H3, dc |-> DC, word |-> word])
=============================================================================
