------------------------------ MODULE SineFit ------------------------------
(* Least-squares fit of a sine of known frequency b/N to an arbitrary integer   *)
(* record of N samples, in exact cyclotomic arithmetic: the samples are          *)
(* correlated with the tone one by one, the fit is rebuilt and the residual      *)
(* must be orthogonal to everything that was fitted.                              *)
EXTENDS Cyclo
CONSTANTS Mode, NS, Vals
VARIABLES cfg, phi, n, s, z, res
vars == <<cfg, phi, n, s, z, res>>
Ex == UNION {{[N |-> N, b |-> b, y |-> y] : b \in 1..((N - 1) \div 2), y \in [1..N -> Vals]} : N \in NS}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Ex
Init == /\ cfg \in InitSet /\ phi = Phi(cfg.N) /\ n = 0 /\ s = 0 /\ z = CZero(cfg.N) /\ res = <<>>
Acquire == /\ n < cfg.N /\ n' = n + 1 /\ s' = s + cfg.y[n + 1]
           /\ z' = CAdd(cfg.N, z, CMono(cfg.N, -(cfg.b * n), cfg.y[n + 1]))
           /\ UNCHANGED <<cfg, phi, res>>
\* N times the fitted sample k: the mean and twice the real part of z w^{bk}
Fit(k) == CAdd(cfg.N, CMono(cfg.N, 0, s), CAdd(cfg.N, CRot(cfg.N, z, cfg.b * k), CConj(cfg.N, CRot(cfg.N, z, cfg.b * k))))
Rebuild == /\ n = cfg.N /\ res = <<>>
           /\ res' = [k \in 1..cfg.N |-> CAdd(cfg.N, CMono(cfg.N, 0, cfg.N * cfg.y[k]), CScale(cfg.N, Fit(k - 1), -1))]
           /\ UNCHANGED <<cfg, phi, n, s, z>>
Next == Acquire \/ Rebuild
Spec == Init /\ [][Next]_vars
RECURSIVE Corr(_, _)
Corr(q, k) == IF k > cfg.N THEN CZero(cfg.N) ELSE CAdd(cfg.N, CRot(cfg.N, res[k], -(q * (k - 1))), Corr(q, k + 1))
\* The residual has no mean and nothing at the fitted frequency.
Orthogonal == (res # <<>>) => CIsZero(cfg.N, phi, Corr(0, 1)) /\ CIsZero(cfg.N, phi, Corr(cfg.b, 1))
\* Fitted samples are real.
RealFit == (n = cfg.N) => \A k \in 0..(cfg.N - 1) : CEq(cfg.N, phi, Fit(k), CConj(cfg.N, Fit(k)))
EmitDone == (res # <<>>) => Emit([c |-> cfg, s |-> s, z |-> [i \in 1..cfg.N |-> z[i - 1]]])
=============================================================================
