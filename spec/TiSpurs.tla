------------------------------ MODULE TiSpurs -------------------------------
(* Spectrum of an interleaved converter with mismatched channels.  The record  *)
(* is x[n] = o_m + A g_m cos(phi + p_m + b n), m = n mod M, angles in 1/N turn.  *)
(* The machine walks through the DFT bins; in every bin the exact DFT of the     *)
(* record must be what the mismatch sequences predict:                           *)
(*   offset line k      : O_k  = sum_m o_m w^(-k m N/M)      at bin k N/M         *)
(*   gain/timing line k : A/2 sum_m g_m w^(phi+p_m-k m N/M)  at bin b + k N/M     *)
(* and the conjugate image at the mirrored bin, and nothing anywhere else.       *)
EXTENDS Cyclo
CONSTANTS Mode, NS, MS, GVals, OVals, PVals
VARIABLES cfg, phi, q, phase
vars == <<cfg, phi, q, phase>>
Grid == UNION {{[N |-> N, M |-> M, b |-> b, A |-> 2, phi |-> 1, g |-> g, o |-> o, p |-> p] :
                 b \in 1..(N \div 2 - 1), g \in [1..M -> GVals], o \in [1..M -> OVals], p \in [1..M -> PVals]} :
                 N \in NS, M \in MS}
Ok(c) == c.N % c.M = 0
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE {c \in Grid : Ok(c)}
Exact == Mode = "ex"
Init == cfg \in InitSet /\ phi = (IF Exact THEN Phi(cfg.N) ELSE <<>>) /\ q = 0 /\ phase = IF Exact THEN "walk" ELSE "done"
Walk == phase = "walk" /\ q < cfg.N - 1 /\ q' = q + 1 /\ UNCHANGED <<cfg, phi, phase>>
Done == phase = "walk" /\ q = cfg.N - 1 /\ phase' = "done" /\ UNCHANGED <<cfg, phi, q>>
Next == Walk \/ Done
Spec == Init /\ [][Next]_vars

S == cfg.N \div cfg.M       \* bins between lines of one kind
Sample2(k) == LET m == (k % cfg.M) + 1 IN
   CAdd(cfg.N, CMono(cfg.N, 0, 2 * cfg.o[m]), CReal(cfg.N, cfg.phi + cfg.p[m] + cfg.b * k, cfg.A * cfg.g[m]))
RECURSIVE Dft2(_, _)
Dft2(bin, k) == IF k >= cfg.N THEN CZero(cfg.N)
                ELSE CAdd(cfg.N, CRot(cfg.N, Sample2(k), -(bin * k)), Dft2(bin, k + 1))
RECURSIVE Line(_, _, _)
Line(w, k, m) == IF m > cfg.M THEN CZero(cfg.N)     \* sum_m w(m) w^(-k (m-1) N/M)
                 ELSE CAdd(cfg.N, CRot(cfg.N, w[m], -(k * (m - 1) * S)), Line(w, k, m + 1))
OffLine(k) == Line([m \in 1..cfg.M |-> CMono(cfg.N, 0, 2 * cfg.o[m])], k, 1)
ImgLine(k) == Line([m \in 1..cfg.M |-> CMono(cfg.N, cfg.phi + cfg.p[m], cfg.A * cfg.g[m])], k, 1)
\* Predicted DFT (times 2): S times the lines that fall into the bin.
At(bin, line) == IF (bin - line) % cfg.N = 0 THEN S ELSE 0
RECURSIVE Pred(_, _)
Pred(bin, k) == IF k >= cfg.M THEN CZero(cfg.N)
   ELSE CAdd(cfg.N, CAdd(cfg.N, CScale(cfg.N, OffLine(k), At(bin, k * S)),
                     CAdd(cfg.N, CScale(cfg.N, ImgLine(k), At(bin, cfg.b + k * S)),
                                 CScale(cfg.N, CConj(cfg.N, ImgLine(k)), At(bin, -(cfg.b + k * S))))), Pred(bin, k + 1))
Accounted == (phase = "walk") => CEq(cfg.N, phi, Dft2(q, 0), Pred(q, 0))

FoldBin(x) == LET y == x % cfg.N IN IF 2 * y > cfg.N THEN cfg.N - y ELSE y
\* Lines as sums of phasors <<exponent, weight>>; amplitude = |sum| / M.
EmitDone == (phase = "done") =>
   Emit([N |-> cfg.N, M |-> cfg.M, b |-> cfg.b, A |-> cfg.A, phi |-> cfg.phi, g |-> cfg.g, o |-> cfg.o, p |-> cfg.p,
         off |-> [k \in 1..(cfg.M - 1) |-> [bin |-> FoldBin(k * S),
                     sum |-> [m \in 1..cfg.M |-> <<(-(k * (m - 1) * S)) % cfg.N, cfg.o[m]>>]]],
         img |-> [k \in 1..(cfg.M - 1) |-> [bin |-> FoldBin(cfg.b + k * S),
                     sum |-> [m \in 1..cfg.M |-> <<(cfg.p[m] - k * (m - 1) * S) % cfg.N, cfg.A * cfg.g[m]>>]]]])
=============================================================================
