---------------------------- MODULE TiMismatch ------------------------------
(* A time-interleaved converter sampling a coherent sine, the extraction of    *)
(* its per-channel errors and their foreground correction, in exact arithmetic. *)
(* Angles are in units of 1/N turn.  Channel m = n mod M takes sample n:         *)
(*     x[n] = o_m + A g_m cos(phi + p_m + b n)                                   *)
(* Acquire accumulates, per channel, the sum and the correlation with the tone;  *)
(* Correct undoes offset, gain and timing.  Twice the samples are kept.          *)
EXTENDS Cyclo
CONSTANTS Mode, NS, MS, GVals, OVals, PVals
VARIABLES cfg, phi, n, rec, dc, ph, fixed, phase
vars == <<cfg, phi, n, rec, dc, ph, fixed, phase>>

\* Coherent, and the tone is neither DC nor Nyquist as seen by one channel.
Observable(c) == c.N % c.M = 0 /\ (c.b * c.M) % c.N # 0 /\ (2 * c.b * c.M) % c.N # 0
Grid == UNION {{[N |-> N, M |-> M, b |-> b, A |-> 3, phi |-> f, g |-> g, o |-> o, p |-> p] :
                 b \in 1..(N \div 2 - 1), f \in {0, 1}, g \in [1..M -> GVals], o \in [1..M -> OVals],
                 p \in [1..M -> PVals]} : N \in NS, M \in MS}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE {c \in Grid : Observable(c)}
Exact == Mode = "ex"

Init == /\ cfg \in InitSet /\ Observable(cfg)
        /\ phi = IF Exact THEN Phi(cfg.N) ELSE <<>>
        /\ n = IF Exact THEN 0 ELSE cfg.N
        /\ rec = <<>>
        /\ dc = [m \in 1..cfg.M |-> IF Exact THEN CZero(cfg.N) ELSE <<>>]
        /\ ph = [m \in 1..cfg.M |-> IF Exact THEN CZero(cfg.N) ELSE <<>>]
        /\ fixed = <<>>
        /\ phase = IF Exact THEN "acquire" ELSE "done"
Sample2(c, k) == LET m == (k % c.M) + 1 IN
   CAdd(c.N, CMono(c.N, 0, 2 * c.o[m]), CReal(c.N, c.phi + c.p[m] + c.b * k, c.A * c.g[m]))
Acquire == /\ phase = "acquire" /\ n < cfg.N
           /\ LET m == (n % cfg.M) + 1  x == Sample2(cfg, n) IN
              /\ rec' = Append(rec, x)
              /\ dc' = [dc EXCEPT ![m] = CAdd(cfg.N, @, x)]
              /\ ph' = [ph EXCEPT ![m] = CAdd(cfg.N, @, CRot(cfg.N, x, -(cfg.b * n)))]
           /\ n' = n + 1 /\ UNCHANGED <<cfg, phi, fixed, phase>>
Extract == /\ phase = "acquire" /\ n = cfg.N /\ phase' = "extracted"
           /\ UNCHANGED <<cfg, phi, n, rec, dc, ph, fixed>>
\* Re-timing acts on the channel record, whose K samples alias the tone to the
\* signed channel bin; below the channel Nyquist rate that is the tone itself.
K == cfg.N \div cfg.M
BelowChannelNyquist == 2 * cfg.b < K
\* Channel DFT of the offset-free channel record at channel bin q (exact).
RECURSIVE ChanDft(_, _, _)
ChanDft(m, q, k) == IF k >= K THEN CZero(cfg.N)
   ELSE CAdd(cfg.N, CRot(cfg.N, CAdd(cfg.N, rec[k * cfg.M + m], CMono(cfg.N, 0, -2 * cfg.o[m])), -(q * cfg.M * k)),
                    ChanDft(m, q, k + 1))
\* The delayed channel: the tone's two bins turned by -+p_m and transformed back (scaled by K g_m).
Correct == /\ phase = "extracted" /\ BelowChannelNyquist
           /\ LET X == [m \in 1..cfg.M |-> <<ChanDft(m, cfg.b, 0), ChanDft(m, -cfg.b, 0)>>] IN
              fixed' = [k \in 1..cfg.N |->
                LET m == ((k - 1) % cfg.M) + 1  t == cfg.b * cfg.M * ((k - 1) \div cfg.M)
                IN CAdd(cfg.N, CRot(cfg.N, X[m][1], t - cfg.p[m]), CRot(cfg.N, X[m][2], cfg.p[m] - t))]
           /\ phase' = "done" /\ UNCHANGED <<cfg, phi, n, rec, dc, ph>>
Skip == /\ phase = "extracted" /\ ~BelowChannelNyquist /\ phase' = "done"
        /\ UNCHANGED <<cfg, phi, n, rec, dc, ph, fixed>>
Next == Acquire \/ Extract \/ Correct \/ Skip
Spec == Init /\ [][Next]_vars

\* The channel mean is the channel offset, whatever the tone.
OffsetsSeparate == (Exact /\ phase = "extracted") =>
   \A m \in 1..cfg.M : CEq(cfg.N, phi, dc[m], CMono(cfg.N, 0, 2 * K * cfg.o[m]))
\* The correlation is gain times the shifted phasor: neither offset nor image leaks in.
PhasorsSeparate == (Exact /\ phase = "extracted") =>
   \A m \in 1..cfg.M : CEq(cfg.N, phi, ph[m], CMono(cfg.N, cfg.phi + cfg.p[m], K * cfg.A * cfg.g[m]))
\* Correction leaves the ideal sine on the ideal grid.
Restored == (Exact /\ phase = "done" /\ BelowChannelNyquist) =>
   \A k \in 1..cfg.N : CEq(cfg.N, phi, fixed[k],
                               CReal(cfg.N, cfg.phi + cfg.b * (k - 1), cfg.A * K * cfg.g[((k - 1) % cfg.M) + 1]))
\* Nothing but the tone is left in a channel once its offset is gone.
ChannelPure == (Exact /\ phase = "extracted" /\ BelowChannelNyquist) =>
   \A m \in 1..cfg.M : \A q \in 0..(K - 1) :
      (q # cfg.b /\ q # K - cfg.b) => CIsZero(cfg.N, phi, ChanDft(m, q, 0))

SumG == SumSeq(cfg.g)
SumP == SumSeq(cfg.p)
EmitDone == (phase = "done") =>
   Emit([N |-> cfg.N, M |-> cfg.M, b |-> cfg.b, A |-> cfg.A, phi |-> cfg.phi, g |-> cfg.g, o |-> cfg.o, p |-> cfg.p,
         gain |-> [m \in 1..cfg.M |-> Q(cfg.g[m] * cfg.M, SumG)],
         skew |-> [m \in 1..cfg.M |-> Q(cfg.p[m] * cfg.M - SumP, cfg.M * cfg.N)],   \* turns
         amp |-> Q(cfg.A * SumG, cfg.M), below |-> BelowChannelNyquist])
=============================================================================
