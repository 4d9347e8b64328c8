----------------------------- MODULE Averaging -----------------------------
(* Averaging of several captures of one periodic waveform, started at          *)
(* different times.  Phases are elements of Z_K (one turn = K), amplitudes are  *)
(* integers.  A capture started theta later shows harmonic h with phase         *)
(* p_h + h*theta; folded into an odd Nyquist zone it appears conjugated.        *)
(* Each capture is aligned to its own fundamental before it is accumulated.     *)
EXTENDS Common
CONSTANTS Mode, NS, K
VARIABLES cfg, r, acc, pow, valid, ok
vars == <<cfg, r, acc, pow, valid, ok>>

ExGrid == {[N |-> N, b |-> b, lobe |-> 0,
            tones |-> << [h |-> 1, a |-> 4, p |-> p1], [h |-> h2, a |-> 1, p |-> p2] >>,
            runs |-> << [th |-> t1, g |-> 1], [th |-> t2, g |-> g2] >>] :
            N \in NS, b \in 1..((CHOOSE m \in NS : \A x \in NS : x <= m) - 1) \div 2, h2 \in 2..5, p1 \in {0, 1}, p2 \in {0, 2},
            t1 \in {0, 3}, t2 \in 0..(K - 1), g2 \in {0, 2}}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE {c \in ExGrid : 2 * c.b < c.N}
Fold(x) == LET y == x % cfg.N IN IF 2 * y > cfg.N THEN cfg.N - y ELSE y
Sign(x) == IF 2 * (x % cfg.N) > cfg.N THEN -1 ELSE 1
Bin(t) == Fold(t.h * cfg.b)
Modk(x) == ((x % K) + K) % K
T == cfg.tones
\* Decidable cases: tones on bins of their own, clear of DC and Nyquist, and not reached by a
\* lower harmonic of the fundamental (whose rotation would apply to that bin).
Clear(t) == /\ Bin(t) > cfg.lobe /\ 2 * (Bin(t) + cfg.lobe) < cfg.N
            /\ \A j \in 1..(t.h - 1) : Abs(Fold(j * cfg.b) - Bin(t)) > 2 * cfg.lobe
Decidable == /\ \A i \in DOMAIN T : Clear(T[i])
             /\ \A i, j \in DOMAIN T : i # j => Abs(Bin(T[i]) - Bin(T[j])) > 2 * cfg.lobe
\* What a capture shows at the bin of tone t: amplitude and phase.
Shows(t, run) == <<run.g * t.a, Modk(Sign(t.h * cfg.b) * (t.p + t.h * run.th))>>
FundPhase(run) == Shows(T[1], run)[2]
Aligned(t, run) == <<Shows(t, run)[1], Modk(Shows(t, run)[2] - Sign(t.h * cfg.b) * t.h * FundPhase(run))>>

Init == /\ cfg \in InitSet /\ r = 0 /\ ok = Decidable /\ valid = 0
        /\ acc = [i \in DOMAIN cfg.tones |-> <<>>] /\ pow = [i \in DOMAIN cfg.tones |-> 0]
Capture == /\ r < Len(cfg.runs) /\ ok /\ r' = r + 1
           /\ LET run == cfg.runs[r + 1] IN
              /\ pow' = [i \in DOMAIN T |-> pow[i] + (run.g * T[i].a) * (run.g * T[i].a)]
              /\ IF run.g = 0 THEN UNCHANGED <<acc, valid>>
                 ELSE /\ valid' = valid + 1
                      /\ acc' = [i \in DOMAIN T |-> Append(acc[i], Aligned(T[i], run))]
           /\ UNCHANGED <<cfg, ok>>
Next == Capture
Spec == Init /\ [][Next]_vars
\* --------------------------------------------------------------- properties
FundamentalAtZero == \A k \in DOMAIN acc[1] : acc[1][k][2] = 0
\* Every capture contributes the same phase, the one relative to the fundamental: start time is gone.
StartTimeGone == \A i \in DOMAIN T : \A k \in DOMAIN acc[i] :
                   acc[i][k][2] = Modk(Sign(T[i].h * cfg.b) * (T[i].p - T[i].h * T[1].p))
Done == ok /\ r = Len(cfg.runs)
EmitDone == Done => Emit([c |-> cfg, bins |-> [i \in DOMAIN T |-> Bin(T[i])], valid |-> valid,
   mag |-> [i \in DOMAIN T |-> SumSeq([k \in DOMAIN acc[i] |-> acc[i][k][1]])],
   ph |-> [i \in DOMAIN T |-> IF acc[i] = <<>> THEN 0 ELSE acc[i][1][2]], pow |-> pow])
=============================================================================
