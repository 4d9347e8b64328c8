----------------------------- MODULE ErrByPhase -----------------------------
(* Error sorted by the phase of the signal.  The signal is a coherent sine of m   *)
(* cycles in L samples, four such blocks long; its phase in block samples is an   *)
(* exact multiple of 1/K of a turn (K = q L).  The error of block j is            *)
(*    e = W1(j) a cos(phi) + W2(j) b sin(phi) + W3(j) c                           *)
(* with the Walsh signs W1..W3, which makes it orthogonal to the sine and to the  *)
(* offset whatever a, b, c are, so that the sine fit leaves exactly this error.   *)
(* Its power is a^2 cos^2 + b^2 sin^2 + c^2 plus cross terms that cancel over the *)
(* four blocks: the least-squares split in cos(2 phi) and a constant is           *)
(*    (a^2-b^2)/2 cos(2 phi) + (a^2+b^2)/2 + c^2.                                 *)
EXTENDS Cyclo
CONSTANTS Mode, LS, QS, Amps, Bins
VARIABLES cfg, phi, n, cnt, idx, s0, s2
vars == <<cfg, phi, n, cnt, idx, s0, s2>>
Grid == UNION {{[L |-> L, m |-> m, q |-> q, p |-> p, a |-> a, b |-> b, c |-> c, B |-> bb] :
                  m \in {k \in 1..(L - 1) : 2 * k < L /\ (4 * k) % L # 0}, p \in {0, 1}, a \in Amps, b \in Amps, c \in Amps, bb \in Bins} : L \in LS, q \in QS}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
K == cfg.q * cfg.L
N == 4 * cfg.L
Walsh(i, j) == CASE i = 1 -> <<1, 1, -1, -1>>[j] [] i = 2 -> <<1, -1, 1, -1>>[j] [] i = 3 -> <<1, -1, -1, 1>>[j]
Block(k) == (k \div cfg.L) + 1
Turn(k) == (cfg.m * cfg.q * k + cfg.p) % K              \* phase of sample k in 1/K turns
\* 2 e as a cyclotomic number needs i: use the quarter turn K/4 instead (4 | K)
Cos2(t) == CAdd(K, CMono(K, t, 1), CMono(K, -t, 1))                               \* 2 cos
Sin2(t) == Cos2(t - K \div 4)                                                     \* 2 sin
Err2(k) == CAdd(K, CAdd(K, CScale(K, Cos2(Turn(k)), Walsh(1, Block(k)) * cfg.a), CScale(K, Sin2(Turn(k)), Walsh(2, Block(k)) * cfg.b)),
                CMono(K, 0, 2 * Walsh(3, Block(k)) * cfg.c))                        \* 2 e
CMulCos(x, t) == CAdd(K, CRot(K, x, t), CRot(K, x, -t))                           \* x times 2 cos
\* 4 e^2 written out in multiples of the angle
Pow4(k) == LET t == Turn(k) w(i) == Walsh(i, Block(k)) IN
    CAdd(K, CMono(K, 0, 2 * cfg.a * cfg.a + 2 * cfg.b * cfg.b + 4 * cfg.c * cfg.c),
    CAdd(K, CScale(K, Cos2(2 * t), cfg.a * cfg.a - cfg.b * cfg.b),
    CAdd(K, CScale(K, Sin2(2 * t), 2 * w(1) * w(2) * cfg.a * cfg.b),
    CAdd(K, CScale(K, Cos2(t), 4 * w(1) * w(3) * cfg.a * cfg.c), CScale(K, Sin2(t), 4 * w(2) * w(3) * cfg.b * cfg.c)))))
BinOf(k) == (Turn(k) * cfg.B) \div K
Edge == \E k \in 0..(cfg.L - 1) : (Turn(k) * cfg.B) % K = 0
Init == cfg \in InitSet /\ phi = Phi(cfg.q * cfg.L) /\ n = 0 /\ cnt = [b \in 0..(cfg.B - 1) |-> 0] /\ idx = <<>>
        /\ s0 = CZero(cfg.q * cfg.L) /\ s2 = <<CZero(cfg.q * cfg.L), CZero(cfg.q * cfg.L), CZero(cfg.q * cfg.L), CZero(cfg.q * cfg.L)>>
\* what the split leaves: 4 e^2 - [2(a^2-b^2) cos 2phi + 2(a^2+b^2) + 4c^2]
Left(k) == CAdd(K, Pow4(k), CAdd(K, CScale(K, Cos2(2 * Turn(k)), cfg.b * cfg.b - cfg.a * cfg.a), CMono(K, 0, -(2 * cfg.a * cfg.a + 2 * cfg.b * cfg.b + 4 * cfg.c * cfg.c))))
Sort == /\ n < N /\ n' = n + 1 /\ idx' = Append(idx, BinOf(n)) /\ cnt' = [cnt EXCEPT ![BinOf(n)] = @ + 1]
        /\ s0' = CAdd(K, s0, Err2(n))
        /\ s2' = << CAdd(K, s2[1], CMulCos(Err2(n), Turn(n))), CAdd(K, s2[2], CMulCos(Err2(n), Turn(n) - K \div 4)),
                    CAdd(K, s2[3], Left(n)), CAdd(K, s2[4], CMulCos(Left(n), 2 * Turn(n))) >>
        /\ UNCHANGED <<cfg, phi>>
Spec == Init /\ [][Sort]_vars
Done == n = N
\* The error is invisible to the sine fit.
ErrOrthogonal == Done => CIsZero(K, phi, s0) /\ CIsZero(K, phi, s2[1]) /\ CIsZero(K, phi, s2[2])
\* What the split leaves is orthogonal to both of its parts.
SplitOrthogonal == Done => CIsZero(K, phi, s2[3]) /\ CIsZero(K, phi, s2[4])
Conserved == SumFn(cnt, 0, cfg.B - 1) = n
A2 == cfg.a * cfg.a
B2 == cfg.b * cfg.b
C2 == cfg.c * cfg.c
\* squared results with and without the constant part
Am == Max2(0, A2 - B2)
Pm == Max2(0, B2 - A2)
Base == Min2(A2, B2) + C2
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE 0, c |-> cfg, edge |-> Edge, idx |-> idx, cnt |-> [b \in 1..cfg.B |-> cnt[b - 1]],
                          am |-> Am, pm |-> Pm, base |-> Base, am0 |-> A2 + C2, pm0 |-> B2 + C2, total2 |-> A2 + B2 + 2 * C2])
=============================================================================
