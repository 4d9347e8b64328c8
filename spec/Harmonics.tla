----------------------------- MODULE Harmonics ------------------------------
(* Splitting a coherent record into fundamental, harmonics and the rest, in exact *)
(* arithmetic.  A record of N samples is the sum of tones at multiples of 1/N;     *)
(* tones are added one by one to the two-sided spectrum.  Harmonic h of a          *)
(* fundamental in bin b lives in bin h b mod N, whatever Nyquist zone h b is in.   *)
EXTENDS Cyclo
CONSTANTS Mode, NS, Order, Amps, Tones
VARIABLES cfg, phi, n, acc
vars == <<cfg, phi, n, acc>>
\* phases in K-ths of a turn
K == cfg.K
Fold(N, k) == LET m == k % N IN Min2(m, N - m)
Clear(N, b, H) == /\ \A h \in 1..H : 2 * ((h * b) % N) # N /\ (h * b) % N # 0
                  /\ \A h, g \in 1..H : h # g => Fold(N, h * b) # Fold(N, g * b)
Grid == UNION {{[N |-> N, K |-> 8, b |-> b, H |-> Order, C |-> 1, tones |-> t] :
                   b \in {k \in 1..(N \div 2) : Clear(N, k, Order)}, t \in [1..Tones -> [h : 0..Order, k : {N \div 2 - 1}, A : Amps, p : {0, 3}]]} : N \in NS}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Freq(t) == IF t.h = 0 THEN t.k ELSE t.h * cfg.b          \* h = 0: a tone in bin k of its own
Init == cfg \in InitSet /\ phi = Phi(cfg.K) /\ n = 0 /\ acc = [k \in 0..(cfg.N - 1) |-> CZero(cfg.K)]
Add == /\ n < Len(cfg.tones) /\ n' = n + 1 /\ UNCHANGED <<cfg, phi>>
       /\ LET t == cfg.tones[n + 1]  f == Freq(t) % cfg.N  g == (-Freq(t)) % cfg.N
              up == [acc EXCEPT ![f] = CAdd(K, @, CMono(K, t.p, t.A))]
          IN acc' = [up EXCEPT ![g] = CAdd(K, @, CMono(K, -t.p, t.A))]
Spec == Init /\ [][Add]_vars
Done == n = Len(cfg.tones)
\* A real record: the two-sided spectrum is Hermitian.
Hermitian == (Done \/ Mode # "file") => \A k \in 0..(cfg.N - 1) : acc[(-k) % cfg.N] = CConj(K, acc[k])
HBins == {Fold(cfg.N, h * cfg.b) : h \in 1..cfg.H}
\* Harmonics that do not fold onto each other are separate unknowns.
Separate == Done /\ Clear(cfg.N, cfg.b, cfg.H) => Cardinality(HBins) = cfg.H
Kept == {k \in 0..(cfg.N - 1) : Fold(cfg.N, k) \in HBins \/ k = 0}
\* Fundamental, harmonics and rest partition the spectrum, and nothing put into the rest is kept.
Partition == (Done \/ Mode # "file") => \A k \in 0..(cfg.N - 1) : (k \in Kept) \/ (Fold(cfg.N, k) \notin HBins)
RestOnly == (Done /\ \A i \in 1..n : cfg.tones[i].h \in 1..cfg.H) => \A k \in 0..(cfg.N - 1) : k \in Kept \/ acc[k] = CZero(K)
Vec(x) == [i \in 1..K |-> x[i - 1]]
RestBins == SelectSeq([i \in 1..(cfg.N \div 2) |-> i], LAMBDA k : k \notin Kept /\ acc[k] # CZero(K))
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE 0, N |-> cfg.N, K |-> K, b |-> cfg.b, H |-> cfg.H, C |-> cfg.C, clear |-> Clear(cfg.N, cfg.b, cfg.H),
                          dc |-> Vec(acc[0]), tones |-> cfg.tones,
                          hz |-> [h \in 1..cfg.H |-> Vec(acc[(h * cfg.b) % cfg.N])], rest |-> [i \in 1..Len(RestBins) |-> [k |-> RestBins[i], z |-> Vec(acc[RestBins[i]])]]])
=============================================================================
