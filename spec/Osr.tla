-------------------------------- MODULE Osr --------------------------------
(* Performance against oversampling ratio.  A residual power spectrum (integer  *)
(* bin powers, DC to Nyquist) and a list of ratios num/den in any order.  The    *)
(* sweep visits the ratios from the largest down, adding the bins the widening   *)
(* band uncovers; the definition sums the band afresh.                            *)
EXTENDS Common
CONSTANTS Mode, NS, MaxP
VARIABLES cfg, left, edge, total, peak, res
vars == <<cfg, left, edge, total, peak, res>>

Ratios == {<<1, 1>>, <<2, 1>>, <<3, 2>>, <<7, 3>>, <<4, 1>>, <<64, 1>>}
Ex == UNION {{[N |-> N, e |-> e, osr |-> <<a, b, d>>] : e \in [1..(N \div 2 + 1) -> 0..MaxP], a \in Ratios, b \in Ratios, d \in {<<1, 1>>, <<5, 4>>}} : N \in NS}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Ex
\* The band: DC up to and including the bin at half the sampling rate over the ratio.
Band(c, o) == Max2(1, Min2((c.N * o[2]) \div (2 * o[1]) + 1, c.N \div 2 + 1))
\* a <= b for positive ratios, by continued fractions so that ratios a hair apart stay within the checker's integers
RECURSIVE NoMore(_, _)
NoMore(a, b) == IF a[1] \div a[2] # b[1] \div b[2] THEN a[1] \div a[2] < b[1] \div b[2]
                ELSE IF a[1] % a[2] = 0 THEN TRUE
                ELSE IF b[1] % b[2] = 0 THEN FALSE
                ELSE NoMore(<<b[2], b[1] % b[2]>>, <<a[2], a[1] % a[2]>>)
OrderAgrees == \A a, b \in Ratios : NoMore(a, b) = RLe(a, b)
ASSUME OrderAgrees
MaxOver(f, lo, hi) == LET S == {f[i] : i \in lo..hi} IN CHOOSE x \in S : \A y \in S : y <= x

Init == /\ cfg \in InitSet /\ left = DOMAIN cfg.osr /\ edge = 0 /\ total = 0 /\ peak = 0 /\ res = [i \in DOMAIN cfg.osr |-> <<>>]
Visit == /\ left # {}
         /\ \E i \in left : /\ \A j \in left : NoMore(cfg.osr[j], cfg.osr[i])
                            /\ LET b == Band(cfg, cfg.osr[i]) IN
                               /\ edge' = b
                               /\ total' = IF b > edge THEN total + SumFn(cfg.e, edge + 1, b) ELSE total
                               /\ peak' = IF b > edge THEN Max2(peak, MaxOver(cfg.e, edge + 1, b)) ELSE peak
                               /\ res' = [res EXCEPT ![i] = <<b, total', peak'>>]
                            /\ left' = left \ {i}
         /\ UNCHANGED cfg
Next == Visit
Spec == Init /\ [][Next]_vars
\* The running sums are the sums over the band.
AsDefined == \A i \in DOMAIN res : res[i] # <<>> =>
   LET b == Band(cfg, cfg.osr[i]) IN res[i] = <<b, SumFn(cfg.e, 1, b), MaxOver(cfg.e, 1, b)>>
InRange == \A i \in DOMAIN res : res[i] # <<>> => res[i][1] \in 1..(cfg.N \div 2 + 1)
\* A larger ratio never sees more noise.
Monotone == \A i, j \in DOMAIN res : (res[i] # <<>> /\ res[j] # <<>> /\ ~NoMore(cfg.osr[j], cfg.osr[i])) => (res[j][2] <= res[i][2] /\ res[j][3] <= res[i][3])
EmitDone == (left = {}) => Emit([c |-> cfg, res |-> res])
=============================================================================
