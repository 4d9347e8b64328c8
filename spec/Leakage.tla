------------------------------ MODULE Leakage -------------------------------
(* Where the harmonics of a tone between bins fall.  Positions are in hundredths   *)
(* of a bin; a harmonic's position is the folded multiple of the tone's, walked    *)
(* there by adding the tone's position once per harmonic.                          *)
EXTENDS Common
CONSTANTS Mode, Ns
VARIABLES cfg, h, p, pos
vars == <<cfg, h, p, pos>>
Grid == {[N |-> n, q |-> q, H |-> 6] : n \in Ns, q \in 300..(50 * 16)}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE {g \in Grid : g.q < 50 * g.N - 100}
\* p runs on the circle of 100 N hundredths
Circ == 100 * cfg.N
Fold(x) == LET y == x % Circ IN IF 2 * y <= Circ THEN y ELSE Circ - y
Init == cfg \in InitSet /\ h = 1 /\ p = cfg.q /\ pos = <<>>
Step == h < cfg.H /\ h' = h + 1 /\ p' = (p + cfg.q) % Circ /\ pos' = Append(pos, Fold(p + cfg.q)) /\ UNCHANGED cfg
Next == Step
Spec == Init /\ [][Next]_vars
Done == h = cfg.H
\* ------------------------------------------------------------- properties
InZone == \A k \in 1..Len(pos) : pos[k] >= 0 /\ 2 * pos[k] <= Circ
IsMultiple == \A k \in 1..Len(pos) : ((k + 1) * cfg.q - pos[k]) % Circ = 0 \/ ((k + 1) * cfg.q + pos[k]) % Circ = 0
EmitDone == Done => Emit([c |-> cfg, pos |-> pos])
=============================================================================
