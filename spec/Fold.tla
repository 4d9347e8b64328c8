-------------------------------- MODULE Fold --------------------------------
(* Aliasing: a spectral line at rational position x (in units of 1/Res bins)   *)
(* on a circle of N bins.  The machine walks the line one period or one mirror *)
(* at a time until it rests in the first Nyquist zone; the resting place must   *)
(* be the unique representative.                                               *)
EXTENDS Common
CONSTANTS Mode, MaxN, Res, Span
VARIABLES cfg, x, mirrored
vars == <<cfg, x, mirrored>>

Grid == {[n |-> n, x |-> v, res |-> Res] : n \in 1..MaxN, v \in (-Span)..Span}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Period == cfg.n * cfg.res

Init == cfg \in InitSet /\ x = cfg.x /\ mirrored = 0
InZone == 0 <= x /\ 2 * x <= Period
\* Big strides first so that far-away lines need few steps.
Wrap == ~InZone /\ (x < 0 \/ x >= Period) /\ x' = x % Period /\ UNCHANGED <<cfg, mirrored>>
Mirror == ~InZone /\ 0 <= x /\ x < Period /\ 2 * x > Period /\ x' = Period - x /\ mirrored' = 1 /\ UNCHANGED cfg
Next == Wrap \/ Mirror
Spec == Init /\ [][Next]_vars

Congruent == LET d == IF mirrored = 0 THEN cfg.x - x ELSE cfg.x + x IN d % Period = 0
\* The representative is unique: nothing else in the zone is congruent to +-cfg.x.
Unique == (InZone /\ Mode # "file") =>
   \A y \in 0..(Period \div 2) : ((cfg.x - y) % Period = 0 \/ (cfg.x + y) % Period = 0) => y = x
Progress == InZone \/ ENABLED Next
EmitDone == InZone => Emit([n |-> cfg.n, res |-> cfg.res, x |-> cfg.x, y |-> x])
=============================================================================
