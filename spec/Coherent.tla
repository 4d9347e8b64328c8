------------------------------ MODULE Coherent ------------------------------
(* Choosing a coherent test frequency.  The target lies at t/res bins.  The    *)
(* search looks outwards from the target, one bin at a time, and stops at the   *)
(* first distance at which an admissible bin turns up; both bins of an exact    *)
(* tie are acceptable.  A target half-way between bins may be rounded either way.*)
EXTENDS Common
CONSTANTS Mode, MaxN, MaxBin, Res, MaxR
VARIABLES cfg, center, lo, hi, best, found, phase
vars == <<cfg, center, lo, hi, best, found, phase>>

Grid == {[n |-> n, t |-> t, res |-> Res, odd |-> o, r |-> r] :
            n \in 1..MaxN, t \in (-Res)..(MaxBin * Res), o \in {0, 1}, r \in 0..MaxR}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Centers(c) == LET f == c.t \div c.res  d == 2 * (c.t % c.res) IN
              IF d < c.res THEN {f} ELSE IF d > c.res THEN {f + 1} ELSE {f, f + 1}
Dist(b) == Abs(b * cfg.res - cfg.t)
Admissible(b) == b > 0 /\ Gcd(b, cfg.n) = 1 /\ (cfg.odd = 1 => b % 2 = 1)
InWindow(b) == center - cfg.r <= b /\ b <= center + cfg.r

Init == /\ cfg \in InitSet /\ center \in Centers(cfg)
        /\ hi = center /\ lo = center - 1 /\ best = -1 /\ found = {} /\ phase = "search"
\* The nearer of the two bins not yet looked at, if it is still in the window.
Left == InWindow(lo) /\ (InWindow(hi) => Dist(lo) <= Dist(hi))
Pick == IF Left THEN lo ELSE hi
Look == /\ phase = "search" /\ (InWindow(lo) \/ InWindow(hi))
        /\ best = -1 \/ Dist(Pick) <= best
        /\ IF Admissible(Pick) THEN best' = Dist(Pick) /\ found' = found \union {Pick}
                               ELSE UNCHANGED <<best, found>>
        /\ IF Left THEN lo' = lo - 1 /\ UNCHANGED hi ELSE hi' = hi + 1 /\ UNCHANGED lo
        /\ UNCHANGED <<cfg, center, phase>>
Stop == /\ phase = "search"
        /\ (~InWindow(lo) /\ ~InWindow(hi)) \/ (best # -1 /\ Dist(Pick) > best)
        /\ phase' = "done" /\ UNCHANGED <<cfg, center, lo, hi, best, found>>
Next == Look \/ Stop
Spec == Init /\ [][Next]_vars

Sound == \A b \in found : Admissible(b) /\ InWindow(b) /\ Dist(b) = best
Nearest == (phase = "done") => \A b \in (center - cfg.r)..(center + cfg.r) :
              Admissible(b) => found # {} /\ Dist(b) >= best /\ (Dist(b) = best => b \in found)
\* Coherence: an admissible bin visits all n phases before repeating.
Coherence == (Mode # "file" /\ phase = "done") =>
   \A b \in found : Cardinality({(b * k) % cfg.n : k \in 0..(cfg.n - 1)}) = cfg.n
EmitDone == (phase = "done") =>
   Emit([n |-> cfg.n, t |-> cfg.t, res |-> cfg.res, odd |-> cfg.odd, r |-> cfg.r,
         ok |-> found # {}, bins |-> found])
=============================================================================
