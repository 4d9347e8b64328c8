-------------------------------- MODULE Sheet --------------------------------
(* What a drawn spectrum carries besides its curve.  The orders are gone       *)
(* through one after another; each is folded into the first Nyquist zone and   *)
(* either falls on the fundamental (noted as collided, never marked) or is     *)
(* marked when it is within the orders asked for.  Title and notes follow from *)
(* the number of runs, the kind of averaging and the oversampling ratio.       *)
EXTENDS Common
CONSTANTS Mode, Ns, MaxH
VARIABLES cfg, h, marks, hit
vars == <<cfg, h, marks, hit>>

Grid == UNION {{[id |-> 0, n |-> n, k |-> k, sb |-> sb, maxh |-> mh, top |-> top, label |-> lb, title |-> TRUE, runs |-> m, coh |-> c, osr |-> o, style |-> "light"] :
                  k \in 1 .. ((n - 1) \div 2), sb \in {0, 1}, mh \in 2 .. MaxH, top \in {0, 3, MaxH + 1}, lb \in BOOLEAN, m \in {1, 4}, c \in BOOLEAN, o \in {100, 250}} : n \in Ns}
InitSet == IF Mode = "file" THEN {Scens[j] : j \in 1 .. Len(Scens)} ELSE Grid

Fold(n, b) == LET r == b % n IN IF 2 * r > n THEN n - r ELSE r
Bin(o) == Fold(cfg.n, o * cfg.k)
Collides(o) == Abs(Bin(o) - cfg.k) <= 2 * cfg.sb

Init == cfg \in InitSet /\ h = 2 /\ marks = <<>> /\ hit = <<>>
Next == /\ h <= cfg.maxh
        /\ h' = h + 1
        /\ hit' = IF Collides(h) THEN Append(hit, h) ELSE hit
        /\ marks' = IF ~Collides(h) /\ h <= cfg.top /\ cfg.label THEN Append(marks, [h |-> h, bin |-> Bin(h)]) ELSE marks
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Done == h > cfg.maxh

\* a mark stands in the drawn band, at a harmonic, and never on the fundamental
InBand == \A j \in 1 .. Len(marks) : /\ marks[j].bin \in 0 .. (cfg.n \div 2)
                                     /\ \/ (marks[j].h * cfg.k - marks[j].bin) % cfg.n = 0
                                        \/ (marks[j].h * cfg.k + marks[j].bin) % cfg.n = 0
                                     /\ marks[j].bin # cfg.k
Apart == \A j \in 1 .. Len(marks) : marks[j].h \notin Range(hit)
NoneUnasked == cfg.top < 2 \/ ~cfg.label => marks = <<>>
\* orders one below or above a multiple of the period come back onto the fundamental
Returns == Done => \A o \in 2 .. cfg.maxh : (((o - 1) * cfg.k) % cfg.n = 0 \/ ((o + 1) * cfg.k) % cfg.n = 0) => o \in Range(hit)

Title == IF ~cfg.title THEN ""
         ELSE IF cfg.style = "dark" THEN "Power Spectrum"
         ELSE IF cfg.runs > 1 THEN (IF cfg.coh THEN "Coherent averaging (N_run = " ELSE "Power averaging (N_run = ") \o ToString(cfg.runs) \o ")"
         ELSE IF cfg.coh THEN "Coherent Spectrum" ELSE "Power Spectrum"
EmitDone == Done => Emit([id |-> cfg.id, marks |-> marks, hit |-> hit, title |-> Title, gain |-> (cfg.coh /\ cfg.runs > 1),
                          over |-> (cfg.osr > 100), log |-> (cfg.osr > 100 /\ cfg.label)])
=============================================================================
