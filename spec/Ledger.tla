------------------------------- MODULE Ledger -------------------------------
(* One record, many analyses.  A record is edited step by step: lines are added at *)
(* free bins, it is shifted by a constant, scaled, negated, or cut to a band.      *)
(* Beside the record itself every analysis keeps its own account of it, updated    *)
(* from its own definition at each edit:                                           *)
(*   spec    power per bin (the spectrum)                                          *)
(*   fit     power of the fitted sine, mean, power of what the fit leaves          *)
(*   dec     power of fundamental, of every harmonic, of the decomposition's rest  *)
(*   acf     mean square of the fitting error (autocorrelation at lag zero)        *)
(*   band    power left inside a band and outside it                               *)
(* The properties say that the accounts never disagree.  Powers are squared        *)
(* amplitudes (twice the mean square).                                             *)
EXTENDS Common
CONSTANTS Mode, Ns, Depth
VARIABLES cfg, at, spec, fit, dec, acf, band, hist
vars == <<cfg, at, spec, fit, dec, acf, band, hist>>
\* ------------------------------------------------------------- the record's harmonics
Fold(x, n) == LET y == x % n IN IF 2 * y <= n THEN y ELSE n - y
Bins(c) == 0..((c.N - 1) \div 2)
HarmBins(c) == {Fold(h * c.b, c.N) : h \in 2..c.H} \ {c.b, 0}
InBand(c, q) == q >= c.lo /\ q <= c.hi
\* ------------------------------------------------------------- scenarios
Ops(c) == {[op |-> "add", q |-> q, a |-> a] : q \in (Bins(c) \ {0, c.b}), a \in {1, 2}} \cup
          {[op |-> "dc", q |-> 0, a |-> 3], [op |-> "scale", q |-> 0, a |-> 2], [op |-> "negate", q |-> 0, a |-> 1],
           [op |-> "cut", q |-> c.lo, a |-> c.hi]}
Grid == UNION {[N : {n}, b : 1..((n - 1) \div 2), A : {4}, H : {3}, lo : {0, 2}, hi : {3}] : n \in Ns}
GoodGrid == {g \in Grid : \A h \in 2..g.H : Fold(h * g.b, g.N) # g.b /\ Fold(h * g.b, g.N) # 0 /\ 2 * Fold(h * g.b, g.N) # g.N}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE GoodGrid
Depth_ == IF Mode = "file" THEN Len(cfg.todo) ELSE Depth
Init == /\ cfg \in InitSet
        /\ at = 0 /\ hist = <<>>
        /\ spec = [q \in Bins(cfg) |-> IF q = cfg.b THEN cfg.A * cfg.A ELSE 0]
        /\ fit = [sig |-> cfg.A * cfg.A, mean |-> 0, rest |-> 0]
        /\ dec = [sig |-> cfg.A * cfg.A, harm |-> [q \in HarmBins(cfg) |-> 0], rest |-> 0]
        /\ acf = 0
        /\ band = [inside |-> IF InBand(cfg, cfg.b) THEN cfg.A * cfg.A ELSE 0, outside |-> IF InBand(cfg, cfg.b) THEN 0 ELSE cfg.A * cfg.A]
\* ------------------------------------------------------------- edits
Sum(f, S) == LET RECURSIVE go(_) go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE x \in T : TRUE IN f[x] + go(T \ {x}) IN go(S)
Add(o) == /\ o.op = "add" /\ spec[o.q] = 0 /\ o.q # cfg.b
          /\ spec' = [spec EXCEPT ![o.q] = o.a * o.a]
          /\ fit' = [fit EXCEPT !.rest = @ + o.a * o.a]
          /\ dec' = IF o.q \in HarmBins(cfg) THEN [dec EXCEPT !.harm[o.q] = o.a * o.a] ELSE [dec EXCEPT !.rest = @ + o.a * o.a]
          /\ acf' = acf + o.a * o.a
          /\ band' = IF InBand(cfg, o.q) THEN [band EXCEPT !.inside = @ + o.a * o.a] ELSE [band EXCEPT !.outside = @ + o.a * o.a]
Dc(o) == /\ o.op = "dc" /\ fit' = [fit EXCEPT !.mean = @ + o.a] /\ UNCHANGED <<spec, dec, acf, band>>
Scale(k) == /\ spec' = [q \in Bins(cfg) |-> k * k * spec[q]]
            /\ fit' = [sig |-> k * k * fit.sig, mean |-> k * fit.mean, rest |-> k * k * fit.rest]
            /\ dec' = [sig |-> k * k * dec.sig, harm |-> [q \in HarmBins(cfg) |-> k * k * dec.harm[q]], rest |-> k * k * dec.rest]
            /\ acf' = k * k * acf
            /\ band' = [inside |-> k * k * band.inside, outside |-> k * k * band.outside]
\* keep only the lines between the two bins; the mean survives when bin zero does
Cut(o) == /\ o.op = "cut" /\ cfg.b >= o.q /\ cfg.b <= o.a
          /\ LET kept(q) == q >= o.q /\ q <= o.a
                 gone == {q \in Bins(cfg) : ~kept(q)} IN
             /\ spec' = [q \in Bins(cfg) |-> IF kept(q) THEN spec[q] ELSE 0]
             /\ fit' = [fit EXCEPT !.rest = @ - Sum(spec, gone), !.mean = IF o.q = 0 THEN @ ELSE 0]
             /\ dec' = [sig |-> dec.sig, harm |-> [q \in HarmBins(cfg) |-> IF kept(q) THEN dec.harm[q] ELSE 0],
                        rest |-> dec.rest - Sum(spec, gone \ HarmBins(cfg))]
             /\ acf' = acf - Sum(spec, gone)
             /\ band' = [inside |-> band.inside - Sum(spec, {q \in gone : InBand(cfg, q)}),
                         outside |-> band.outside - Sum(spec, {q \in gone : ~InBand(cfg, q)})]
Edit(o) == \/ Add(o)
           \/ Dc(o)
           \/ (o.op = "scale" /\ Scale(o.a))
           \/ (o.op = "negate" /\ Scale(-1))
           \/ Cut(o)
Step == /\ at < Depth_
        /\ \E o \in (IF Mode = "file" THEN {cfg.todo[at + 1]} ELSE Ops(cfg)) : Edit(o) /\ hist' = Append(hist, o)
        /\ at' = at + 1 /\ UNCHANGED cfg
\* an edit that cannot be made is passed over
Skip == /\ Mode = "file" /\ at < Depth_
        /\ LET o == cfg.todo[at + 1] IN (o.op = "add" /\ (spec[o.q] # 0 \/ o.q = cfg.b)) \/ (o.op = "cut" /\ ~(cfg.b >= o.q /\ cfg.b <= o.a))
        /\ at' = at + 1 /\ UNCHANGED <<cfg, spec, fit, dec, acf, band, hist>>
Next == Step \/ Skip
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
Rest == Sum(spec, Bins(cfg) \ {cfg.b})
SignalAgrees == spec[cfg.b] = fit.sig /\ fit.sig = dec.sig
RestAgrees == Rest = fit.rest /\ fit.rest = acf /\ acf = Sum(dec.harm, HarmBins(cfg)) + dec.rest
HarmonicsAgree == \A q \in HarmBins(cfg) : 2 * q = cfg.N \/ dec.harm[q] = spec[q]
BandsAgree == band.inside + band.outside = fit.sig + fit.rest /\ band.inside = Sum(spec, {q \in Bins(cfg) : InBand(cfg, q)})
NonNegative == dec.rest >= 0 /\ fit.rest >= 0 /\ band.outside >= 0
EmitAll == (Mode = "file" => at = Depth_) =>
           Emit([c |-> IF Mode = "file" THEN [k \in (DOMAIN cfg \ {"todo"}) |-> cfg[k]] ELSE cfg, hist |-> hist,
                 lines |-> {<<q, spec[q]>> : q \in {x \in Bins(cfg) : spec[x] > 0}}, fit |-> fit,
                 harm |-> {<<q, dec.harm[q]>> : q \in HarmBins(cfg)}, drest |-> dec.rest, acf |-> acf, band |-> band])
=============================================================================
