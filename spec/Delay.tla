------------------------------- MODULE Delay --------------------------------
(* Delay lines.  Three kinds of record, each with its own exact semantics:     *)
(*  ring : N samples on a circle, whole-sample delays rotate it                 *)
(*  line : N samples on a line, whole-sample delays shift it, zeros come in     *)
(*  tone : tones <<bin, amplitude, phase>> on a circle of N samples; a delay of  *)
(*         d/res samples turns every phase back by bin*d/(N*res) turns           *)
(*  poly : samples of a polynomial, a delay evaluates it at n - d/res            *)
(* Op applies one delay; a history of operations is a behaviour.                *)
EXTENDS Common
CONSTANTS Mode, MaxN, MaxD, MaxOps
VARIABLES cfg, rec, total, ops, phase
vars == <<cfg, rec, total, ops, phase>>

Grid == {[kind |-> k, N |-> n, res |-> 1, taps |-> 3, data |-> [i \in 1..n |-> i], todo |-> <<>>] :
            k \in {"ring", "line"}, n \in 1..MaxN}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == /\ cfg \in InitSet /\ total = 0 /\ ops = <<>> /\ phase = "run"
        /\ rec = CASE cfg.kind \in {"ring", "line"} -> cfg.data
                   [] cfg.kind = "tone" -> [i \in 1..Len(cfg.data) |-> <<cfg.data[i][3], 1>>]   \* phase numerators are given in cfg
                   [] OTHER -> <<>>
Ring(r, d) == [i \in 1..cfg.N |-> r[((i - 1 - d) % cfg.N) + 1]]
Line(r, d) == [i \in 1..cfg.N |-> IF 1 <= i - d /\ i - d <= cfg.N THEN r[i - d] ELSE 0]
\* Phases in turns, exact rationals, reduced to [0,1).
Mod1(q) == Norm(<<q[1] % q[2], q[2]>>)
Turn(r, d) == [i \in 1..Len(r) |-> Mod1(RSub(r[i], Q(cfg.data[i][1] * d, cfg.N * cfg.res)))]
StartPhase(i) == Q(cfg.data[i][3], 16)
RECURSIVE Horner(_, _, _)
Horner(a, x, i) == IF i > Len(a) THEN <<0, 1>> ELSE RAdd(R(a[i]), RMul(x, Horner(a, x, i + 1)))
Apply(d) == CASE cfg.kind = "ring" -> Ring(rec, d)
              [] cfg.kind = "line" -> Line(rec, d)
              [] cfg.kind = "tone" -> Turn(IF ops = <<>> THEN [i \in 1..Len(rec) |-> StartPhase(i)] ELSE rec, d)
              [] cfg.kind = "poly" -> [i \in 1..cfg.N |-> Horner(cfg.data, Q((i - 1) * cfg.res - d, cfg.res), 1)]
Op(d) == /\ rec' = Apply(d) /\ total' = total + d /\ ops' = Append(ops, d) /\ UNCHANGED <<cfg, phase>>
Next == /\ phase = "run"
        /\ \/ Mode # "file" /\ Len(ops) < MaxOps /\ \E d \in (-MaxD)..MaxD : Op(d)
           \/ Mode = "file" /\ Len(ops) < Len(cfg.todo) /\ Op(cfg.todo[Len(ops) + 1])
Spec == Init /\ [][Next]_vars

\* Delays on a circle add up, so opposite delays cancel.
Additive == (cfg.kind = "ring") => rec = Ring(cfg.data, total)
\* On a line samples are only ever dropped: what is left sits at the added-up place.
OnlyDrops == (cfg.kind = "line") => \A i \in 1..cfg.N : rec[i] = 0 \/ rec[i] = Line(cfg.data, total)[i]
OneWay == (cfg.kind = "line" /\ (\A k \in DOMAIN ops : ops[k] >= 0)) => rec = Line(cfg.data, total)
TonesTurn == (cfg.kind = "tone" /\ ops # <<>>) =>
   \A i \in 1..Len(rec) : REq(rec[i], Mod1(RSub(StartPhase(i), Q(cfg.data[i][1] * total, cfg.N * cfg.res))))
EmitAll == (ops # <<>> /\ (Mode = "file" => Len(ops) = Len(cfg.todo))) =>
   Emit([kind |-> cfg.kind, N |-> cfg.N, res |-> cfg.res, taps |-> cfg.taps, data |-> cfg.data, ops |-> ops, rec |-> rec])
=============================================================================
