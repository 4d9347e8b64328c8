----------------------------- MODULE Interleave -----------------------------
(* Sample routing of a time-interleaved converter.  The record is the sequence *)
(* 1..N of distinguishable samples; Route sends the next sample to its channel, *)
(* Merge takes the next sample back from the channel whose turn it is.          *)
EXTENDS Common
CONSTANTS Mode, MaxN, MaxM
VARIABLES cfg, phase, pos, chan, out
vars == <<cfg, phase, pos, chan, out>>

Grid == {[N |-> a, M |-> b] : a \in 0..MaxN, b \in -1..MaxM}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Legal(c) == c.M > 0 /\ c.N % c.M = 0

Init == /\ cfg \in InitSet
        /\ phase = IF Legal(cfg) THEN "split" ELSE "refused"
        /\ pos = 0
        /\ chan = IF Legal(cfg) THEN [m \in 0..(cfg.M - 1) |-> <<>>] ELSE <<>>
        /\ out = <<>>

Route == /\ phase = "split" /\ pos < cfg.N
         /\ chan' = [chan EXCEPT ![pos % cfg.M] = Append(@, pos)]
         /\ pos' = pos + 1 /\ UNCHANGED <<cfg, phase, out>>
Turn == /\ phase = "split" /\ pos = cfg.N
        /\ phase' = "merge" /\ UNCHANGED <<cfg, pos, chan, out>>
Merge == /\ phase = "merge" /\ Len(out) < cfg.N
         /\ LET m == Len(out) % cfg.M  k == Len(out) \div cfg.M
            IN out' = Append(out, chan[m][k + 1])
         /\ UNCHANGED <<cfg, phase, pos, chan>>
Finish == /\ phase = "merge" /\ Len(out) = cfg.N
          /\ phase' = "done" /\ UNCHANGED <<cfg, pos, chan, out>>
Next == Route \/ Turn \/ Merge \/ Finish
Spec == Init /\ [][Next]_vars

\* Every routed sample is in exactly one place, in order, and channels stay balanced.
Conserved == (phase # "refused") =>
   /\ SumSeq([m \in 1..cfg.M |-> Len(chan[m - 1])]) = pos
   /\ \A m \in 0..(cfg.M - 1) : \A k \in 1..Len(chan[m]) : chan[m][k] = (k - 1) * cfg.M + m
Balanced == (phase \in {"merge", "done"}) => \A m \in 0..(cfg.M - 1) : Len(chan[m]) = cfg.N \div cfg.M
RoundTrip == \A k \in 1..Len(out) : out[k] = k - 1

EmitDone == (phase \in {"done", "refused"}) =>
   Emit([N |-> cfg.N, M |-> cfg.M, ok |-> phase = "done",
         ch |-> IF phase = "done" THEN [m \in 1..cfg.M |-> chan[m - 1]] ELSE <<>>])
=============================================================================
