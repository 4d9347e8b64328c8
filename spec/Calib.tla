------------------------------- MODULE Calib --------------------------------
(* The plant of a sine-wave weight calibration.  A converter with arbitrary bit  *)
(* weights digitises one or several sines without error: each sample is coded by  *)
(* ANY code whose weighted sum is the input (redundancy leaves the choice open).  *)
(* Sines of period 3, 4 and 6 take integer values, so everything is exact:         *)
(* v(n) = a v(n-1) - v(n-2) with a = -1, 0, 1.  Bits may be unused, duplicated or   *)
(* inverted copies, three of them one-hot, or one the union of two.  Every capture  *)
(* has its own offset.                                                             *)
EXTENDS Common
CONSTANTS Mode
VARIABLES cfg, cap, n, rows, vals
vars == <<cfg, cap, n, rows, vals>>
M == Len(cfg.w)
Al(per) == CASE per = 3 -> -1 [] per = 4 -> 0 [] per = 6 -> 1
Grid == {[w |-> w, caps |-> <<[p |-> pq[1], q |-> pq[2], per |-> 3, len |-> 5, dc |-> d]>>, tie |-> "none", i |-> 1, j |-> 1, l |-> 1] :
            w \in {<<2, 1, 1>>, <<2, -1, 1>>, <<1, 1, 1>>}, d \in {1}, pq \in {<<1, 0>>, <<0, 1>>, <<1, -1>>}}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Init == cfg \in InitSet /\ cap = 1 /\ n = 0 /\ rows = <<<<>>>> /\ vals = <<<<>>>>
Cur == cfg.caps[cap]
V == vals[cap]
Level == IF n = 0 THEN Cur.p ELSE IF n = 1 THEN Cur.q ELSE Al(Cur.per) * V[n] - V[n - 1]
Sum(c) == SumFn([b \in 1..M |-> c[b] * cfg.w[b]], 1, M)
TieOk(c) == CASE cfg.tie = "none" -> TRUE [] cfg.tie = "dup" -> c[cfg.i] = c[cfg.j] [] cfg.tie = "inv" -> c[cfg.i] = 1 - c[cfg.j]
              [] cfg.tie = "low" -> c[cfg.i] = 0 [] cfg.tie = "high" -> c[cfg.i] = 1
              [] cfg.tie = "one" -> c[cfg.i] + c[cfg.j] + c[cfg.l] = 1
              [] cfg.tie = "or" -> c[cfg.i] + c[cfg.j] = c[cfg.l]
Code(c) == /\ n < Cur.len /\ TieOk(c) /\ Sum(c) = Cur.dc + Level
           /\ rows' = [rows EXCEPT ![cap] = Append(@, c)] /\ vals' = [vals EXCEPT ![cap] = Append(@, Level)] /\ n' = n + 1 /\ UNCHANGED <<cfg, cap>>
NextCap == /\ n = Cur.len /\ cap < Len(cfg.caps) /\ cap' = cap + 1 /\ n' = 0
           /\ rows' = Append(rows, <<>>) /\ vals' = Append(vals, <<>>) /\ UNCHANGED cfg
Next == NextCap \/ \E c \in [1..M -> {0, 1}] : Code(c)
Spec == Init /\ [][Next]_vars
Done == cap = Len(cfg.caps) /\ n = Cur.len
\* ------------------------------------------------------------- properties
\* every capture is a sine: its energy form does not depend on where it is read
Energy(k, m) == LET v == vals[k] a == Al(cfg.caps[k].per) IN v[m] * v[m] - a * v[m] * v[m + 1] + v[m + 1] * v[m + 1]
IsSine == \A k \in 1..cap : \A m \in 1..(Len(vals[k]) - 1) : Energy(k, m) = Energy(k, 1)
IsPeriodic == \A k \in 1..cap : \A m \in 1..Len(vals[k]) : m + cfg.caps[k].per <= Len(vals[k]) => vals[k][m] = vals[k][m + cfg.caps[k].per]
\* the true weights reproduce the input exactly
WeightsExact == \A k \in 1..cap : \A m \in 1..Len(rows[k]) : Sum(rows[k][m]) - cfg.caps[k].dc = vals[k][m]
EmitDone == Done => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE -1, cfg |-> IF Mode = "file" THEN <<>> ELSE cfg, rows |-> rows, vals |-> vals, energy |-> [k \in 1..cap |-> Energy(k, 1)]])
=============================================================================
