----------------------------- MODULE CapLadder -----------------------------
(* Charge redistribution in a ladder of capacitor nodes, LSB first.           *)
(* Node i: bit capacitor cd[i], parasitic cp[i]; cb[i] links node i to i+1    *)
(* (0 = wire).  One step reduces one node, as the implementation does; the    *)
(* invariants restate the result as Kirchhoff's law on the whole network.     *)
EXTENDS Common
CONSTANTS Mode, MaxN, MaxC

VARIABLES cfg, i, load, w
vars == <<cfg, i, load, w>>

Trip == [cd : 0..MaxC, cb : 0..MaxC, cp : 0..1]
RECURSIVE Ladders(_)
Ladders(n) == IF n = 0 THEN {<<>>} ELSE {Append(s, t) : s \in Ladders(n - 1), t \in Trip}
Exhaustive == UNION {Ladders(n) : n \in 1..MaxN}

InitSet == IF Mode = "file" THEN {Scens[k].l : k \in 1..Len(Scens)} ELSE Exhaustive

Init == cfg \in InitSet /\ i = 1 /\ load = R(0) /\ w = <<>>

Reduce ==
  /\ i <= Len(cfg)
  /\ LET node == RAdd(R(cfg[i].cd + cfg[i].cp), load)
         cb == R(cfg[i].cb)
     IN IF node[1] = 0
        THEN w' = Append(w, R(0)) /\ UNCHANGED load
        ELSE /\ w' = Append([k \in 1..Len(w) |-> RMul(w[k], RDiv(load, node))], RDiv(R(cfg[i].cd), node))
             /\ load' = IF cfg[i].cb > 0 THEN RDiv(RMul(cb, node), RAdd(cb, node)) ELSE node
  /\ i' = i + 1
  /\ UNCHANGED cfg
Next == Reduce
Spec == Init /\ [][Next]_vars
Done == i > Len(cfg)
n == Len(cfg)

\* ---------------------------------------------------------------- properties
NonNegative == \A k \in 1..Len(w) : w[k][1] >= 0
SumAtMostOne == RLe(RSumSeq(w), R(1))
NoLoss == (Done /\ (\A k \in 1..n : cfg[k].cp = 0) /\ (\A k \in 1..n : cfg[k].cb = 0) /\ (\E k \in 1..n : cfg[k].cd > 0))
            => REq(RSumSeq(w), R(1))
\* Without parasitics bridges lose nothing either: driving all bits moves every node fully.
NoParasitics == (Done /\ (\A k \in 1..n : cfg[k].cp = 0) /\ (\A k \in 1..n : cfg[k].cd > 0)) => REq(RSumSeq(w), R(1))
Plain == (Done /\ \A k \in 1..n : cfg[k].cb = 0) =>
           LET tot == SumSeq([k \in 1..n |-> cfg[k].cd + cfg[k].cp])
           IN tot > 0 => (\A k \in 1..n : REq(w[k], Q(cfg[k].cd, tot))) /\ REq(load, R(tot))
\* Kirchhoff: with bit k stepped by 1, walk down from the output voltage and the charge balance
\* at every node, the LSB node included, must close.
Net(k, m, v) == RSub(RMul(R(cfg[m].cd + cfg[m].cp), v), IF m = k THEN R(cfg[m].cd) ELSE R(0))
RECURSIVE Flow(_, _, _, _)
\* v: voltage of node m; inflow: charge taken from node m by node m+1; result: imbalance at node 1
Flow(k, m, v, inflow) ==
  LET need == RAdd(Net(k, m, v), inflow)          \* must be supplied by node m-1
  IN IF m = 1 THEN need
     ELSE Flow(k, m - 1, RAdd(v, RDiv(need, R(cfg[m - 1].cb))), need)
Kirchhoff == (Done /\ (\A k \in 1..n : cfg[k].cb > 0 /\ cfg[k].cd > 0)) =>
                \A k \in 1..n : REq(Flow(k, n, w[k], R(0)), R(0))

EmitDone == Done => Emit([l |-> cfg, w |-> w, total |-> load])
=============================================================================
