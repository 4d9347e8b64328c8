------------------------------- MODULE Refine -------------------------------
(* Iterative refinement with a budget and a tolerance: steps are taken one by    *)
(* one, each with its own size, until a step is smaller than the tolerance or    *)
(* the budget is used up. No budget means nothing to do, which counts as done.   *)
EXTENDS Common
CONSTANTS Mode, MaxLen, MaxSize
VARIABLES cfg, taken, done, over
vars == <<cfg, taken, done, over>>
Ex == UNION {{[sizes |-> s, tol |-> t, budget |-> b] : s \in [1..k -> 0..MaxSize], t \in 0..(MaxSize + 1), b \in 0..k} : k \in 0..MaxLen}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Ex
Init == cfg \in InitSet /\ taken = 0 /\ done = (cfg.budget = 0) /\ over = (cfg.budget = 0)
Step == /\ ~over
        /\ taken' = taken + 1
        /\ done' = (cfg.sizes[taken + 1] < cfg.tol)
        /\ over' = (done' \/ taken' = cfg.budget)
        /\ UNCHANGED cfg
Next == Step
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Terminates == <>over
WithinBudget == taken <= cfg.budget
\* Every step but the last one was worth taking, and the verdict is about the last one.
FirstSmall == \A i \in 1..taken : (i < taken) => cfg.sizes[i] >= cfg.tol
Verdict == over => (done <=> (cfg.budget = 0 \/ cfg.sizes[taken] < cfg.tol))
\* A larger budget never changes the outcome of a refinement that has settled.
Settled == (over /\ done /\ cfg.budget > 0) => taken = CHOOSE i \in 1..cfg.budget : cfg.sizes[i] < cfg.tol /\ \A j \in 1..(i - 1) : cfg.sizes[j] >= cfg.tol
EmitDone == over => Emit([c |-> cfg, n |-> taken, done |-> done, warn |-> ~done])
=============================================================================
