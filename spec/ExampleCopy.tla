---------------------------- MODULE ExampleCopy -----------------------------
(* Copying the shipped examples into a workspace.  Destination names denote       *)
(* entries of the workspace (or of an absolute or nested path); actions are the    *)
(* copy command and what a user does in between.                                    *)
EXTENDS Common
CONSTANTS Mode, Depth
VARIABLES fs, ok, hist, last
vars == <<fs, ok, hist, last>>
Names == {"default", "named", "nested", "absolute"}
Present == {"copy", "edited", "emptydir", "otherdir", "file", "link", "dangling", "linktocopy"}
Kinds == {"none"} \cup Present
\* ok = FALSE: one of the shipped files cannot be read
Copy(d) == /\ UNCHANGED ok
           /\ IF fs[d] /= "none" THEN /\ UNCHANGED fs /\ last' = [act |-> "copy", d |-> d, success |-> FALSE, exact |-> TRUE, pre |-> fs]
              ELSE IF ok THEN /\ fs' = [fs EXCEPT ![d] = "copy"] /\ last' = [act |-> "copy", d |-> d, success |-> TRUE, exact |-> TRUE, pre |-> fs]
              \* what is left of a failed copy is not specified, except that it is not reported as a success
              ELSE /\ fs' = [fs EXCEPT ![d] = "partial"] /\ last' = [act |-> "copy", d |-> d, success |-> FALSE, exact |-> FALSE, pre |-> fs]
Change(d, v) == /\ v /= fs[d] /\ v /= "copy" /\ (v = "edited" => fs[d] = "copy") /\ UNCHANGED ok
                /\ fs' = [fs EXCEPT ![d] = v] /\ last' = [act |-> "change", d |-> d, to |-> v, success |-> TRUE, exact |-> TRUE, pre |-> fs]
Fault == /\ Mode = "walk" /\ ok' = ~ok /\ UNCHANGED fs /\ last' = [act |-> "fault", on |-> ok, d |-> "", success |-> TRUE, exact |-> TRUE, pre |-> fs]
Init == /\ fs \in (IF Mode = "step" THEN {f \in [Names -> Kinds] : \A d \in Names : f[d] /= "none" => \A x \in Names \ {d} : f[x] \in {"none", f[d]}}
                   ELSE {[d \in Names |-> "none"]})
        /\ ok \in (IF Mode = "step" THEN BOOLEAN ELSE {TRUE}) /\ hist = <<>> /\ last = [act |-> "none"]
Step == (\E d \in Names : Copy(d)) \/ (Mode = "walk" /\ \E d \in Names, v \in Kinds : Change(d, v)) \/ Fault
Next == Len(hist) < Depth /\ Step /\ hist' = Append(hist, [do |-> last', fs |-> fs', ok |-> ok'])
Spec == Init /\ [][Next]_vars
\* -------------------------------------------------------------- properties
IsCopy == last.act = "copy"
NeverOverwrites == IsCopy => \A d \in Names : last.pre[d] /= "none" => fs[d] = last.pre[d]
OnlyDestination == IsCopy => \A d \in Names \ {last.d} : fs[d] = last.pre[d]
SuccessMeansComplete == (IsCopy /\ last.success) => (fs[last.d] = "copy" /\ last.pre[last.d] = "none")
SecondRefused == (IsCopy /\ last.pre[last.d] \in {"copy", "edited"}) => ~last.success
EmitDone == Len(hist) = Depth => Emit([start |-> IF Depth = 1 THEN last.pre ELSE [d \in Names |-> "none"], ok0 |-> IF Depth = 1 THEN ok ELSE TRUE, hist |-> hist])
=============================================================================
