---------------------------- MODULE SkillInstall ----------------------------
(* The destination directory of the skill installer.  Each skill's entry is one  *)
(* of the forms a directory entry can take after installs, manual edits, links    *)
(* and removals; actions are installer calls and changes made behind its back.     *)
(* After a refused call the requested skills that were absent may or may not       *)
(* have been installed already (free), nothing else may differ.                    *)
EXTENDS Common
CONSTANTS Mode, Depth
VARIABLES root, fs, hist, last
vars == <<root, fs, hist, last>>
Skills == {"user", "dev"}
CopyLike == {"edited", "touched", "missing", "extra", "funny", "emptydir"}     \* directories that differ from the bundled skill
LinkLike == {"foreign", "dangling", "cross"}                                   \* links to something else
Kinds == {"none", "copy", "link", "file"} \cup CopyLike \cup LinkLike
Requests == {[names |-> n, flag |-> "no"] : n \in {<<>>, <<"user">>, <<"dev">>, <<"user", "dev">>, <<"dev", "user">>, <<"user", "user">>, <<"dev", "dev", "user">>,
                                                  <<"bogus">>, <<"user", "bogus">>, <<"bogus", "dev">>}}
            \cup {[names |-> <<>>, flag |-> f] : f \in {"dev", "all"}}
Known(rq) == \A i \in 1..Len(rq.names) : rq.names[i] \in Skills
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>> ELSE LET r == Dedup(SubSeq(s, 1, Len(s) - 1)) x == s[Len(s)] IN IF x \in Range(r) THEN r ELSE Append(r, x)
Resolve(rq) == IF rq.flag /= "no" THEN <<"user", "dev">> ELSE IF rq.names = <<>> THEN <<"user">> ELSE Dedup(rq.names)
Want(rq) == Range(Resolve(rq))
Roots == {"absent", "dir", "linked", "nested", "home", "file", "underfile"}
NoRoot == {"absent", "nested", "file", "underfile"}         \* nothing can be in there yet
Usable == root \notin {"file", "underfile"}
Stable(r) == IF r \in {"absent", "nested"} THEN "dir" ELSE r      \* once made, it is a directory
Fresh(f, rq, ed) == [s \in Skills |-> IF s \in Want(rq) THEN (IF ed THEN "link" ELSE "copy") ELSE f[s]]
Blocked(rq) == {s \in Want(rq) : fs[s] /= "none"}
Install(rq, force, ed) ==
    LET refused == ~Known(rq) \/ ~Usable \/ (~force /\ Blocked(rq) /= {})
        made == Known(rq) /\ Usable
        \* what a call working through the request one by one has done when it is stopped
        order == Resolve(rq)
        stop == IF ~refused \/ ~made THEN 0 ELSE CHOOSE i \in 1..Len(order) : order[i] \in Blocked(rq) /\ \A j \in 1..(i - 1) : order[j] \notin Blocked(rq)
        done == IF refused THEN (IF made THEN {order[j] : j \in 1..(stop - 1)} ELSE {}) ELSE Want(rq)
    IN /\ fs' = [s \in Skills |-> IF s \in done THEN (IF ed THEN "link" ELSE "copy") ELSE fs[s]]
       /\ root' = IF made THEN Stable(root) ELSE root
       /\ last' = [act |-> "install", names |-> rq.names, flag |-> rq.flag, force |-> force, ed |-> ed, refused |-> refused,
                   free |-> IF refused /\ made THEN Want(rq) \ Blocked(rq) ELSE {}, order |-> IF refused THEN <<>> ELSE order, pre |-> fs, preroot |-> root]
ModeOf(v) == CASE v = "none" -> "missing" [] v \in {"link"} \cup LinkLike -> "editable-link" [] v = "file" -> "non-directory" [] OTHER -> "copy"
Status(rq) == /\ UNCHANGED <<root, fs>>
              /\ last' = [act |-> "status", names |-> rq.names, flag |-> rq.flag, refused |-> ~Known(rq), pre |-> fs, preroot |-> root,
                          rows |-> IF Known(rq) THEN [i \in 1..Len(Resolve(rq)) |-> LET v == fs[Resolve(rq)[i]] IN
                                   [name |-> Resolve(rq)[i], installed |-> v /= "none", mode |-> ModeOf(v), synced |-> v \in {"copy", "link"}]] ELSE <<>>]
\* changes behind the installer's back
Tamper(s, v) == /\ root \notin NoRoot /\ v /= fs[s] /\ v \notin {"copy", "link"}
                /\ fs' = [fs EXCEPT ![s] = v] /\ UNCHANGED root
                /\ last' = [act |-> "tamper", skill |-> s, to |-> v, refused |-> FALSE, pre |-> fs, preroot |-> root]
Init == /\ root \in Roots
        /\ fs \in (IF Mode = "step" /\ root \notin NoRoot THEN [Skills -> Kinds] ELSE {[s \in Skills |-> "none"]})
        /\ hist = <<>> /\ last = [act |-> "none"]
Step == \/ \E rq \in Requests, f, e \in BOOLEAN : Install(rq, f, e)
        \/ \E rq \in Requests : Status(rq)
        \/ Mode = "walk" /\ \E s \in Skills, v \in Kinds : Tamper(s, v)
Next == Len(hist) < Depth /\ Step /\ hist' = Append(hist, [do |-> last', root |-> root', fs |-> fs'])
Spec == Init /\ [][Next]_vars
\* -------------------------------------------------------------- properties
IsInstall == last.act = "install"
NoForceKeeps == (IsInstall /\ ~last.force) => \A s \in Skills : last.pre[s] /= "none" => fs[s] = last.pre[s]
OnlyRequested == IsInstall => \A s \in Skills : fs[s] /= last.pre[s] => (Known([names |-> last.names, flag |-> last.flag]) /\ s \in Want([names |-> last.names, flag |-> last.flag]))
ForceInstalls == (IsInstall /\ last.force /\ ~last.refused) => \A s \in Want([names |-> last.names, flag |-> last.flag]) : fs[s] = IF last.ed THEN "link" ELSE "copy"
UnknownWritesNothing == (IsInstall /\ ~Known([names |-> last.names, flag |-> last.flag])) => (fs = last.pre /\ root = last.preroot /\ last.refused)
StatusChangesNothing == last.act = "status" => (fs = last.pre /\ root = last.preroot)
\* once installed, the status says so
SyncedIff == (last.act = "status" /\ ~last.refused) => \A i \in 1..Len(last.rows) :
    last.rows[i].synced = (fs[last.rows[i].name] = IF last.rows[i].mode = "copy" THEN "copy" ELSE "link")
EmitDone == Len(hist) = Depth => Emit([start |-> IF Depth = 1 THEN last.pre ELSE [s \in Skills |-> "none"], root0 |-> hist[1].do.preroot, hist |-> hist])
=============================================================================
