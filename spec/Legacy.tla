------------------------------- MODULE Legacy -------------------------------
(* Historical entry points.  Each is a present-day operation called under an old    *)
(* name, with an old option name that may or may not be accompanied by the new one,  *)
(* and an old shape of the answer.  The state is one call being resolved.            *)
EXTENDS Common
CONSTANTS Names
VARIABLES call, phase, opt, fields
vars == <<call, phase, opt, fields>>
None == -1
\* what the old name stands for: operation, option, who wins when both are given, shape
Tab == [
  spectrum  |-> [op |-> "spectrum", wins |-> "new", default |-> 5, shape |-> <<"same", "aliases">>],
  overflow  |-> [op |-> "overflow", wins |-> "new", default |-> 1, shape |-> <<"same">>],
  activity  |-> [op |-> "activity", wins |-> "none", default |-> 0, shape |-> <<"same">>],
  radix     |-> [op |-> "radix", wins |-> "none", default |-> 0, shape |-> <<"radix">>],
  calibrate |-> [op |-> "calibrate", wins |-> "new", default |-> 1, shape |-> <<"weight", "offset", "calibrated_signal", "ideal", "error", "refined_frequency">>],
  pdf       |-> [op |-> "pdf", wins |-> "none", default |-> 0, shape |-> <<"err_lsb", "mu", "sigma", "kl_divergence", "x", "pdf", "gauss_pdf">>],
  envelope  |-> [op |-> "envelope", wins |-> "none", default |-> 0, shape |-> <<"same", "aliases">>],
  decompose |-> [op |-> "decompose", wins |-> "only", default |-> 5, shape |-> <<"fundamental_signal", "harmonic_signal+noise_residual", "harmonic_signal", "noise_residual">>],
  byphase   |-> [op |-> "byphase", wins |-> "only", default |-> 100, shape |-> <<"bin_error_mean_v", "bin_error_rms_v", "phase_bin_centers_rad", "am_noise_rms_v", "pm_noise_rms_v", "error", "phase">>],
  bycode    |-> [op |-> "bycode", wins |-> "only", default |-> 100, shape |-> <<"error_mean", "error_rms", "bin_centers", "error", "input">>],
  tonsd     |-> [op |-> "tonsd", wins |-> "old", default |-> 0, shape |-> <<"same">>],
  fromnsd   |-> [op |-> "fromnsd", wins |-> "old", default |-> 0, shape |-> <<"same">>],
  sinefit   |-> [op |-> "sinefit", wins |-> "none", default |-> 0, shape |-> <<"same">>],
  perfosr   |-> [op |-> "osrsweep", wins |-> "only", default |-> 5, shape |-> <<"osr", "sndr", "sfdr", "enob">>] ]
Vals == {2, 3, 7}
Calls == {[name |-> n, old |-> o, new |-> w] : n \in Names, o \in Vals \cup {None}, w \in Vals \cup {None}}
Legal(c) == CASE Tab[c.name].wins = "none" -> c.old = None /\ c.new = None [] Tab[c.name].wins = "only" -> c.new = None [] OTHER -> TRUE
Init == call \in {c \in Calls : Legal(c)} /\ phase = "called" /\ opt = None /\ fields = <<>>
T == Tab[call.name]
Resolve == /\ phase = "called" /\ phase' = "resolved"
           /\ opt' = IF T.wins = "new" THEN IF call.new # None THEN call.new ELSE IF call.old # None THEN call.old ELSE T.default
                     ELSE IF T.wins = "old" THEN IF call.old # None THEN call.old ELSE IF call.new # None THEN call.new ELSE T.default
                     ELSE IF call.old # None THEN call.old ELSE T.default
           /\ UNCHANGED <<call, fields>>
Answer == phase = "resolved" /\ phase' = "answered" /\ fields' = T.shape /\ UNCHANGED <<call, opt>>
Next == Resolve \/ Answer
Spec == Init /\ [][Next]_vars
\* ------------------------------------------------------------- properties
\* one name alone is enough, and says the same as the other
Single == phase # "called" => (call.new = None => (opt = IF call.old = None THEN T.default ELSE call.old)) /\ (call.old = None /\ call.new # None => opt = call.new)
Agree == phase # "called" => (call.old = call.new /\ call.old # None => opt = call.old)
Shaped == phase = "answered" => fields # <<>>
EmitDone == phase = "answered" => Emit([name |-> call.name, op |-> T.op, old |-> call.old, new |-> call.new, opt |-> opt, fields |-> fields])
=============================================================================
