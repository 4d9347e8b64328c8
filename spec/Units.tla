------------------------------- MODULE Units --------------------------------
(* Unit conversions as exact maps on logarithmic coordinates.  A positive      *)
(* quantity is 2^a 3^b 5^c 7^d 23^e pi^f; the state holds the doubled exponents *)
(* so that square roots stay exact.  A level in dB is held as the power ratio    *)
(* it stands for.  The machine walks along conversions; a behaviour is a chain   *)
(* of calls.  Whatever the path, a quantity of a given kind has one value.       *)
EXTENDS Common
CONSTANTS Mode, Span, Depth
VARIABLES cfg, kind, val, path, seen
vars == <<cfg, kind, val, path, seen>>
D == 6
VAdd(a, b) == [i \in 1..D |-> a[i] + b[i]]
VSub(a, b) == [i \in 1..D |-> a[i] - b[i]]
VDbl(a) == [i \in 1..D |-> 2 * a[i]]
VHalf(a) == [i \in 1..D |-> a[i] \div 2]
Two(n) == <<2 * n, 0, 0, 0, 0, 0>>
Ten(n) == <<2 * n, 0, 2 * n, 0, 0, 0>>
One == <<0, 0, 0, 0, 0, 0>>

\* Parameters (all vectors except bits): z load, fs, n (points), vref, osr, sig (level), bits.
Par0 == [z |-> <<2, 0, 4, 0, 0, 0>>, fs |-> Ten(6), n |-> Two(10), vref |-> One, osr |-> Two(3), sig |-> Two(-1), bits |-> 10]
Grid == {[kind |-> k, v |-> <<2 * a, 0, 2 * b, 0, 0, 0>>, par |-> Par0] :
          k \in {"mag", "pow", "mw", "vrms", "lsb", "bin"}, a \in (-Span)..Span, b \in (-Span)..Span}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
P == cfg.par
Bw == VSub(P.fs, VAdd(Two(1), P.osr))
\* <<from, to, function, map>>; every map is invertible.
Conv(f, v) ==
  CASE f = "mag_to_db"    -> VDbl(v)
    [] f = "db_to_mag"    -> VHalf(v)
    [] f = "power_to_db"  -> v
    [] f = "db_to_power"  -> v
    [] f = "mw_to_dbm"    -> v
    [] f = "dbm_to_mw"    -> v
    [] f = "dbm_to_vrms"  -> VHalf(VAdd(VSub(v, Ten(3)), P.z))
    [] f = "vrms_to_dbm"  -> VAdd(VSub(VDbl(v), P.z), Ten(3))
    [] f = "lsb_to_volts" -> VSub(VAdd(v, P.vref), Two(P.bits))
    [] f = "volts_to_lsb" -> VAdd(VSub(v, P.vref), Two(P.bits))
    [] f = "bin_to_freq"  -> VSub(VAdd(v, P.fs), P.n)
    [] f = "freq_to_bin"  -> VAdd(VSub(v, P.fs), P.n)
    [] f = "snr_to_enob"  -> v
    [] f = "enob_to_snr"  -> v
    [] f = "snr_to_nsd"   -> VSub(VSub(P.sig, v), Bw)
    [] f = "nsd_to_snr"   -> VSub(VSub(P.sig, v), Bw)
    [] f = "u_snr_to_nsd" -> VSub(VSub(P.sig, v), Bw)
    [] f = "u_nsd_to_snr" -> VSub(VSub(P.sig, v), Bw)
Edges == {<<"mag", "db", "mag_to_db">>, <<"db", "mag", "db_to_mag">>, <<"pow", "db", "power_to_db">>, <<"db", "pow", "db_to_power">>,
          <<"mw", "dbm", "mw_to_dbm">>, <<"dbm", "mw", "dbm_to_mw">>, <<"dbm", "vrms", "dbm_to_vrms">>, <<"vrms", "dbm", "vrms_to_dbm">>,
          <<"lsb", "volts", "lsb_to_volts">>, <<"volts", "lsb", "volts_to_lsb">>,
          <<"bin", "freq", "bin_to_freq">>, <<"freq", "bin", "freq_to_bin">>,
          <<"db", "enob", "snr_to_enob">>, <<"enob", "db", "enob_to_snr">>,
          <<"db", "nsd", "snr_to_nsd">>, <<"nsd", "db", "nsd_to_snr">>,
          <<"db", "nsd", "u_snr_to_nsd">>, <<"nsd", "db", "u_nsd_to_snr">>}
\* Halving must stay exact in the model (the implementation has no such limit).
Even(v) == \A i \in 1..D : v[i] % 2 = 0
CanApply(f, v) == CASE f = "db_to_mag" -> Even(v)
                 [] f = "dbm_to_vrms" -> Even(VAdd(VSub(v, Ten(3)), P.z))
                 [] OTHER -> TRUE
Init == cfg \in InitSet /\ kind = cfg.kind /\ val = cfg.v /\ path = <<>> /\ seen = [k \in {cfg.kind} |-> cfg.v]
Go(e) == /\ e[1] = kind /\ CanApply(e[3], val)
         /\ kind' = e[2] /\ val' = Conv(e[3], val) /\ path' = Append(path, e[3])
         /\ seen' = [k \in DOMAIN seen \union {e[2]} |-> IF k \in DOMAIN seen THEN seen[k] ELSE val']
         /\ UNCHANGED cfg
Next == Len(path) < Depth /\ \E e \in Edges : Go(e)
Spec == Init /\ [][Next]_vars
PathIndependent == seen[kind] = val
EmitPath == (path # <<>>) => Emit([t |-> "path", kind |-> cfg.kind, v |-> cfg.v, par |-> cfg.par, path |-> path, out |-> kind, val |-> val])
=============================================================================
