------------------------------ MODULE Validate ------------------------------
(* Verdict of the record validation.  A record is filled element by element; the *)
(* verdict is a function of what has been seen (extremes, offending values, ones   *)
(* per column), its shape and its kind.                                             *)
EXTENDS Common
CONSTANTS Mode
VARIABLES cfg, n, lo, hi, nan, inf, odd, ones, seen
vars == <<cfg, n, lo, hi, nan, inf, odd, ones, seen>>
NaN == 99
PInf == 98
NInf == 97
\* shape <<>> stands for a scalar, <<n>> for a vector, <<r, c>> for a matrix, longer for more dimensions
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(SubSeq(s, 2, Len(s)))
Size == Prod(cfg.shape)
Grid == [kind : {"aout"}, type : {"real"}, shape : {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>, <<1, 3>>, <<3, 1>>, <<2, 2>>, <<0, 2>>, <<2, 0>>, <<1, 1, 2>>, <<>>}, min : {0, 2, 3}, unit : {0, 12}]
        \cup [kind : {"aout", "dout"}, type : {"complex", "text", "object"}, shape : {<<2>>, <<2, 1>>, <<1, 2>>}, min : {1}, unit : {0}]
        \cup [kind : {"dout"}, type : {"real"}, shape : {<<0>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>, <<4, 1>>, <<1, 4>>, <<0, 3>>, <<3, 0>>, <<1, 2, 1>>, <<>>}, min : {0, 1, 2, 3}, unit : {0}]
Half == 96                      \* of a digital record: neither 0 nor 1
Alphabet == IF cfg.kind = "aout" THEN {-1, 0, 2, NaN, PInf, NInf} ELSE {0, 1, 2, -1, Half, NaN, PInf}
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE Grid
Cols == IF Len(cfg.shape) = 2 THEN cfg.shape[2] ELSE 1
Init == cfg \in InitSet /\ n = 0 /\ lo = 0 /\ hi = 0 /\ nan = FALSE /\ inf = FALSE /\ odd = FALSE /\ seen = <<>>
        /\ ones = [c \in 1..(IF Len(cfg.shape) = 2 THEN cfg.shape[2] ELSE 1) |-> 0]
Finite(v) == v \notin {NaN, PInf, NInf}
Put(v) == /\ n' = n + 1 /\ UNCHANGED cfg
          /\ seen' = IF Mode = "file" THEN seen ELSE Append(seen, v)
          /\ nan' = (nan \/ v = NaN) /\ inf' = (inf \/ v \in {PInf, NInf}) /\ odd' = (odd \/ v \notin {0, 1})
          /\ lo' = IF ~Finite(v) THEN lo ELSE IF n = 0 THEN v ELSE Min2(lo, v)
          /\ hi' = IF ~Finite(v) THEN hi ELSE IF n = 0 THEN v ELSE Max2(hi, v)
          /\ ones' = IF v = 1 THEN [ones EXCEPT ![(n % Cols) + 1] = @ + 1] ELSE ones
Next == n < Size /\ IF Mode = "file" THEN Put(cfg.x[n + 1]) ELSE \E v \in Alphabet : Put(v)
Spec == Init /\ [][Next]_vars
Full == n = Size
\* ----------------------------------------------------------------- verdict
Samples == IF Len(cfg.shape) = 0 THEN 0 ELSE IF Len(cfg.shape) = 1 THEN cfg.shape[1] ELSE Max2(cfg.shape[1], cfg.shape[2])
Unsound == Size = 0 \/ cfg.type /= "real" \/ nan \/ inf
Reject == IF cfg.kind = "aout"
          THEN Unsound \/ Len(cfg.shape) > 2 \/ Len(cfg.shape) = 0 \/ Samples < cfg.min \/ lo = hi
          ELSE Unsound \/ Len(cfg.shape) /= 2 \/ cfg.shape[1] < cfg.min \/ odd
\* span in units of 10^-unit; suspicious below 1e-10
Faint == (cfg.unit = 12 /\ hi - lo < 100) \/ (cfg.unit = 13 /\ hi - lo < 1000)
Warns == IF Reject THEN {}
         ELSE IF cfg.kind = "aout" THEN (IF Faint THEN {"faint"} ELSE {})
         ELSE (IF cfg.shape[2] > cfg.shape[1] THEN {"transposed"} ELSE {})
              \cup (IF \E c \in 1..Cols : ones[c] = 0 THEN {"low"} ELSE {}) \cup (IF \E c \in 1..Cols : ones[c] = cfg.shape[1] THEN {"high"} ELSE {})
\* -------------------------------------------------------------- properties
\* the verdict could equally be reached by looking at the whole record at once
WholeRecord == (Full /\ Mode /= "file" /\ n > 0) =>
    /\ nan = (NaN \in Range(seen)) /\ inf = (Range(seen) \cap {PInf, NInf} /= {})
    /\ (~nan /\ ~inf) => (lo = CHOOSE a \in Range(seen) : \A b \in Range(seen) : a <= b)
    /\ (~nan /\ ~inf) => (hi = CHOOSE a \in Range(seen) : \A b \in Range(seen) : a >= b)
    /\ odd = (Range(seen) \ {0, 1} /= {})
OneOffenderSuffices == (Full /\ (nan \/ inf)) => Reject
AcceptedVaries == (Full /\ cfg.kind = "aout" /\ ~Reject) => lo < hi
StuckIsLegal == (Full /\ cfg.kind = "dout" /\ ~Reject) => ("low" \in Warns \/ \A c \in 1..Cols : ones[c] > 0)
EmitDone == Full => Emit([id |-> IF Mode = "file" THEN cfg.id ELSE -1, cfg |-> IF Mode = "file" THEN <<>> ELSE cfg, x |-> seen, reject |-> Reject, warns |-> Warns])
=============================================================================
