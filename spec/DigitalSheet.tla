---------------------------- MODULE DigitalSheet ----------------------------
(* What the drawings of a digital record carry.  The bits are gone through     *)
(* from the first to the last; every one gets its count of ones, the share of  *)
(* samples whose remainder sits at or beyond either end of its range, and its  *)
(* ratio to the bit before.  The largest and the smallest significant weight,  *)
(* and the bit furthest from half activity, are marked.  Every sample is drawn *)
(* as normal, over or under according to the bit chosen for the check.         *)
EXTENDS Common
CONSTANTS Mode, Rows, Wid, Wmax
VARIABLES cfg, pos, one, ovr, und, rad
vars == <<cfg, pos, one, ovr, und, rad>>

Distinct(w) == \A a, b \in 1 .. Len(w) : (a # b) => (Abs(w[a]) # Abs(w[b]))
Tail0(w, a) == SumSeq([t \in 1 .. (Len(w) - a + 1) |-> w[a + t - 1]])
Weights == {w \in [1 .. Wid -> (1 .. Wmax) \cup {-2}] : Distinct(w) /\ \A a \in 1 .. Wid : Tail0(w, a) # 0}
Grid == {[id |-> 0, bits |-> b, w |-> w, chk |-> k] : b \in [1 .. Rows -> [1 .. Wid -> {0, 1}]], w \in Weights, k \in 1 .. Wid}
InitSet == IF Mode = "file" THEN {Scens[j] : j \in 1 .. Len(Scens)} ELSE Grid

N == Len(cfg.bits)
M == Len(cfg.w)
Part(row, a) == SumSeq([t \in 1 .. (M - a + 1) |-> cfg.bits[row][a + t - 1] * cfg.w[a + t - 1]])
Whole(a) == Tail0(cfg.w, a)
\* the remainder over its range, against 0 and against 1
IsUnder(row, a) == IF Whole(a) > 0 THEN Part(row, a) <= 0 ELSE Part(row, a) >= 0
IsOver(row, a) == IF Whole(a) > 0 THEN Part(row, a) >= Whole(a) ELSE Part(row, a) <= Whole(a)

Init == cfg \in InitSet /\ pos = 1 /\ one = <<>> /\ ovr = <<>> /\ und = <<>> /\ rad = <<>>
Next == /\ pos <= M
        /\ one' = Append(one, Cardinality({x \in 1 .. N : cfg.bits[x][pos] = 1}))
        /\ und' = Append(und, Cardinality({x \in 1 .. N : IsUnder(x, pos)}))
        /\ ovr' = Append(ovr, Cardinality({x \in 1 .. N : IsOver(x, pos)}))
        /\ rad' = IF pos = 1 THEN <<>> ELSE Append(rad, <<Abs(cfg.w[pos - 1]), Abs(cfg.w[pos])>>)
        /\ pos' = pos + 1
        /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Done == pos > M

Order(a) == Cardinality({b \in 1 .. M : Abs(cfg.w[b]) > Abs(cfg.w[a])}) + 1
At(o) == CHOOSE a \in 1 .. M : Order(a) = o
Breaks == {o \in 1 .. (M - 1) : Abs(cfg.w[At(o)]) >= 3 * Abs(cfg.w[At(o + 1)])}
LastSig == IF Breaks = {} THEN M ELSE CHOOSE o \in Breaks : \A q \in Breaks : o <= q
Msb == At(1)
Lsb == At(LastSig)
Off(a) == Abs(2 * one[a] - N)
\* the first of those furthest from half; equally far above and below either may be taken
Odd == {a \in 1 .. M : (\A b \in 1 .. M : Off(b) <= Off(a)) /\ \A b \in 1 .. (a - 1) : one[b] # one[a]}
SetToSeq0(S) == [t \in 1 .. Cardinality(S) |-> CHOOSE a \in S : Cardinality({b \in S : b < a}) = t - 1]
Chk == M - cfg.chk + 1
Class(x) == IF IsOver(x, Chk) THEN "over" ELSE IF IsUnder(x, Chk) THEN "under" ELSE "normal"

\* no sample is at both ends, and a remainder of only ones or only zeros is at its end
NeverBoth == \A x \in 1 .. N : ~(IsOver(x, Chk) /\ IsUnder(x, Chk))
Ends == \A x \in 1 .. N : /\ (\A a \in 1 .. M : cfg.bits[x][a] = 1) => \A a \in 1 .. M : IsOver(x, a)
                          /\ (\A a \in 1 .. M : cfg.bits[x][a] = 0) => \A a \in 1 .. M : IsUnder(x, a)
\* the last bit alone is either at one end or the other
LastBit == Done => (ovr[M] + und[M] = N /\ (ovr[M] = one[M]))
Marked == Done => /\ \A a \in 1 .. M : Abs(cfg.w[a]) <= Abs(cfg.w[Msb])
                  /\ Abs(cfg.w[Lsb]) <= Abs(cfg.w[Msb])
                  /\ \A a \in 1 .. M : (\E o \in Odd : Off(a) <= Off(o))
Positive == (\A a \in 1 .. M : cfg.w[a] > 0) => (Done => \A a \in 1 .. (M - 1) : ovr[a] <= ovr[a + 1] /\ und[a] <= und[a + 1])
EmitDone == Done => Emit([id |-> cfg.id, ones |-> one, over |-> ovr, under |-> und, radix |-> rad, msb |-> Msb, lsb |-> Lsb, odd |-> SetToSeq0(Odd),
                          cls |-> [x \in 1 .. N |-> Class(x)]])
=============================================================================
