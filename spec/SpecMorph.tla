----------------------------- MODULE SpecMorph -----------------------------
(* Histories of transformations of a set of captures that carry no            *)
(* information about the converter, acting on integer records.  The circular   *)
(* autocorrelation of the mean-free record determines its power spectrum (they  *)
(* are a transform pair), so "relative metrics unchanged" is: the summed        *)
(* autocorrelation keeps its shape, and absolute levels follow its scale.       *)
EXTENDS Common
CONSTANTS Mode, Depth
VARIABLES recs, ref, fs, lvl, autoOk, word, todo, base
vars == <<recs, ref, fs, lvl, autoOk, word, todo, base>>

N(rr) == Len(rr[1])
Op(o, i, v) == [op |-> o, i |-> i, v |-> v]
Ops(rr) == {Op("scale", 0, -1), Op("scale", 0, 2), Op("scale", 0, -3), Op("offset", 0, 5), Op("shift", 0, 1), Op("shift", 0, 3),
            Op("reverse", 0, 0), Op("relabel", 0, 10), Op("stack", 0, 2), Op("permute", 0, 0), Op("refscale", 0, 2),
            Op("layout", 0, 0), Op("offsetrun", 1, 7), Op("shiftrun", Len(rr), 2), Op("type", 0, 0)}
Roots == {<< <<1, -2, 0, 2>> >>, << <<2, 1, 0, -1, 1>> >>, << <<1, 0, -1, 2>>, <<0, 2, -1, 1>> >>}
Inits == IF Mode = "file" THEN {<<Scens[k].recs, Scens[k].todo>> : k \in 1..Len(Scens)} ELSE {<<x, <<>> >> : x \in Roots}

Centre(x) == LET s == SumSeq(x) n == Len(x) IN [i \in 1..n |-> n * x[i] - s]
At(x, i) == x[((i - 1) % Len(x)) + 1]
Auto(x) == LET y == Centre(x) n == Len(x) IN [k \in 1..n |-> SumSeq([i \in 1..n |-> y[i] * At(y, i + k - 1)])]
Corr(rr) == LET a == [r \in DOMAIN rr |-> Auto(rr[r])] IN [k \in 1..N(rr) |-> SumSeq([r \in DOMAIN rr |-> a[r][k]])]
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : y >= x
Span(rr) == LET S == UNION {Range(rr[r]) : r \in DOMAIN rr} IN MaxOf(S) - MinOf(S)

Rot(x, s) == [i \in 1..Len(x) |-> At(x, i - s)]
Apply(rr, o) ==
   CASE o.op = "scale" -> [r \in DOMAIN rr |-> [i \in DOMAIN rr[r] |-> o.v * rr[r][i]]]
     [] o.op = "offset" -> [r \in DOMAIN rr |-> [i \in DOMAIN rr[r] |-> rr[r][i] + o.v]]
     [] o.op = "offsetrun" -> [rr EXCEPT ![o.i] = [i \in DOMAIN rr[o.i] |-> rr[o.i][i] + o.v]]
     [] o.op = "shift" -> [r \in DOMAIN rr |-> Rot(rr[r], o.v)]
     [] o.op = "shiftrun" -> [rr EXCEPT ![o.i] = Rot(rr[o.i], o.v)]
     [] o.op = "reverse" -> [r \in DOMAIN rr |-> [i \in DOMAIN rr[r] |-> rr[r][Len(rr[r]) + 1 - i]]]
     [] o.op = "stack" -> [r \in 1..(o.v * Len(rr)) |-> rr[((r - 1) % Len(rr)) + 1]]
     [] o.op = "permute" -> [r \in DOMAIN rr |-> rr[IF r = Len(rr) THEN 1 ELSE r + 1]]
     [] OTHER -> rr

Init == \E x \in Inits :
   /\ recs = x[1] /\ todo = x[2] /\ ref = 1 /\ fs = 1 /\ lvl = <<1, 1>> /\ autoOk = TRUE /\ word = <<>>
   /\ base = [c |-> Corr(x[1]), m |-> Len(x[1]), span |-> Span(x[1])]
Do(o) == /\ recs' = Apply(recs, o) /\ word' = Append(word, o)
         /\ ref' = IF o.op = "refscale" THEN ref * o.v ELSE ref
         /\ fs' = IF o.op = "relabel" THEN fs * o.v ELSE fs
         /\ lvl' = CASE o.op = "scale" -> RMul(lvl, R(o.v * o.v)) [] o.op = "refscale" -> RDiv(lvl, R(o.v * o.v)) [] OTHER -> lvl
         /\ autoOk' = (autoOk /\ ~(o.op = "offsetrun" /\ Len(recs) > 1))
         /\ UNCHANGED base
Step == IF Mode = "file" THEN /\ todo # <<>> /\ Do(Head(todo)) /\ todo' = Tail(todo)
        ELSE /\ Len(word) < Depth /\ \E o \in Ops(recs) : Do(o) /\ UNCHANGED todo
             /\ Len(recs') <= 6
Next == Step
Spec == Init /\ [][Next]_vars

Cur == Corr(recs)
ShapeKept == \A k \in 1..N(recs) : Cur[k] * base.c[1] = base.c[k] * Cur[1]
LevelFollows == \A k \in 1..N(recs) : Cur[k] * base.m * lvl[2] = base.c[k] * lvl[1] * ref * ref * Len(recs)
AutoLevelKept == autoOk => \A k \in 1..N(recs) : Cur[k] * base.m * base.span * base.span = base.c[k] * Len(recs) * Span(recs) * Span(recs)
EmitAll == (word # <<>> /\ (Mode = "ex" \/ todo = <<>>)) =>
   Emit([word |-> word, m0 |-> base.m, m |-> Len(recs), fs |-> fs, ref |-> ref, lvl |-> lvl, auto |-> autoOk])
=============================================================================
