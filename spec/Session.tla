------------------------------ MODULE Session -------------------------------
(* A user's session with the library.  The user owns arrays (edited in place now   *)
(* and then), figures, and the global random generator; the library owns nothing.  *)
(* Every answer is therefore a function of a token: the operation, the current     *)
(* contents of the arrays, and - for operations that draw noise - the draws made    *)
(* from the global generator since it was last seeded.  Whether a plot is drawn     *)
(* is not part of the token.                                                        *)
EXTENDS Common
CONSTANTS Mode, Pure, Noisy, MaxLen, Seeds
VARIABLES cfg, ver, rand, figs, hist, toks
vars == <<cfg, ver, rand, figs, hist, toks>>
\* rand: <<seed, draws>>, the draws being the names of what consumed the generator
InitSet == IF Mode = "file" THEN {Scens[k] : k \in 1..Len(Scens)} ELSE {[id |-> -1]}
Init == cfg \in InitSet /\ ver = 0 /\ rand = [seed |-> 0, log |-> <<>>] /\ figs = 0 /\ hist = <<>> /\ toks = {}
Room == Len(hist) < MaxLen
Ev(e) == hist' = Append(hist, e)
Token(o, noisy) == [op |-> o, ver |-> ver, seed |-> IF noisy THEN rand.seed ELSE -1, log |-> IF noisy THEN rand.log ELSE <<>>]
Analyse(o, plot) == /\ Room /\ LET t == Token(o, FALSE) IN Ev([kind |-> "call", op |-> o, plot |-> plot, tok |-> t, figs |-> figs]) /\ toks' = toks \cup {t}
                    /\ UNCHANGED <<cfg, ver, rand, figs>>
Generate(o) == /\ Room /\ LET t == Token(o, TRUE) IN Ev([kind |-> "noisy", op |-> o, plot |-> 0, tok |-> t, figs |-> figs]) /\ toks' = toks \cup {t}
               /\ rand' = [rand EXCEPT !.log = Append(@, o)] /\ UNCHANGED <<cfg, ver, figs>>
UserDraws == Room /\ rand' = [rand EXCEPT !.log = Append(@, 0)] /\ Ev([kind |-> "draw", op |-> 0, plot |-> 0, tok |-> Token(0, TRUE), figs |-> figs])
             /\ toks' = toks \cup {Token(0, TRUE)} /\ UNCHANGED <<cfg, ver, figs>>
UserSeeds(s) == Room /\ rand' = [seed |-> s, log |-> <<>>] /\ Ev([kind |-> "seed", op |-> s, plot |-> 0, tok |-> Token(0, FALSE), figs |-> figs]) /\ UNCHANGED <<cfg, ver, figs, toks>>
UserEdits == Room /\ ver' = 1 - ver /\ Ev([kind |-> "edit", op |-> 0, plot |-> 0, tok |-> Token(0, FALSE), figs |-> figs]) /\ UNCHANGED <<cfg, rand, figs, toks>>
UserScribbles == /\ Room /\ hist # <<>> /\ hist[Len(hist)].kind = "call" /\ Ev([kind |-> "scribble", op |-> 0, plot |-> 0, tok |-> Token(0, FALSE), figs |-> figs])
                 /\ UNCHANGED <<cfg, ver, rand, figs, toks>>
UserFigure == Room /\ figs < 2 /\ figs' = figs + 1 /\ Ev([kind |-> "figure", op |-> 0, plot |-> 0, tok |-> Token(0, FALSE), figs |-> figs + 1]) /\ UNCHANGED <<cfg, ver, rand, toks>>
Next == \/ \E o \in Pure, p \in {0, 1} : Analyse(o, p)
        \/ \E o \in Noisy : Generate(o)
        \/ UserDraws \/ (\E s \in Seeds : UserSeeds(s)) \/ UserEdits \/ UserScribbles \/ UserFigure
Spec == Init /\ [][Next]_vars
Done == Len(hist) = MaxLen
\* ------------------------------------------------------------- properties
Calls == {k \in 1..Len(hist) : hist[k].kind = "call"}
\* plotting, order, repetition, figures and the generator do not enter an analysis token
TokenOf(k) == [op |-> hist[k].op, ver |-> Cardinality({m \in 1..(k - 1) : hist[m].kind = "edit"}) % 2, seed |-> -1, log |-> <<>>]
AnalysesPure == \A k \in Calls : hist[k].tok = TokenOf(k)
\* only the user and the noise sources move the generator
LastSeed(k) == {m \in 1..(k - 1) : hist[m].kind = "seed"}
Drawn(k) == LET s == LastSeed(k) lo == IF s = {} THEN 1 ELSE (CHOOSE m \in s : \A o \in s : m >= o) + 1
            IN SelectSeq(SubSeq(hist, lo, k - 1), LAMBDA e : e.kind \in {"noisy", "draw"})
NoiseReproducible == \A k \in 1..Len(hist) : hist[k].kind \in {"noisy", "draw"} =>
    Len(hist[k].tok.log) = Len(Drawn(k)) /\ \A m \in 1..Len(Drawn(k)) : hist[k].tok.log[m] = Drawn(k)[m].op
FiguresAreUsers == \A k \in 1..Len(hist) : hist[k].figs = Cardinality({m \in 1..k : hist[m].kind = "figure"})
EmitDone == Done => Emit([hist |-> hist])
=============================================================================
