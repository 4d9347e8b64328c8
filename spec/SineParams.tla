----------------------------- MODULE SineParams ----------------------------
(* What happens to the parameters of sampled sines under scaling, offset,       *)
(* later start, time reversal and stacking of columns.  A column is              *)
(*    x[n] = C + A cos(2 pi (m n + p) / K),  n = 0..N-1                           *)
(* with integers A > 0, C, p (mod K) and frequency m/K of the sampling rate.     *)
(* The samples are kept too (as <<A, argument mod K, C>>) and must always be      *)
(* those of the parameters: a fit that inverts sampling must return them.         *)
EXTENDS Common
CONSTANTS Mode, K, Depth
VARIABLES N, cols, samples, todo, word
vars == <<N, cols, samples, todo, word>>
Modk(x) == ((x % K) + K) % K
Sample(c, n) == <<c.A, Modk(c.m * n + c.p), c.C>>
Take(c, len) == [n \in 1..len |-> Sample(c, n - 1)]
\* two descriptions of a sample value C + A cos(2 pi q / K), the cosine being even
SameVal(u, v) == u[1] = v[1] /\ u[3] = v[3] /\ (u[2] = v[2] \/ u[2] = Modk(-v[2]))
Op(o, v) == [op |-> o, v |-> v]
Ops == {Op("scale", 3), Op("scale", -1), Op("scale", -2), Op("offset", 5), Op("later", 1), Op("later", 7), Op("reverse", 0), Op("stack", 0), Op("crop", 2)}
Roots == {[N |-> 9, col |-> [m |-> m, A |-> A, p |-> p, C |-> C]] : m \in {1, K \div 3, K \div 2 - 1}, A \in {1, 4}, p \in {0, 1, K - 2}, C \in {0, -3}}
Init == IF Mode = "file" THEN \E k \in 1..Len(Scens) : N = Scens[k].N /\ cols = <<Scens[k].col>> /\ todo = Scens[k].todo /\ word = <<>>
                                  /\ samples = <<Take(Scens[k].col, Scens[k].N)>>
        ELSE \E x \in Roots : N = x.N /\ cols = <<x.col>> /\ todo = <<>> /\ word = <<>> /\ samples = <<Take(x.col, x.N)>>
ScaleCol(c, g) == [c EXCEPT !.A = Abs(g) * @, !.C = g * @, !.p = IF g < 0 THEN Modk(@ + K \div 2) ELSE @]
ScaleSmp(u, g) == <<Abs(g) * u[1], IF g < 0 THEN Modk(u[2] + K \div 2) ELSE u[2], g * u[3]>>
Map(f(_)) == [i \in DOMAIN cols |-> f(cols[i])]
Do(o) ==
  /\ word' = Append(word, o)
  /\ N' = IF o.op = "crop" THEN N - o.v ELSE N
  /\ cols' = CASE o.op = "scale" -> Map(LAMBDA c : ScaleCol(c, o.v))
               [] o.op = "offset" -> Map(LAMBDA c : [c EXCEPT !.C = @ + o.v])
               [] o.op = "later" -> Map(LAMBDA c : [c EXCEPT !.p = Modk(@ + c.m * o.v)])
               [] o.op = "reverse" -> Map(LAMBDA c : [c EXCEPT !.p = Modk(-(c.p + c.m * (N - 1)))])
               [] o.op = "stack" -> Append(cols, ScaleCol([cols[1] EXCEPT !.p = Modk(@ + K \div 2)], 3))
               [] OTHER -> cols
  /\ samples' = CASE o.op = "scale" -> [i \in DOMAIN cols |-> [n \in 1..N |-> ScaleSmp(samples[i][n], o.v)]]
               [] o.op = "offset" -> [i \in DOMAIN cols |-> [n \in 1..N |-> <<samples[i][n][1], samples[i][n][2], samples[i][n][3] + o.v>>]]
               [] o.op = "later" -> [i \in DOMAIN cols |-> [n \in 1..N |-> Sample(cols[i], n - 1 + o.v)]]
               [] o.op = "reverse" -> [i \in DOMAIN cols |-> [n \in 1..N |-> samples[i][N + 1 - n]]]
               [] o.op = "stack" -> Append(samples, [n \in 1..N |-> ScaleSmp(<<samples[1][n][1], Modk(samples[1][n][2] + K \div 2), samples[1][n][3]>>, 3)])
               [] o.op = "crop" -> [i \in DOMAIN cols |-> [n \in 1..(N - o.v) |-> samples[i][n]]]
               [] OTHER -> samples
Step == IF Mode = "file" THEN todo # <<>> /\ Do(Head(todo)) /\ todo' = Tail(todo)
        ELSE Len(word) < Depth /\ \E o \in Ops : (o.op = "stack" => Len(cols) < 3) /\ Do(o) /\ UNCHANGED todo
Next == Step
Spec == Init /\ [][Next]_vars
\* Sampling the tracked parameters gives the transformed samples.
Covariant == \A i \in DOMAIN cols : \A n \in 1..N : SameVal(samples[i][n], Sample(cols[i], n - 1))
EmitAll == (Mode = "ex" \/ todo = <<>>) => Emit([N |-> N, cols |-> cols, word |-> word])
=============================================================================
