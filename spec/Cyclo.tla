------------------------------- MODULE Cyclo --------------------------------
(* Exact arithmetic with N-th roots of unity.  An element is an integer-valued *)
(* function on 0..N-1 (coefficients of w^e, w = e^{j 2 pi / N}); two elements   *)
(* are equal as complex numbers iff their difference is divisible by the N-th   *)
(* cyclotomic polynomial.  This gives a DFT without rounding.                   *)
EXTENDS Common
CZero(N) == [e \in 0..(N - 1) |-> 0]
CMono(N, e, c) == [i \in 0..(N - 1) |-> IF i = e % N THEN c ELSE 0]
CAdd(N, a, b) == [i \in 0..(N - 1) |-> a[i] + b[i]]
CScale(N, a, c) == [i \in 0..(N - 1) |-> c * a[i]]
CRot(N, a, e) == [i \in 0..(N - 1) |-> a[(i - e) % N]]       \* a * w^e
CConj(N, a) == [i \in 0..(N - 1) |-> a[(-i) % N]]
CReal(N, e, c) == CAdd(N, CMono(N, e, c), CMono(N, -e, c))   \* 2 c cos(2 pi e / N)

\* Polynomials as sequences, lowest degree first, monic divisors only.
RECURSIVE PolyRem(_, _)
PolyRem(a, d) ==
  IF Len(a) < Len(d) THEN a
  ELSE LET q == a[Len(a)]  s == Len(a) - Len(d)
       IN PolyRem([i \in 1..(Len(a) - 1) |-> a[i] - (IF i > s THEN q * d[i - s] ELSE 0)], d)
RECURSIVE PolyQuo(_, _)
PolyQuo(a, d) ==
  IF Len(a) < Len(d) THEN <<>>
  ELSE LET q == a[Len(a)]  s == Len(a) - Len(d)
       IN Append(PolyQuo([i \in 1..(Len(a) - 1) |-> a[i] - (IF i > s THEN q * d[i - s] ELSE 0)], d), q)
RECURSIVE Phi(_), PhiDiv(_, _, _)
PhiDiv(a, n, d) == IF d >= n THEN a
                   ELSE IF n % d = 0 THEN PhiDiv(PolyQuo(a, Phi(d)), n, d + 1) ELSE PhiDiv(a, n, d + 1)
Phi(n) == PhiDiv([i \in 1..(n + 1) |-> IF i = 1 THEN -1 ELSE IF i = n + 1 THEN 1 ELSE 0], n, 1)

CIsZero(N, phi, a) == LET r == PolyRem([i \in 1..N |-> a[i - 1]], phi) IN \A i \in DOMAIN r : r[i] = 0
CEq(N, phi, a, b) == CIsZero(N, phi, CAdd(N, a, CScale(N, b, -1)))
=============================================================================
