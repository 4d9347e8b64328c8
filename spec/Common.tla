------------------------------- MODULE Common -------------------------------
(* Arithmetic and plumbing shared by all modules: exact rationals <<num,den>> *)
(* with den > 0, sums over sequences and sets, scenario input, emission.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a <= b THEN a ELSE b
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE GcdN(_, _)
GcdN(a, b) == IF b = 0 THEN a ELSE GcdN(b, a % b)
Gcd(a, b) == GcdN(Abs(a), Abs(b))

RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)

\* ------------------------------------------------------------- rationals
Norm(q) == IF q[1] = 0 THEN <<0, 1>>
           ELSE LET g == Gcd(q[1], q[2]) IN
                IF q[2] < 0 THEN <<(-q[1]) \div g, (-q[2]) \div g>> ELSE <<q[1] \div g, q[2] \div g>>
R(n) == <<n, 1>>
Q(n, d) == Norm(<<n, d>>)
RAdd(a, b) == LET g == Gcd(a[2], b[2]) IN Norm(<<a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2]>>)
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == LET g == Gcd(a[1], b[2]) h == Gcd(b[1], a[2])
                  gg == IF g = 0 THEN 1 ELSE g   hh == IF h = 0 THEN 1 ELSE h
              IN Norm(<<(a[1] \div gg) * (b[1] \div hh), (a[2] \div hh) * (b[2] \div gg)>>)
RInv(a) == Norm(<<a[2], a[1]>>)
RDiv(a, b) == RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
REq(a, b) == RSub(a, b)[1] = 0
RIsInt(a) == a[2] = 1

\* ------------------------------------------------------------------ sums
RECURSIVE SumSeqFrom(_, _)
SumSeqFrom(s, i) == IF i > Len(s) THEN 0 ELSE s[i] + SumSeqFrom(s, i + 1)
SumSeq(s) == SumSeqFrom(s, 1)
RECURSIVE RSumFrom(_, _)
RSumFrom(s, i) == IF i > Len(s) THEN <<0, 1>> ELSE RAdd(s[i], RSumFrom(s, i + 1))
RSumSeq(s) == RSumFrom(s, 1)
\* Sum of f over the integer interval lo..hi
RECURSIVE SumFn(_, _, _)
SumFn(f, lo, hi) == IF lo > hi THEN 0 ELSE f[lo] + SumFn(f, lo + 1, hi)
RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumSet(f, S \ {x})

Range(s) == {s[i] : i \in DOMAIN s}

\* ------------------------------------------------------- scenarios, output
Scens == ndJsonDeserialize(IOEnv.SCEN)
Emit(x) == PrintT("@@" \o ToJson(x))
=============================================================================
