------------------------------- MODULE TruthFn -------------------------------
(***************************************************************************)
(* Truth values and the functions on them, in exact rational arithmetic.   *)
(* A truth value is [f, c, k]: frequency and confidence in hundredths, the *)
(* evidential horizon in halves.  A number is a fraction <<n, d>>, d > 0.  *)
(* TLC's integers have 32 bits: d stays below 2*10^8.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN 0 - x ELSE x
Max2(x, y) == IF x > y THEN x ELSE y
Min2(x, y) == IF x < y THEN x ELSE y

RECURSIVE Digits(_, _, _, _)
Digits(r, d, left, acc) == IF left = 0 THEN acc ELSE Digits((r * 10) % d, d, left - 1, acc * 10 + (r * 10) \div d)
\* In millionths, rounded towards minus infinity.  Integer part below 2000.
Micro(q) == IF q[1] >= 0 THEN Digits(q[1] % q[2], q[2], 6, q[1] \div q[2]) ELSE 0 - Digits((0 - q[1]) % q[2], q[2], 6, (0 - q[1]) \div q[2])
\* A binary32 result of a few operations: absolute and relative error
Near(seen, q) == LET m == Micro(q) IN seen # 2000000001 /\ Abs(seen - m) <= 20 + Abs(m) \div 50000
NearMicro(seen, m) == seen # 2000000001 /\ Abs(seen - m) <= 20 + Abs(m) \div 50000

Leq(p, q) == Micro(p) <= Micro(q)      \* to six decimals
One == <<1, 1>>
Zero == <<0, 1>>

\* -- one truth value
Expectation(t) == <<t.c * (2 * t.f - 100) + 10000, 20000>>
W(t) == <<t.k * t.c, 2 * (100 - t.c)>>
WPlus(t) == <<t.k * t.f * t.c, 200 * (100 - t.c)>>
WMinus(t) == <<t.k * (100 - t.f) * t.c, 200 * (100 - t.c)>>
\* the greater of e and three quarters of 1-e
Quality(t) == LET n == t.c * (2 * t.f - 100) + 10000 IN <<Max2(4 * n, 3 * (20000 - n)), 80000>>
\* from weights in hundredths; a horizon in halves
FreqOf(wp, w, none) == IF w > 0 THEN <<wp, w>> ELSE none
ConfOf(w, k) == IF w = 0 THEN Zero ELSE <<w, w + 50 * k>>

\* -- the extended Boolean functions, of hundredths
And2(x, y) == <<x * y, 10000>>
And3(x, y, z) == <<x * y * z, 1000000>>
And4(x, y, z, u) == <<x * y * z * u, 100000000>>
Not(x) == 100 - x
Or2(x, y) == <<10000 - Not(x) * Not(y), 10000>>
Or3(x, y, z) == <<1000000 - Not(x) * Not(y) * Not(z), 1000000>>
Or4(x, y, z, u) == <<100000000 - Not(x) * Not(y) * Not(z) * Not(u), 100000000>>
RECURSIVE NoneOf(_)
NoneOf(q) == IF q = <<>> THEN 1 ELSE Not(Head(q)) * NoneOf(Tail(q))
RECURSIVE Power(_, _)
Power(b, n) == IF n = 0 THEN 1 ELSE b * Power(b, n - 1)
OrOf(q) == LET d == Power(100, Len(q)) IN <<d - NoneOf(q), d>>

\* -- the inference rules: [f, c, k] with f and c fractions; f = <<>> where the rule says nothing
Revision(a, b) ==
  LET ca == 100 - a.c
      cb == 100 - b.c
      w == a.k * a.c * cb + b.k * b.c * ca                       \* over 2 ca cb
      wp == a.k * a.f * a.c * cb + b.k * b.f * b.c * ca          \* over 200 ca cb
  IN [f |-> IF w = 0 THEN <<>> ELSE <<wp, 100 * w>>, c |-> IF w = 0 THEN Zero ELSE <<w, w + a.k * ca * cb>>, k |-> a.k]
Deduction(a, b) == [f |-> And2(a.f, b.f), c |-> And4(a.f, b.f, a.c, b.c), k |-> a.k]
Induction(a, b) ==
  LET w == b.f * a.c * b.c IN
  [f |-> IF w = 0 THEN <<1, 2>> ELSE <<a.f, 100>>, c |-> <<w, w + 1000000>>, k |-> 2]
Comparison(a, b) ==
  LET w == (100 * a.f + 100 * b.f - a.f * b.f) * a.c * b.c
      wp == a.f * b.f * a.c * b.c
  IN [f |-> IF w = 0 THEN <<1, 2>> ELSE <<wp, w>>, c |-> <<w, w + 100000000>>, k |-> 2]

\* Projection from the time s to the time t, seen from the time now
Projected(t0, s, now, t, decay) ==
  LET d == Abs(s - now) + Abs(t - now) + decay IN
  [f |-> <<t0.f, 100>>, c |-> IF d = 0 THEN <<t0.c, 100>> ELSE <<t0.c * (d - Abs(s - t)), 100 * d>>, k |-> t0.k]
=============================================================================
