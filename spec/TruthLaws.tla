------------------------------ MODULE TruthLaws ------------------------------
(***************************************************************************)
(* The laws of truth functions, for all premises on a grid.                *)
(***************************************************************************)
EXTENDS TruthFn, TLC, FiniteSets
CONSTANTS Fs, Cs, Ks, Times, Decays
VARIABLES a, b, s, now, t, decay, kind
vars == <<a, b, s, now, t, decay, kind>>
Values == [f : Fs, c : Cs, k : Ks]
Init == \/ /\ kind = "rules" /\ a \in Values /\ b \in Values /\ s = 0 /\ now = 0 /\ t = 0 /\ decay = 0
        \/ /\ kind = "time" /\ a \in Values /\ b = a /\ s \in Times /\ now \in Times /\ t \in Times /\ decay \in Decays
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

In01(q) == q = <<>> \/ (q[2] > 0 /\ q[1] >= 0 /\ q[1] <= q[2])
Ok(r) == In01(r.f) /\ In01(r.c)
Same(p, q) == IF p = <<>> \/ q = <<>> THEN p = q ELSE Micro(p) = Micro(q)
Alike(x, y) == Same(x.f, y.f) /\ Same(x.c, y.c)
Rules == kind = "rules"
Range == Rules => Ok(Revision(a, b)) /\ Ok(Deduction(a, b)) /\ Ok(Induction(a, b)) /\ Ok(Comparison(a, b)) /\ In01(Expectation(a)) /\ In01(Quality(a))
\* below certainty
Short == Rules => LET r == Revision(a, b) IN r.c[1] < r.c[2] /\ Induction(a, b).c[1] * 2 <= Induction(a, b).c[2] /\ Comparison(a, b).c[1] * 2 <= Comparison(a, b).c[2]
Symmetric == Rules => /\ a.k = b.k => Alike(Revision(a, b), Revision(b, a))
                      /\ Alike(Deduction(a, b), Deduction(b, a))
                      /\ Alike(Comparison(a, b), Comparison(b, a))
\* more evidence, more confidence; the frequency lies between
Gains == Rules /\ a.k = b.k => LET r == Revision(a, b) IN
  /\ Leq(<<Max2(a.c, b.c), 100>>, r.c)
  /\ r.f # <<>> => Micro(r.f) >= 10000 * Min2(a.f, b.f) - 1 /\ Micro(r.f) <= 10000 * Max2(a.f, b.f) + 1
\* weights and (f, c) are two views of one thing
Weights == Rules => /\ Micro(W(a)) - (Micro(WPlus(a)) + Micro(WMinus(a))) \in 0..2
                    /\ a.c > 0 => WPlus(a)[1] * (W(a)[2] * 100) = a.f * W(a)[1] * WPlus(a)[2] \/ a.k * a.f * a.c > 5000
                    /\ W(a)[1] * 100 = a.c * (W(a)[1] + a.k * (100 - a.c))
Middle == Rules => (a.f = 50 \/ a.c = 0 => Micro(Expectation(a)) = 500000) /\ (Micro(Quality(a)) >= Micro(Expectation(a)))
\* deduction never gains confidence
Weaker == Rules => Leq(Deduction(a, b).c, <<a.c, 100>>) /\ Leq(Deduction(a, b).c, <<b.c, 100>>)
Booleans == Rules => /\ And2(a.f, b.f) = And2(b.f, a.f) /\ Or2(a.f, b.f) = Or2(b.f, a.f)
                     /\ Leq(And2(a.f, b.f), <<Min2(a.f, b.f), 100>>) /\ Leq(<<Max2(a.f, b.f), 100>>, Or2(a.f, b.f))
                     /\ OrOf(<<a.f, b.f>>) = Or2(a.f, b.f) /\ OrOf(<<a.f, b.f, a.c>>) = Or3(a.f, b.f, a.c) /\ OrOf(<<>>) = <<0, 1>>
                     /\ Or2(a.f, b.f)[1] + And2(Not(a.f), Not(b.f))[1] = 10000
Projection == kind = "time" => LET p == Projected(a, s, now, t, decay) IN
  /\ In01(p.c) /\ p.f = <<a.f, 100>> /\ p.k = a.k
  /\ Leq(p.c, <<a.c, 100>>)
  /\ s = t => Micro(p.c) = 10000 * a.c
  /\ Micro(p.c) = Micro(Projected(a, t, now, s, decay).c)
  /\ decay > 0 /\ a.c > 0 => p.c[1] > 0
=============================================================================
