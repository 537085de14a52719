----------------------------- MODULE NumberTrace -----------------------------
(***************************************************************************)
(* Trace specification of truth and budget values.  Every event shows all  *)
(* truth values after the call, in millionths.                             *)
(*                                                                         *)
(* P16: values, weights, defaults, texts.  P17: truth functions.           *)
(***************************************************************************)
EXTENDS TruthFn, TLC, Json, IOUtils

CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,
          val,      \* handle of a truth value -> its value as fractions, <<>> where nothing is said
          exact,    \* handle -> [f, c, k] for those given in hundredths
          conf,     \* configured [f, c]
          bdef,     \* defaults of a budget
          bud       \* handle of a budget -> <<p, d, q>> in hundredths
vars == <<l, val, exact, conf, bdef, bud>>

On(p) == Property \in {p, "all"}
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Quiet == UNCHANGED <<val, exact, conf, bdef, bud>>

Fits(seen, q) == IF q = <<>> THEN seen # 2000000001 ELSE Near(seen, q)
FitsTruth(x, v) == Fits(x.f, v.f) /\ Fits(x.c, v.c) /\ Fits(x.k, <<v.k, 2>>)
Shown(e) ==
  /\ {e.truths[j].s : j \in DOMAIN e.truths} = DOMAIN val'
  /\ \A j \in DOMAIN e.truths : FitsTruth(e.truths[j], val'[e.truths[j].s])
  /\ {e.budgets[j].s : j \in DOMAIN e.budgets} = DOMAIN bud'
  /\ \A j \in DOMAIN e.budgets : LET x == e.budgets[j] b == bud'[x.s] IN
        On("P16") => NearMicro(x.p, 10000 * b[1]) /\ NearMicro(x.d, 10000 * b[2]) /\ NearMicro(x.q, 10000 * b[3])

Fractions(t) == [f |-> <<t.f, 100>>, c |-> <<t.c, 100>>, k |-> t.k]
Given(s, t) == /\ val' = Put(val, s, Fractions(t)) /\ exact' = Put(exact, s, t) /\ UNCHANGED <<conf, bdef, bud>>
Result(s, r) == /\ val' = Put(val, s, r) /\ exact' = Del(exact, s) /\ UNCHANGED <<conf, bdef, bud>>
T(s) == exact[s]

Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Hundredths(n) == IF n >= 100 THEN "1.00" ELSE "0." \o Two(n)
KTexts(k) == IF k % 2 = 0 THEN {ToString(k \div 2), ToString(k \div 2) \o ".0"} ELSE {ToString(k \div 2) \o ".5"}
ReprTexts(t) == {"<Truth: %" \o Hundredths(t.f) \o ", " \o Hundredths(t.c) \o "% (k=" \o kt \o ")>" : kt \in KTexts(t.k)}

\* [op] -> the result of a function of numbers
Numbers(e) ==
  LET a == e.args IN
  CASE e.op = "and" /\ Len(a) = 2 -> And2(a[1], a[2])
    [] e.op = "and" /\ Len(a) = 3 -> And3(a[1], a[2], a[3])
    [] e.op = "and" /\ Len(a) = 4 -> And4(a[1], a[2], a[3], a[4])
    [] e.op = "or" /\ Len(a) = 2 -> Or2(a[1], a[2])
    [] e.op = "or" /\ Len(a) = 3 -> Or3(a[1], a[2], a[3])
    [] e.op = "or" /\ Len(a) = 4 -> Or4(a[1], a[2], a[3], a[4])
    [] e.op = "orlist" -> OrOf(a)
\* weights from (f, c, k): total, positive, negative
WeighCall(e) == On("P16") => LET t == [f |-> e.f, c |-> e.c, k |-> e.k] IN Near(e.w, W(t)) /\ Near(e.wp, WPlus(t)) /\ Near(e.wm, WMinus(t))
\* ... and back; there is no frequency without evidence
BackCall(e) == On("P16") => /\ e.wt > 0 => Near(e.f, <<e.wpos, e.wt>>)
                            /\ Near(e.c, ConfOf(e.wt, e.k))
FromWeights(e) == Result(e.slot, [f |-> FreqOf(e.wpos, e.wt, <<1, 2>>), c |-> ConfOf(e.wt, e.k), k |-> e.k])
SetWeights(e) == Result(e.slot, [f |-> FreqOf(e.wpos, e.wt, <<1, 2>>), c |-> ConfOf(e.wt, T(e.slot).k), k |-> T(e.slot).k])
LookCall(e) == On("P16") => LET t == T(e.slot) IN
  /\ Near(e.e, Expectation(t)) /\ Near(e.w, W(t)) /\ Near(e.wp, WPlus(t)) /\ Near(e.wm, WMinus(t)) /\ Near(e.q, Quality(t))
  /\ Near(e.vp, WPlus(t)) /\ Near(e.vm, WMinus(t))
  /\ e.text \in ReprTexts(t)

RuleOf(e) == LET a == T(e.args[1]) b == T(e.args[2]) IN
  CASE e.op = "deduction" -> Deduction(a, b)
    [] e.op = "induction" -> Induction(a, b)
    [] e.op = "comparison" -> Comparison(a, b)

\* Values of Config.h, as documented there, in millionths
Documented == [f |-> 1000000, c |-> 900000, c_judgement |-> 900000, c_goal |-> 900000, k |-> 1000000, p_judgement |-> 800000, d_judgement |-> 500000,
               p_question |-> 900000, d_question |-> 900000, p_quest |-> 900000, d_quest |-> 900000, p_goal |-> 900000, d_goal |-> 900000,
               priority |-> 800000, durability |-> 800000, quality |-> 500000, temporal_duration |-> 5, maximum_evidential_base_length |-> 20000,
               truth_epsilon |-> 10000, budget_epsilon |-> 100, complexity_unit |-> 1000000]
ConfigCall(e) == On("P16") => \A x \in DOMAIN Documented : Abs(e.values[x] - Documented[x]) <= 1

Step(e) ==
  IF e.res # "ok" THEN e.op = "end" /\ e.res = "end" /\ Quiet
  ELSE /\ CASE e.op = "reset" -> val' = Empty /\ exact' = Empty /\ conf' = <<100, 90>> /\ bdef' = <<90, 90, 50>> /\ bud' = Empty
            [] e.op = "config" -> ConfigCall(e) /\ Quiet
            [] e.op = "setconfig" -> conf' = <<e.f, e.c>> /\ UNCHANGED <<val, exact, bdef, bud>>
            [] e.op = "truth" -> Given(e.slot, [f |-> e.f, c |-> e.c, k |-> e.k])
            [] e.op = "truthfc" -> Given(e.slot, [f |-> e.f, c |-> e.c, k |-> 2])
            [] e.op = "truthk" -> Given(e.slot, [f |-> conf[1], c |-> conf[2], k |-> e.k])
            [] e.op = "default" -> Given(e.slot, [f |-> conf[1], c |-> conf[2], k |-> 2])
            [] e.op = "look" -> LookCall(e) /\ Quiet
            [] e.op = "setw" -> SetWeights(e)
            [] e.op = "fromw" -> FromWeights(e)
            [] e.op = "weigh" -> WeighCall(e) /\ Quiet
            [] e.op = "back" -> BackCall(e) /\ Quiet
            [] e.op \in {"and", "or", "orlist"} -> (On("P17") => Near(e.value, Numbers(e))) /\ Quiet
            [] e.op = "revision" -> Result(e.args[1], Revision(T(e.args[1]), T(e.args[2])))
            [] e.op \in {"deduction", "induction", "comparison"} -> Result(e.slot, RuleOf(e))
            [] e.op = "project" -> Result(e.slot, Projected(T(e.of), e.source, e.current, e.target, e.decay))
            [] e.op = "budget" -> bud' = Put(bud, e.slot, [j \in 1..3 |-> IF j <= Len(e.args) THEN e.args[j] ELSE bdef[j]]) /\ UNCHANGED <<val, exact, conf, bdef>>
            [] e.op = "setbudget" -> bdef' = e.args /\ UNCHANGED <<val, exact, conf, bud>>
            [] e.op = "drop" -> val' = Del(val, e.slot) /\ exact' = Del(exact, e.slot) /\ bud' = Del(bud, e.slot) /\ UNCHANGED <<conf, bdef>>
       /\ Shown(e)

Init == l = 1 /\ val = Empty /\ exact = Empty /\ conf = <<100, 90>> /\ bdef = <<90, 90, 50>> /\ bud = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
