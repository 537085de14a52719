------------------------------- MODULE PyTrace -------------------------------
(***************************************************************************)
(* Trace specification of the Python module: what a Python program can     *)
(* hold (terms, tasks, sentences, truth values, budgets, iterators over    *)
(* components) and what each call shows of it.  The meaning of terms and   *)
(* sentences is that of Grammar and Terms, as for the C++ library.         *)
(*                                                                         *)
(* slot[s] is a record with `what` and, of a term: raw; of a task: raw,    *)
(* punct, truth, budget, mark; of a sentence: raw, punct, truth, mark; of  *)
(* a truth value or a budget: v; of an iterator: rest.                     *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils

CONSTANT Property
On(p) == Property \in {p, "all"}

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, slot
vars == <<l, slot>>

Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Near(x, y) == x - y \in (0 - 3)..3

----------------------------------------------------------------------------
(* A term as Python shows it: text, parts, subject and predicate agree *)

ClassOf(d) == CASE IsVarKind(d.k) -> "Variable" [] d.k = "stmt" -> "Statement" [] d.k = "cmp" -> "Compound" [] OTHER -> "Term"
RECURSIVE Coherent(_)
Coherent(d) ==
  /\ \A j \in DOMAIN d.a : Coherent(d.a[j])
  /\ d.t = "<" \o ClassOf(d) \o ": " \o TermText(d) \o ">"
  /\ d.sp = IF d.k = "stmt" THEN <<d.a[1].t, d.a[2].t>> ELSE <<>>
  /\ d.k = "stmt" => Len(d.a) = 2
  /\ NoDup(d)

Show(e, t) == Coherent(e.raw) /\ Canon(e.raw) = t
TermShown(d) == [what |-> "term", raw |-> d]

\* There is no way to move the clock from Python: it stands at 0
MarkOf(d) == TenseMark(IsEternal(d), Occurrence(d, 0), 0)
SentTexts(s) == {"<Sentence: " \o x \o ">" : x \in SentenceTexts(TermText(s.raw), s.punct, s.mark, s.truth)}
\* the text of the task is that of the sentence with the budget before it
TaskText(s, sent) == LET body == SubSeq(sent, 12, Len(sent) - 1)
                     IN {"<Task: " \o x \o ">" : x \in TaskTexts(body, s.budget)}
ShowsTask(e, s) == e.sent \in SentTexts(s) /\ e.task \in TaskText(s, e.sent)

Parse(e) ==
  LET D == IF "tk" \in DOMAIN e THEN Derivations(e.tk) ELSE {}
      held(d) == [what |-> "task", raw |-> e.raw, punct |-> d.punct, truth |-> Truth(d), budget |-> Budget(d), mark |-> MarkOf(d)]
  IN /\ e.res = IF D # {} THEN "ok" ELSE "rej"
     /\ IF e.res = "ok"
        THEN \E d \in D : /\ Show(e, Denote(d.ast))
                          /\ ShowsTask(e, held(d))
                          /\ slot' = Put(slot, e.slot, held(d))
        ELSE slot' = Del(slot, e.slot)

NewTerm(e, t) == e.res = "ok" /\ Show(e, t) /\ slot' = Put(slot, e.slot, TermShown(e.raw))
\* a part handed out shows what it showed within the whole
Part(e, d) == e.res = "ok" /\ e.raw = d /\ slot' = Put(slot, e.slot, TermShown(e.raw))
NoPart(e) == e.res = "nopart" /\ slot' = Del(slot, e.slot)

Anon(e) == /\ e.res = "ok" /\ Coherent(e.raw) /\ e.raw.k = "atom" /\ SubSeq(e.raw.n, 1, 2) = "0x"
           /\ slot' = Put(slot, e.slot, TermShown(e.raw))

Iter(e) == LET d == slot[e.of].raw IN
           IF d.k \in {"stmt", "cmp"} THEN e.res = "ok" /\ slot' = Put(slot, e.slot, [what |-> "iter", rest |-> d.a])
           ELSE NoPart(e)
NextOf(e) == LET q == slot[e.of].rest IN
             IF q = <<>> THEN e.res = "stop" /\ slot' = Del(slot, e.slot)
             ELSE /\ e.res = "ok" /\ e.raw = q[1]
                  /\ slot' = Put([slot EXCEPT ![e.of].rest = Tail(q)], e.slot, TermShown(e.raw))

Sentence(e) ==
  LET s == [what |-> "sentence", raw |-> slot[e.term].raw, punct |-> e.mark, mark |-> "",
            truth |-> IF e.truth = "" THEN <<>> ELSE slot[e.truth].v]
  IN e.res = "ok" /\ e.sent \in SentTexts(s) /\ slot' = Put(slot, e.slot, s)
SentenceOf(e) ==
  LET x == slot[e.of] IN e.res = "ok" /\ e.sent \in SentTexts(x)
                         /\ slot' = Put(slot, e.slot, [what |-> "sentence", raw |-> x.raw, punct |-> x.punct, mark |-> x.mark, truth |-> x.truth])

----------------------------------------------------------------------------
(* Truth values and budgets: <<f, c, k>> with f and c in millionths, k in   *)
(* thousandths; <<p, d, q>> in millionths                                   *)

KText(k) == IF k % 1000 = 0 THEN ToString(k \div 1000) ELSE ToString(k \div 1000) \o ".5"
TruthTexts(v) == {"<Truth: %" \o f \o ", " \o c \o "% (k=" \o KText(v[3]) \o ")>" : <<f, c>> \in Fmt2(v[1]) \X Fmt2(v[2])}
BudgetTexts(v) == {"<Budget: $" \o p \o ";" \o d \o ";" \o q \o "$>" : <<p, d, q>> \in Fmt2(v[1]) \X Fmt2(v[2]) \X Fmt2(v[3])}
ShowsTruth(e, v) == /\ e.res = "ok" /\ Near(e.v[1], v[1]) /\ Near(e.v[2], v[2]) /\ e.v[3] = v[3]
                    /\ Near(e.e, Expect(v[1], v[2])) /\ e.text \in TruthTexts(v)
ShowsBudget(e, v) == e.res = "ok" /\ (\A j \in 1..3 : Near(e.v[j], v[j])) /\ e.text \in BudgetTexts(v)

MakeTruth(e) == LET v == <<e.values[1] * 1000, e.values[2] * 1000, IF Len(e.values) > 2 THEN e.values[3] ELSE 1000>>
                IN ShowsTruth(e, v) /\ slot' = Put(slot, e.slot, [what |-> "truth", v |-> v])
\* e.named: the names of the parts given, in order (none: given by position)
BudgetFields == <<"p", "d", "q">>
BudgetDefaults == <<900000, 900000, 500000>>
MakeBudget(e) ==
  LET given(j) == IF e.named = <<>> THEN (IF j <= Len(e.values) THEN {j} ELSE {}) ELSE {m \in DOMAIN e.named : e.named[m] = BudgetFields[j]}
      v == [j \in 1..3 |-> IF given(j) = {} THEN BudgetDefaults[j] ELSE e.values[CHOOSE m \in given(j) : TRUE] * 1000]
  IN ShowsBudget(e, v) /\ slot' = Put(slot, e.slot, [what |-> "budget", v |-> v])
FieldNo(x) == CASE x \in {"f", "p"} -> 1 [] x \in {"c", "d"} -> 2 [] OTHER -> 3
Set(e) ==
  LET x == slot[e.slot]
      v == [x.v EXCEPT ![FieldNo(e.field)] = IF e.field = "k" THEN e.value ELSE e.value * 1000]
  IN /\ IF x.what = "truth" THEN ShowsTruth(e, v) ELSE ShowsBudget(e, v)
     /\ slot' = [slot EXCEPT ![e.slot].v = v]
QualityOf(e) == e.res = "ok" /\ Near(e.q, Quality(slot[e.of].v[1], slot[e.of].v[2])) /\ UNCHANGED slot

ShowAgain(e) ==
  LET x == slot[e.slot] IN
  /\ e.res = "ok"
  /\ CASE x.what = "term" -> e.raw = x.raw
       [] x.what = "task" -> e.raw = x.raw /\ ShowsTask(e, x)
       [] x.what = "sentence" -> e.sent \in SentTexts(x)
       [] x.what = "truth" -> ShowsTruth(e, x.v)
       [] x.what = "budget" -> ShowsBudget(e, x.v)
  /\ UNCHANGED slot

EnumNames(e) ==
  /\ Rng(e.copulas) = {"Inheritance", "Similarity", "Instance", "Property", "InstanceProperty", "Implication", "PredictiveImplication",
                       "ConcurrentImplication", "RetrospectiveImplication", "Equivalence", "PredictiveEquivalence", "ConcurrentEquivalence"}
  /\ Rng(e.connectors) = {"Conjunction", "Disjunction", "Product", "ParallelEvents", "SequentialEvents", "IntensionalIntersection",
                          "ExtensionalIntersection", "ExtensionalDifference", "IntensionalDifference", "Negation", "IntensionalSet",
                          "ExtensionalSet", "IntensionalImage", "ExtensionalImage", "List"}
  /\ Rng(e.puncts) = {"Judgement", "Question", "Goal", "Quest"}
  /\ UNCHANGED slot

----------------------------------------------------------------------------
Uses(e) == (IF "args" \in DOMAIN e THEN Rng(e.args) ELSE {})
           \cup (IF "of" \in DOMAIN e THEN {e.of} ELSE {})
           \cup (IF e.op = "sentence" THEN {e.term} \cup ({e.truth} \ {""}) ELSE {})
           \cup (IF e.op \in {"show", "set"} THEN {e.slot} ELSE {})
Makers == {"stmt", "cmp", "termof", "sentenceof", "subject", "predicate", "iter", "next", "sentence"}
Missing(e) == (\E s \in Uses(e) : s \notin DOMAIN slot) /\ slot' = IF e.op \in Makers THEN Del(slot, e.slot) ELSE slot

Step(e) ==
  CASE e.op = "reset" -> slot' = Empty
    [] e.op = "end" -> e.res = "end" /\ UNCHANGED slot
    [] e.res = "noslot" -> Missing(e)
    [] e.res \in {"raised", "crash", "hang", "silent"} -> FALSE
    [] e.op = "parse" -> Parse(e)
    [] e.op = "word" -> NewTerm(e, Atom(e.name))
    [] e.op = "anon" -> Anon(e)
    [] e.op = "stmt" -> NewTerm(e, Stmt(e.copula, Canon(slot[e.args[1]].raw), Canon(slot[e.args[2]].raw)))
    [] e.op = "cmp" -> NewTerm(e, Cmp(e.connector, [j \in DOMAIN e.args |-> Canon(slot[e.args[j]].raw)]))
    [] e.op = "termof" -> Part(e, slot[e.of].raw)
    [] e.op = "sentenceof" -> SentenceOf(e)
    [] e.op = "subject" -> IF slot[e.of].raw.k = "stmt" THEN Part(e, slot[e.of].raw.a[1]) ELSE NoPart(e)
    [] e.op = "predicate" -> IF slot[e.of].raw.k = "stmt" THEN Part(e, slot[e.of].raw.a[2]) ELSE NoPart(e)
    [] e.op = "iter" -> Iter(e)
    [] e.op = "next" -> NextOf(e)
    [] e.op = "sentence" -> Sentence(e)
    [] e.op = "truth" -> MakeTruth(e)
    [] e.op = "budget" -> MakeBudget(e)
    [] e.op = "set" -> Set(e)
    [] e.op = "quality" -> QualityOf(e)
    [] e.op = "show" -> ShowAgain(e)
    [] e.op = "drop" -> e.res = "ok" /\ slot' = Del(slot, e.slot)
    [] e.op = "wrong" -> e.res = "exc" /\ UNCHANGED slot
    [] e.op = "names" -> EnumNames(e)

Init == l = 1 /\ slot = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
