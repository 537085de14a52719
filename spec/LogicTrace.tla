------------------------------ MODULE LogicTrace ------------------------------
(***************************************************************************)
(* What the library answers about every copula and connector, against      *)
(* Logic                                                                   *)
(***************************************************************************)
EXTENDS Logic, Json, IOUtils
CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Flag(x) == IF x THEN 1 ELSE 0

CopulaCall(e) ==
  LET c == e.copula IN
  /\ e.res = "ok"
  /\ e.text = c
  /\ e.commutative = Flag(CopulaCommutes(c))
  /\ e.higher = Flag(HigherOrder(c))
  /\ e.temporal = Flag(Temporal(c))
  /\ e.symmetrized = Symmetrized(c)
  /\ e.reversed = Reversed(c)
ConnectorCall(e) ==
  LET c == e.connector IN
  /\ e.res = "ok"
  /\ e.text = c
  /\ e.commutative = Flag(Commutative(c))
  /\ e.reducible = Flag(Reducible(c))
  /\ e.temporal = Flag(TemporalConnector(c))
  /\ e.single = Flag(SingleOnly(c))
  /\ e.double = Flag(DoubleOnly(c))
  /\ e.multiple = Flag(MultipleOnly(c))
CountCall(e) == e.res = "ok" /\ e.valid = [j \in DOMAIN e.counts |-> Flag(ValidCount(e.connector, e.counts[j]))]
\* the marks of sentences, tenses and variables
MarksCall(e) ==
  /\ e.res = "ok"
  /\ e.puncts = <<".", "?", "!", "@">>
  /\ e.kinds = << <<1, 0, 0, 0>>, <<0, 1, 0, 0>>, <<0, 0, 1, 0>>, <<0, 0, 0, 1>> >>    \* is_judgement, is_question, is_goal, is_quest
  /\ e.own = e.kinds
  /\ e.tenses = <<":\\:", ":|:", ":/:", ":-:">>
  /\ e.prefixes = <<"$", "#", "?">>

Step(e) ==
  CASE e.op = "reset" -> TRUE
    [] e.op = "end" -> e.res = "end"
    [] e.op = "copula" -> CopulaCall(e)
    [] e.op = "connector" -> ConnectorCall(e)
    [] e.op = "count" -> CountCall(e)
    [] e.op = "marks" -> MarksCall(e)
    [] OTHER -> FALSE

Init == l = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_l

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
