----------------------------- MODULE TermTrace -----------------------------
(***************************************************************************)
(* Trace specification of the term, parser and printing API.               *)
(*                                                                         *)
(* The state is what a client of the library holds: handles ("slots") to   *)
(* terms and tasks, containers of components ("bags") and the clock.  Each *)
(* event of the trace is one call of the real code with its arguments and  *)
(* everything observed after it; each action says which observations the   *)
(* call may produce.  A handle's value is a raw term [k, n, i, a, ...]     *)
(* (see Terms) with, depending on the mode of the trace, the identity of   *)
(* every node (id), its derived attributes (x, f) and its variable index   *)
(* (v).                                                                    *)
(*                                                                         *)
(* Property selects the clauses that are enforced, so that a trace is      *)
(* rejected for one property only; with "all" everything is enforced.      *)
(***************************************************************************)
EXTENDS Grammar, Json, IOUtils

CONSTANT Property

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l,      \* next line of the trace
          slot,   \* handle -> what it holds
          bag,    \* container -> what it holds
          now,    \* the clock
          cfg,    \* the configuration
        memo    \* text -> what parsing it gave the first time
vars == <<l, slot, bag, now, cfg, memo>>

On(p) == Property \in {p, "all"}
Near(x, y) == x - y \in (0 - 2)..2

Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

----------------------------------------------------------------------------
(* What a dump must look like, whatever the call *)

RECURSIVE Nodes(_)
Nodes(d) == {d} \cup UNION {Nodes(d.a[j]) : j \in DOMAIN d.a}
IdsOf(d) == {x.id : x \in Nodes(d)}
AtomsOf(d) == {<<x.n, x.id>> : x \in {y \in Nodes(d) : y.k \in {"atom", "op"}}}

RawSlots == {slot[s].raw : s \in DOMAIN slot}
BagRaws(b) == UNION {Rng(b[s].elems) : s \in DOMAIN b}

\* Names and atoms correspond one to one
OneToOne(R) == \A p, q \in R : (p[1] = q[1]) <=> (p[2] = q[2])

Flag(x) == IF x THEN 1 ELSE 0
RECURSIVE AttributesOk(_)
AttributesOk(d) ==
  LET c == Canon(d)
      iv == HasVarOf(c, "ivar")
      dv == HasVarOf(c, "dvar")
      qv == HasVarOf(c, "qvar")
  IN /\ \A j \in DOMAIN d.a : AttributesOk(d.a[j])
     /\ d.x = SumSeq([j \in DOMAIN d.a |-> d.a[j].x]) + (IF d.k = "cmp" THEN 0 ELSE 1)
     /\ d.f = <<Flag(iv \/ dv \/ qv), Flag(iv), Flag(dv), Flag(qv),
                Flag(IsVarKind(d.k)), Flag(d.k = "ivar"), Flag(d.k = "dvar"), Flag(d.k = "qvar"),
                Flag(d.k = "int"), Flag(IsOperation(d)), Flag(IsHigherOrder(d)),
                Flag((d.k = "stmt" /\ d.n \in {"<->", "<=>", "<|>"}) \/ (d.k = "cmp" /\ Commutative(d.n))), 1>>

RECURSIVE IndexOk(_)
IndexOk(d) ==
  /\ \A j \in DOMAIN d.a : IndexOk(d.a[j])
  /\ \A m \in 1..3 :
       LET o == Occur(d, VarKinds[m])
           numbers == [j \in DOMAIN o |-> o[j][2]]
       IN /\ d.v[m].p = [j \in DOMAIN o |-> o[j][1]]
          /\ d.v[m].i = numbers
          /\ d.v[m].r = Ranks(numbers)

WellFormed(d, others) ==
  /\ On("P08") => NoDup(d)
  /\ On("P11") => AttributesOk(d)
  /\ On("P12") => IndexOk(d)
  /\ On("P06") => OneToOne(AtomsOf(d) \cup UNION {AtomsOf(x) : x \in others})

----------------------------------------------------------------------------
(* Sentences *)


\* Variables renumbered in order of their first occurrence
RECURSIVE RenumberIn(_, _)
RenumberIn(d, ord) == [d EXCEPT !.i = IF IsVarKind(d.k) THEN IndexIn(ord[d.k], d.i) - 1 ELSE @,
                                !.a = [j \in DOMAIN d.a |-> RenumberIn(d.a[j], ord)]]
Renumber(d) == RenumberIn(d, [k \in Rng(VarKinds) |-> LET o == Occur(d, k) IN Distinct([j \in DOMAIN o |-> o[j][2]])])

Task(e) == [raw |-> e.raw, punct |-> e.punct, truth |-> e.truth, budget |-> e.budget, stamp |-> e.stamp]
Mark(s) == MarkIn(cfg, s.stamp.e = 1, s.stamp.o, now)

StampOk(d, st) ==
  /\ st.e = Flag(IsEternal(d))
  /\ st.o = OccurrenceIn(cfg, d, now)
  /\ st.c = now
  /\ st.p = 0 - 1
ValuesOk(d, e) == \E c \in Readings(cfg, d) :
  /\ LET t == TruthIn(c, d) IN Len(e.truth) = Len(t) /\ \A j \in DOMAIN t : Near(e.truth[j], t[j])
  /\ LET b == BudgetIn(c, d) IN \A j \in 1..3 : Near(e.budget[j], b[j])

Outcome(e) == IF e.res # "ok" THEN [res |-> e.res]
              ELSE [res |-> "ok", punct |-> e.punct, term |-> Canon(e.raw), truth |-> e.truth, budget |-> e.budget,
                    eternal |-> e.stamp.e, at |-> e.stamp.o, put |-> e.stamp.p, base |-> e.stamp.b]

\* What is read from a text or made by name is registered under its name as long as it lives
IsAnonymous(n) == SubSeq(n \o "  ", 1, 2) = "0x" \/ SubSeq(n \o "   ", 1, 3) = "^0x"
Named(d) == \A x \in Nodes(d) : x.k \in {"atom", "op"} => ~IsAnonymous(x.n)

Key(e) == <<e.text, now, cfg>>
Parse(e) ==
  LET D == IF "tk" \in DOMAIN e THEN Derivations(e.tk) ELSE {}
      judged == "huge" \notin DOMAIN e /\ "unknown" \notin DOMAIN e   \* an input that is no sequence of tokens is not judged
      ok == e.res = "ok"
      rest == Del(slot, e.slot)
  IN /\ e.res \in {"ok", "rej"} \/ (e.res = "exc" /\ "huge" \in DOMAIN e)
     /\ On("P02") /\ judged => (ok <=> D # {})
     /\ On("P01") /\ ok /\ D # {} => \E d \in D : Canon(e.raw) = Denote(d.ast) /\ NoDup(e.raw) /\ e.punct = d.punct
     /\ On("P04") /\ ok /\ D # {} => \E d \in D : e.punct = d.punct /\ ValuesOk(d, e) /\ StampOk(d, e.stamp)
     /\ On("P15") /\ ok => e.stamp.b = 1 /\ e.stamp.c = now
     /\ On("P03") /\ Key(e) \in DOMAIN memo => Outcome(e) = memo[Key(e)]
     /\ ok => WellFormed(e.raw, {rest[s].raw : s \in DOMAIN rest})
     /\ ok /\ judged /\ (On("P06") \/ On("P07")) => Named(e.raw)
     /\ slot' = IF ok THEN Put(slot, e.slot, Task(e)) ELSE rest
     /\ memo' = IF On("P03") /\ Key(e) \notin DOMAIN memo THEN Put(memo, Key(e), Outcome(e)) ELSE memo
     /\ UNCHANGED <<bag, now, cfg>>

\* The same texts parsed time and again, and nothing kept
Many(e) == /\ e.res = "ok"
           /\ On("P02") \/ On("P03") => e.good = e.times * Cardinality({j \in DOMAIN e.tks : Derivations(e.tks[j]) # {}})
           /\ UNCHANGED <<slot, bag, now, cfg, memo>>

\* The outcome in a process that has done nothing else
Fresh(e) == /\ On("P03") /\ Key(e) \in DOMAIN memo => Outcome(e) = memo[Key(e)]
            /\ memo' = IF On("P03") THEN Put(memo, Key(e), Outcome(e)) ELSE memo
            /\ UNCHANGED <<slot, bag, now, cfg>>

\* Can the printed form be read back?
RECURSIVE Readable(_)
Readable(d) ==
  /\ \A j \in DOMAIN d.a : Readable(d.a[j]) \/ (IsOperationStmt(d) /\ d.a[1].a = <<>>)
  /\ CASE d.k \in {"atom", "op"} -> IsWord(IF d.k = "op" THEN SubSeq(d.n, 2, Len(d.n)) ELSE d.n)
       [] d.k = "cmp" /\ d.n \in ConMulti -> Len(d.a) >= 2
       [] d.k = "cmp" /\ d.n \in ConSingle -> Len(d.a) = 2
       [] d.k = "cmp" /\ d.n = "--" -> Len(d.a) = 1
       [] d.k = "cmp" /\ d.n = "#" -> FALSE
       [] d.k = "cmp" /\ d.n = "*" -> Len(d.a) >= 1
       [] d.k = "cmp" -> Len(d.a) >= 1
       [] OTHER -> TRUE
ReadableTerm(d) == ~IsVarKind(d.k) /\ Readable(d)
Open(v, unit) == v >= unit /\ v <= 1000000 - unit
ReadableTask(s) == /\ ReadableTerm(s.raw) /\ Open(s.budget[2], 10000)
                   /\ s.punct \in {".", "!"} => s.truth # <<>> /\ Open(s.truth[2], 1000)

Texts(s) == SentenceTexts(TermText(s.raw), s.punct, Mark(s), s.truth)

Sort(d) == CASE IsVarKind(d.k) -> "Variable" [] d.k = "stmt" -> "Statement" [] d.k = "cmp" -> "Compound" [] OTHER -> "Term"

PrintCall(e) ==
  LET s == slot[e.slot] IN
  /\ On("P05") => e.term = TermText(s.raw) /\ e.rterm = "<" \o Sort(s.raw) \o ": " \o e.term \o ">"
  /\ On("P05") /\ "sent" \in DOMAIN e => /\ e.sent \in Texts(s)
                                         /\ e.task \in TaskTexts(e.sent, s.budget)
                                         /\ e.rsent = "<Sentence: " \o e.sent \o ">" /\ e.rtask = "<Task: " \o e.task \o ">"
  /\ On("P20") => e.pterm = e.term
  /\ On("P20") /\ "sent" \in DOMAIN e => /\ e.psent = e.sent
                                         /\ \E p \in Fmt2(s.budget[1]), u \in Fmt2(s.budget[2]), q \in Fmt2(s.budget[3]) :
                                              e.ptask = " " \o p \o "  " \o u \o "  " \o q \o "  " \o e.sent
  /\ e.raw = s.raw
  /\ UNCHANGED <<slot, bag, now, cfg, memo>>

\* What the text of a raw term denotes: the parser normalises, and rewrites the copulas that are abbreviations
RECURSIVE Reread(_)
Reread(d) == LET kids == [j \in DOMAIN d.a |-> Reread(d.a[j])] IN
             CASE d.k = "stmt" -> MkStmt(d.n, kids[1], kids[2])
               [] d.k = "cmp" -> Cmp(d.n, kids)
               [] OTHER -> Canon(d)

\* Print the task of a slot and parse the text
Within(x, y, unit) == x - y \in (0 - (unit \div 2) - 600)..((unit \div 2) + 600)
Reparse(e) ==
  LET s == slot[e.from]
      ok == e.res = "ok"
  IN /\ e.res \in {"ok", "rej"}
     /\ On("P05") /\ ReadableTask(s) =>
          /\ ok
          /\ Canon(e.raw) = Reread(Renumber(s.raw))
          /\ e.punct = s.punct
          /\ cfg.duration > 0 => Mark(e) = Mark(s)     \* with no duration no sentence says "past"
          /\ Len(e.truth) = (IF s.punct \in {".", "!"} THEN Len(s.truth) ELSE 0)
          /\ e.truth # <<>> => Within(e.truth[1], s.truth[1], 1000) /\ Within(e.truth[2], s.truth[2], 1000)
          /\ \A j \in 1..3 : Within(e.budget[j], s.budget[j], 10000)
     /\ ok => WellFormed(e.raw, RawSlots)
     /\ slot' = IF ok THEN Put(slot, e.slot, Task(e)) ELSE Del(slot, e.slot)
     /\ UNCHANGED <<bag, now, cfg, memo>>

----------------------------------------------------------------------------
(* Terms made by the API *)

Hold(e) == /\ slot' = Put(slot, e.slot, [raw |-> e.raw])
           /\ UNCHANGED <<bag, now, cfg, memo>>

Fine(e) == e.res = "ok" /\ WellFormed(e.raw, LET rest == Del(slot, e.slot) IN {rest[s].raw : s \in DOMAIN rest})

Word(e) == Fine(e) /\ (On("P06") \/ On("P07") => Canon(e.raw) = Atom(e.name)) /\ Hold(e)
Anon(e) == Fine(e) /\ e.raw.k = "atom" /\ IsAnonymous(e.raw.n)
           /\ (On("P06") => \A s \in DOMAIN slot : s # e.slot => e.raw.id \notin IdsOf(slot[s].raw))
           /\ Hold(e)
AnonOp(e) == Fine(e) /\ e.raw.k = "op" /\ (On("P06") => e.raw.n = e.hex) /\ Hold(e)
\* Adding intervals
IntvAdd(e) == LET a == Canon(slot[e.of].raw)
                  b == Canon(slot[e.other].raw) IN
  IF a.k # "int" \/ b.k # "int" THEN e.res = "nointv" /\ UNCHANGED <<slot, bag, now, cfg, memo>>
  ELSE Fine(e) /\ Canon(e.raw) = Intv(a.i + b.i) /\ e.whole = a.i + b.i
       /\ (On("P10") => \A s \in DOMAIN slot : s # e.slot => e.raw.id # slot[s].raw.id)
       /\ Hold(e)
IntvCall(e) == Fine(e) /\ Canon(e.raw) = Intv(e.value) /\ Hold(e)
VarCall(e) == Fine(e) /\ Canon(e.raw) = Var(e.kind, e.value) /\ Hold(e)


\* A copy: what has no variables is shared, everything else is new
RECURSIVE Copied(_, _)
Copied(new, old) ==
  IF ~HasVar(Canon(old)) THEN new = old
  ELSE /\ new.k = old.k /\ new.n = old.n /\ new.i = old.i
       /\ \A s \in DOMAIN slot : new.id \notin IdsOf(slot[s].raw)
       /\ IF new.k = "cmp" /\ Commutative(new.n)     \* renumbering may have changed the order its components have, and made two of them one
          THEN /\ \A j \in DOMAIN new.a : \E m \in DOMAIN old.a : Copied(new.a[j], old.a[m])
               /\ \A m \in DOMAIN old.a : \E j \in DOMAIN new.a : Copied(new.a[j], old.a[m])
          ELSE /\ Len(new.a) = Len(old.a)
               /\ \A j \in DOMAIN new.a : Copied(new.a[j], old.a[j])
VarIds(d) == {x.id : x \in {y \in Nodes(d) : IsVarKind(y.k)}}

StmtCall(e) ==
  /\ Fine(e)
  /\ On("P08") => Canon(e.raw) = Stmt(e.copula, Canon(slot[e.args[1]].raw), Canon(slot[e.args[2]].raw))
  /\ On("P10") /\ e.op = "stmt" => Copied(e.raw.a[1], slot[e.args[1]].raw) /\ Copied(e.raw.a[2], slot[e.args[2]].raw)
  /\ On("P10") /\ e.op = "stmtin" => e.raw.a = [j \in 1..2 |-> slot[e.args[j]].raw]
  /\ Hold(e)

CmpCall(e) ==
  /\ Fine(e)
  /\ On("P08") => Canon(e.raw) = Cmp(e.connector, [j \in DOMAIN e.args |-> Canon(slot[e.args[j]].raw)])
  /\ On("P10") /\ e.op = "cmp" =>
       /\ \A s \in DOMAIN slot : VarIds(e.raw) \cap VarIds(slot[s].raw) = {}
       /\ ~Flattens(e.connector) =>
            Len(e.raw.a) = Len(e.args) /\ \A j \in DOMAIN e.args : Copied(e.raw.a[j], slot[e.args[j]].raw)
  /\ On("P10") /\ e.op = "cmpin" /\ ~Flattens(e.connector) => e.raw.a = [j \in DOMAIN e.args |-> slot[e.args[j]].raw]
  /\ Hold(e)

\* The same term, with the same attributes and index, but an index of its own
RECURSIVE SameBut(_, _)
SameBut(new, old) == /\ {"k", "n", "i"} \subseteq DOMAIN new
                     /\ \A f \in (DOMAIN new \cap DOMAIN old) \ {"a", "id"} : new[f] = old[f]
                     /\ IF new.k = "cmp" /\ Commutative(new.n)
                        THEN /\ \A j \in DOMAIN new.a : \E m \in DOMAIN old.a : SameBut(new.a[j], old.a[m])
                             /\ \A m \in DOMAIN old.a : \E j \in DOMAIN new.a : SameBut(new.a[j], old.a[m])
                        ELSE /\ Len(new.a) = Len(old.a)
                             /\ \A j \in DOMAIN new.a : SameBut(new.a[j], old.a[j])
Clone(e) ==
  /\ Fine(e)
  /\ On("P10") => Copied(e.raw, slot[e.of].raw) /\ SameBut(e.raw, slot[e.of].raw)
  /\ Hold(e)
\* Another object of the very same components
Shallow(e) ==
  LET old == slot[e.of].raw IN
  IF old.k \notin {"stmt", "cmp"}
  THEN e.res = "nocopy" /\ slot' = Del(slot, e.slot) /\ UNCHANGED <<bag, now, cfg, memo>>
  ELSE /\ Fine(e)
       /\ On("P10") => /\ [f \in DOMAIN e.raw \ {"id"} |-> e.raw[f]] = [f \in DOMAIN old \ {"id"} |-> old[f]]
                       /\ \A s \in DOMAIN slot : s # e.slot => e.raw.id \notin IdsOf(slot[s].raw)
       /\ On("P08") \/ On("P11") => Canon(e.raw) = Canon(old)
       /\ Hold(e)
Alias(e) == Fine(e) /\ (On("P10") => e.raw = slot[e.of].raw) /\ Hold(e)
Sub(e) == IF e.nth > Len(slot[e.of].raw.a)
          THEN e.res = "nopart" /\ slot' = Del(slot, e.slot) /\ UNCHANGED <<bag, now, cfg, memo>>
          ELSE Fine(e) /\ e.raw = slot[e.of].raw.a[e.nth] /\ Hold(e)
Dump(e) == e.res = "ok" /\ WellFormed(e.raw, RawSlots) /\ Canon(e.raw) = Canon(slot[e.slot].raw)
           /\ slot' = [slot EXCEPT ![e.slot].raw = e.raw] /\ UNCHANGED <<bag, now, cfg, memo>>

\* Renumbering one variable changes the terms that have that very variable, and no other
RECURSIVE SetIn(_, _, _)
SetIn(d, id, i) == [d EXCEPT !.i = IF d.id = id THEN i ELSE @, !.a = [j \in DOMAIN d.a |-> SetIn(d.a[j], id, i)]]
SetVar(e) ==
  LET v == slot[e.slot].raw.id
      set == [s \in DOMAIN slot |-> [slot[s] EXCEPT !.raw = SetIn(slot[s].raw, v, e.value)]]
  IN /\ e.res = IF IsVarKind(slot[e.slot].raw.k) THEN "ok" ELSE "novar"
     /\ slot' = IF e.res = "ok" THEN set ELSE slot
     /\ UNCHANGED <<bag, now, cfg, memo>>
IntvGrow(e) ==
  LET a == slot[e.slot].raw
      b == slot[e.other].raw
  IN IF a.k # "int" \/ b.k # "int" THEN e.res = "nointv" /\ UNCHANGED <<slot, bag, now, cfg, memo>>
     ELSE /\ e.res = "ok"
          /\ slot' = [s \in DOMAIN slot |-> [slot[s] EXCEPT !.raw = SetIn(slot[s].raw, a.id, a.i + b.i)]]
          /\ UNCHANGED <<bag, now, cfg, memo>>
\* After a renumbering the indices that list the variable are built again
Rebuild(e) == /\ e.res = "ok"
              /\ WellFormed(e.raw, RawSlots)
              /\ Canon(e.raw) = Canon(slot[e.slot].raw)
              /\ slot' = [slot EXCEPT ![e.slot].raw = e.raw] /\ UNCHANGED <<bag, now, cfg, memo>>
DumpAll(e) ==
  /\ e.res = "ok"
  /\ {e.all[j].slot : j \in DOMAIN e.all} = DOMAIN slot
  /\ On("P10") => \A j \in DOMAIN e.all : e.all[j].raw = slot[e.all[j].slot].raw
  /\ UNCHANGED <<slot, bag, now, cfg, memo>>

Sentence(e) ==
  /\ Fine(e)
  /\ e.raw = slot[e.term].raw
  /\ e.punct = e.mark
  /\ LET none == e.how = "class" /\ e.mark \in {"?", "@"}     \* these have no truth
         dflt == <<cfg.f, IF e.mark = "." THEN cfg.cj ELSE cfg.cg, cfg.k>>
     IN CASE none -> e.truth = <<>>
          [] ~none /\ e.given -> Len(e.truth) = 3 /\ \A j \in 1..2 : Near(e.truth[j], e.values[j])
          [] ~none /\ ~e.given /\ e.how = "class" -> Len(e.truth) = 3 /\ \A j \in 1..3 : Near(e.truth[j], dflt[j])
          [] OTHER -> e.truth = <<>>
  /\ \A j \in 1..3 : Near(e.budget[j], e.values[j + 2])
  /\ On("P15") => e.stamp.e = Flag(e.eternal) /\ e.stamp.c = now /\ e.stamp.b = 1 /\ (~e.eternal => e.stamp.o = e.at) /\ e.stamp.p = 0 - 1
  /\ slot' = Put(slot, e.slot, Task(e))
  /\ UNCHANGED <<bag, now, cfg, memo>>

----------------------------------------------------------------------------
(* Equality, hash and order of the terms in some slots *)

Order(e) ==
  LET n == Len(e.args)
      t == [j \in 1..n |-> Canon(slot[e.args[j]].raw)]
      lt(x, y) == e.lt[x][y] = 1
  IN /\ e.res = "ok"
     /\ On("P09") =>
          /\ \A x, y \in 1..n : (e.eq[x][y] = 1) <=> (t[x] = t[y])
          /\ \A x, y \in 1..n : t[x] = t[y] => e.hash[x][y] = 1
          /\ \A x, y \in 1..n : t[x] = t[y] => ~lt(x, y)
          /\ \A x, y \in 1..n : t[x] # t[y] => (lt(x, y) <=> ~lt(y, x))
          /\ \A x, y, z \in 1..n : lt(x, y) /\ lt(y, z) => lt(x, z)
     /\ UNCHANGED <<slot, bag, now, cfg, memo>>

----------------------------------------------------------------------------
(* Lifetime *)

Reachable == UNION {IdsOf(slot[s].raw) : s \in DOMAIN slot} \cup UNION {IdsOf(d) : d \in BagRaws(bag)}
Dictionary == {x.n : x \in {y \in UNION ({Nodes(slot[s].raw) : s \in DOMAIN slot} \cup {Nodes(d) : d \in BagRaws(bag)}) :
                              y.k \in {"atom", "op"} /\ ~IsAnonymous(y.n)}}
Live(e) ==
  /\ e.res = "ok"
  /\ On("P06") \/ On("P07") => /\ Rng(e.names) = Dictionary
                               /\ e.size = Cardinality(Dictionary)
  /\ On("P07") => /\ e.objects = e.size
                  /\ Rng(e.nodes) = Reachable
  /\ UNCHANGED <<slot, bag, now, cfg, memo>>
Drop(e) == /\ e.res = "ok" /\ slot' = Del(slot, e.slot) /\ bag' = Del(bag, e.slot) /\ UNCHANGED <<now, cfg, memo>>

----------------------------------------------------------------------------
(* Containers of components *)

CanonSeq(q) == [j \in DOMAIN q |-> Canon(q[j])]
SetOf(b) == Rng(CanonSeq(b.elems))

\* What a container shows is what it should hold: want is a sequence, or for a commutative one a set
BagShows(e, comm, wantseq, wantset) ==
  /\ e.res = "ok"
  /\ On("P13") =>
       /\ e.comm = Flag(comm)
       /\ e.size = Len(e.elems)
       /\ e.vec = e.elems
       /\ IF comm THEN Rng(CanonSeq(e.elems)) = wantset /\ Len(e.elems) = Cardinality(wantset)
          ELSE CanonSeq(e.elems) = wantseq
KeepBag(e) == /\ bag' = Put(bag, e.slot, [comm |-> e.comm = 1, elems |-> e.elems]) /\ UNCHANGED <<slot, now, cfg, memo>>

MakeBag(e) == LET q == [j \in DOMAIN e.args |-> Canon(slot[e.args[j]].raw)]
              IN BagShows(e, e.commutative, q, Rng(q)) /\ KeepBag(e)
PushBag(e) == LET b == bag[e.slot]
                  t == Canon(slot[e.args[1]].raw)
              IN BagShows(e, b.comm, Append(CanonSeq(b.elems), t), SetOf(b) \cup {t}) /\ KeepBag(e)
CopyBag(e) == LET b == bag[e.of] IN BagShows(e, e.commutative, CanonSeq(b.elems), SetOf(b)) /\ KeepBag(e)
ShowBag(e) == LET b == bag[e.slot] IN BagShows(e, b.comm, CanonSeq(b.elems), SetOf(b)) /\ UNCHANGED <<slot, bag, now, cfg, memo>>
Combine(kind, q) == CASE kind = "tunion" -> UNION Rng(q)
                      [] kind = "tinter" -> InterAll(Rng(q))
                      [] kind = "tdiff" -> {x \in q[1] : \A j \in 2..Len(q) : x \notin q[j]}
CombineBags(e) ==
  LET q == [j \in DOMAIN e.args |-> SetOf(bag[e.args[j]])]
  IN IF e.args = <<>> \/ \E j \in 1..Len(e.args) : ~bag[e.args[j]].comm
     THEN e.res = "exc" /\ UNCHANGED <<slot, bag, now, cfg, memo>>   \* only commutative containers can be combined
     ELSE BagShows(e, TRUE, <<>>, Combine(e.op, q)) /\ KeepBag(e)
Walk(e) == LET q == bag[e.slot].elems IN
  /\ e.res = "ok"
  /\ On("P13") => /\ e.fwd = q /\ e.post = q /\ e.held = q
                  /\ e.bwd = [j \in DOMAIN q |-> q[Len(q) + 1 - j]]
                  /\ e.empty = Flag(q = <<>>) /\ e.nonempty = Flag(q # <<>>)
  /\ UNCHANGED <<slot, bag, now, cfg, memo>>

----------------------------------------------------------------------------
(* One event *)

Makers == {"ivadd", "word", "anon", "anonop", "intv", "var", "stmt", "stmtin", "cmp", "cmpin", "shallow", "clone", "alias", "sub", "sentence", "reparse"}
Uses(e) == (IF "args" \in DOMAIN e /\ e.op \notin {"tunion", "tinter", "tdiff"} THEN Rng(e.args) ELSE {})
           \cup (IF "of" \in DOMAIN e /\ e.op # "tcopy" THEN {e.of} ELSE {})
           \cup (IF "other" \in DOMAIN e THEN {e.other} ELSE {})
           \cup (IF "from" \in DOMAIN e THEN {e.from} ELSE {})
           \cup (IF "term" \in DOMAIN e /\ e.op = "sentence" THEN {e.term} ELSE {})
           \cup (IF e.op \in {"print", "dump", "setvar", "ivgrow", "rebuild"} THEN {e.slot} ELSE {})
BagUses(e) == (IF e.op \in {"tunion", "tinter", "tdiff"} THEN Rng(e.args) ELSE {})
              \cup (IF e.op = "tcopy" THEN {e.of} ELSE {})
              \cup (IF e.op \in {"tpush", "tshow", "titer"} THEN {e.slot} ELSE {})

\* The call could not be made, because an earlier parse was rejected
Missing(e) ==
  /\ e.res = "noslot"
  /\ (\E s \in Uses(e) : s \notin DOMAIN slot) \/ (\E s \in BagUses(e) : s \notin DOMAIN bag)
  /\ slot' = IF e.op \in Makers THEN Del(slot, e.slot) ELSE slot
  /\ UNCHANGED <<bag, now, cfg, memo>>

Step(e) ==
  CASE e.op = "reset" -> slot' = Empty /\ bag' = Empty /\ now' = 0 /\ cfg' = DefaultConfig /\ memo' = Empty
    [] e.op = "mode" -> UNCHANGED <<slot, bag, now, cfg, memo>>
    [] e.op = "time" -> now' = e.value /\ UNCHANGED <<slot, bag, cfg, memo>>
    [] e.op = "config" -> e.res = "ok" /\ cfg' = [cfg EXCEPT ![e.name] = e.value] /\ UNCHANGED <<slot, bag, now, memo>>
    [] e.op = "dropparser" -> e.res = "ok" /\ UNCHANGED <<slot, bag, now, cfg, memo>>
    [] e.op = "end" -> (On("P07") => e.left = 0) /\ e.res = "end" /\ UNCHANGED <<slot, bag, now, cfg, memo>>
    [] e.res = "noslot" -> Missing(e)
    [] e.res \notin {"ok", "rej"} /\ e.op \notin {"parse", "fresh", "tunion", "tinter", "tdiff", "sub", "shallow", "setvar", "ivadd", "ivgrow"} -> FALSE
    [] e.op = "parse" -> Parse(e)
    [] e.op = "many" -> Many(e)
    [] e.op = "fresh" -> Fresh(e)
    [] e.op = "drop" -> Drop(e)
    [] e.op = "print" -> PrintCall(e)
    [] e.op = "reparse" -> Reparse(e)
    [] e.op = "word" -> Word(e)
    [] e.op = "anon" -> Anon(e)
    [] e.op = "anonop" -> AnonOp(e)
    [] e.op = "intv" -> IntvCall(e)
    [] e.op = "ivadd" -> IntvAdd(e)
    [] e.op = "ivgrow" -> IntvGrow(e)
    [] e.op = "var" -> VarCall(e)
    [] e.op \in {"stmt", "stmtin"} -> StmtCall(e)
    [] e.op = "shallow" -> Shallow(e)
    [] e.op \in {"cmp", "cmpin"} -> CmpCall(e)
    [] e.op = "clone" -> Clone(e)
    [] e.op = "alias" -> Alias(e)
    [] e.op = "sub" -> Sub(e)
    [] e.op = "dump" -> Dump(e)
    [] e.op = "setvar" -> SetVar(e)
    [] e.op = "rebuild" -> Rebuild(e)
    [] e.op = "dumpall" -> DumpAll(e)
    [] e.op = "sentence" -> Sentence(e)
    [] e.op = "order" -> Order(e)
    [] e.op = "live" -> Live(e)
    [] e.op \in {"tmake", "tlist", "tset", "tinit", "tempty"} -> MakeBag(e)
    [] e.op = "tpush" -> PushBag(e)
    [] e.op = "tcopy" -> CopyBag(e)
    [] e.op = "tshow" -> ShowBag(e)
    [] e.op \in {"tunion", "tinter", "tdiff"} -> CombineBags(e)
    [] e.op = "titer" -> Walk(e)

Init == l = 1 /\ slot = Empty /\ bag = Empty /\ now = 0 /\ cfg = DefaultConfig /\ memo = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
