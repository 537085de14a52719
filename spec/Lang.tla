-------------------------------- MODULE Lang --------------------------------
(***************************************************************************)
(* Narsese generated, rather than recognised.  A state is a sentential     *)
(* form; a step rewrites its first nonterminal, or (MODE "tokens") appends *)
(* any token at all.  In every state that is a sentence                    *)
(*   - the recogniser (Grammar!Derivations) accepts it   [generated only]  *)
(*   - all its derivations denote the same sentence                        *)
(*   - the term denoted is in normal form, its variables numbered densely  *)
(*   - its printed form denotes the same term again                        *)
(* and each state visited is printed, to be replayed into the real parser. *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANTS Mode,      \* "forms" or "tokens"
          Alphabet,  \* tokens to append in mode "tokens"
          MaxLen,    \* longest token sequence in mode "tokens"
          MaxDepth,  \* deepest term in mode "forms"
          MaxList,   \* longest list of components
          Leaves,    \* words
          Names,     \* names of variables
          Emit       \* print the sentences

VARIABLE form        \* sequence of tokens and nonterminals <<name, depth>>

T(s) == [t |-> s, d |-> 0 - 1]           \* a token
N(s, d) == [t |-> s, d |-> d]            \* a nonterminal
Toks(q) == [j \in DOMAIN q |-> T(q[j])]
Terminal(x) == x.d < 0
Done(f) == \A j \in DOMAIN f : Terminal(f[j])
Tokens(f) == [j \in DOMAIN f |-> f[j].t]

Sep(x, s, n) == [j \in 1..(2 * n - 1) |-> IF j % 2 = 1 THEN x ELSE T(s)]
Lists(d, lo) == {Sep(N("term", d), ",", n) : n \in lo..MaxList}

LeafForms(var) ==
  {Toks(<<w>>) : w \in Leaves}
  \cup (IF var THEN {Toks(<<p, x>>) : <<p, x>> \in Prefixes \X Names} ELSE {})
  \cup {Toks(<<"+", "5">>), Toks(<<"+", "-5">>)} \cup {Toks(<<"^", w>>) : w \in Leaves}

InfixForms(d) == {Sep(N("term", d), c, n) : <<c, n>> \in InfixMulti \X (2..MaxList)}
BigForms(d) ==   \* terms of depth d >= 1 that are not leaves
  LET t == N("term", d - 1)
      o == N("operand", d - 1)
  IN {<<T("<"), t, T(c), t, T(">")>> : c \in Copulas}
     \cup {<<T("("), t, T(c), t, T(")")>> : c \in Copulas}
     \cup {<<T("{")>> \o q \o <<T("}")>> : q \in Lists(d - 1, 1)}
     \cup {<<T("[")>> \o q \o <<T("]")>> : q \in Lists(d - 1, 1)}
     \cup {<<T("("), T(c), T(",")>> \o q \o <<T(")")>> : <<c, q>> \in ConMulti \X Lists(d - 1, 2)}
     \cup {<<T("("), T(c), T(",")>> \o q \o <<T(")")>> : <<c, q>> \in {"*", "/", "\\"} \X Lists(d - 1, 1)}
     \cup {<<T("("), T(c), T(","), o, T(","), o, T(")")>> : c \in ConSingle}
     \cup {<<T("("), o, T(c), o, T(")")>> : c \in ConSingle}
     \cup {<<T("("), T("--"), T(","), t, T(")")>>, <<T("--"), t>>}
     \cup {<<T("(")>> \o q \o <<T(")")>> : q \in InfixForms(d - 1)}
     \* a product in the new notation does not begin with an operation
     \cup {<<T("("), N("noop", d - 1), T(",")>> \o q \o <<T(")")>> : q \in Lists(d - 1, 1)}
     \cup {<<T("("), T("^"), T("go"), T(")")>>}
     \cup {<<T("("), T("^"), T("go"), T(",")>> \o q \o <<T(")")>> : q \in Lists(d - 1, 1)}
     \cup {<<T("go"), T("(")>> \o q \o <<T(")")>> : q \in Lists(d - 1, 1)}

Budgets == {<<>>} \cup {Toks(q) : q \in {<<"$", "0.5", "$">>, <<"$", ".25", ";", ".75", "$">>, <<"$", "1", ";", "0.1", ";", "0", "$">>}}
TenseForms == {<<>>} \cup {Toks(q) : q \in {<<":/:">>, <<":|:">>, <<":\\:">>, <<":!", "7", ":">>, <<":!", "-7", ":">>}}
TruthForms == {<<>>} \cup {Toks(q) : q \in {<<"%", "0.5", "%">>, <<"%", "0", ";", ".6", "%">>, <<"%", "1.0", ";", "0.9", ";", "2", "%">>}}

Expansions(x) ==
  CASE x.t = "task" -> {b \o <<N("sentence", x.d)>> : b \in Budgets}
    [] x.t = "sentence" -> {<<N("top", x.d), N("tail", 0)>>}
    [] x.t = "tail" -> {<<T(p)>> \o te \o tr : <<p, te, tr>> \in {".", "!"} \X TenseForms \X TruthForms}
                       \cup {<<T(p)>> \o te : <<p, te>> \in {"?", "@"} \X TenseForms}
    [] x.t = "term" -> LeafForms(TRUE) \cup (IF x.d > 0 THEN BigForms(x.d) ELSE {})
    [] x.t = "top" -> LeafForms(FALSE) \cup (IF x.d > 0 THEN BigForms(x.d) ELSE {})
    [] x.t = "noop" -> {f \in LeafForms(TRUE) \cup (IF x.d > 0 THEN BigForms(x.d) ELSE {}) : f[1].t # "^"}
    [] x.t = "operand" -> {<<N("term", x.d)>>} \cup (IF x.d > 0 THEN InfixForms(x.d - 1) ELSE {})

FirstN(f) == CHOOSE j \in DOMAIN f : ~Terminal(f[j]) /\ \A m \in 1..(j - 1) : Terminal(f[m])

Init == form = IF Mode = "tokens" THEN <<>>
               ELSE IF Mode = "tails" THEN <<N("task", 0)>>
               ELSE <<N("top", MaxDepth), T(".")>>
Rewrite == /\ Mode # "tokens" /\ ~Done(form)
           /\ LET j == FirstN(form) IN
              \E q \in Expansions(form[j]) : form' = SubSeq(form, 1, j - 1) \o q \o SubSeq(form, j + 1, Len(form))
AppendToken == /\ Mode = "tokens" /\ Len(form) < MaxLen
               /\ \E a \in Alphabet : form' = Append(form, T(a))
Next == Rewrite \/ AppendToken
Spec == Init /\ [][Next]_form

----------------------------------------------------------------------------
(* A printed form, as tokens: any order of the components of a set *)
RECURSIVE Sequenced(_)
Sequenced(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Sequenced(S \ {x})
RECURSIVE SepSeq(_, _)
SepSeq(qs, s) == IF qs = <<>> THEN <<>> ELSE IF Len(qs) = 1 THEN qs[1] ELSE qs[1] \o <<s>> \o SepSeq(Tail(qs), s)
RECURSIVE Shown(_)
Shown(t) ==
  CASE t.k = "atom" -> <<t.n>>
    [] t.k = "op" -> <<"^", SubSeq(t.n, 2, Len(t.n))>>
    [] t.k = "int" -> <<"+", ToString(t.i)>>
    [] IsVarKind(t.k) -> <<VarPrefix(t.k), ToString(t.i)>>
    [] IsOperationStmt(t) -> <<"(">> \o SepSeq(<<Shown(t.a[2])>> \o [j \in DOMAIN t.a[1].a |-> Shown(t.a[1].a[j])], ",") \o <<")">>
    [] t.k = "stmt" -> <<"<">> \o Shown(t.a[1]) \o <<t.n>> \o Shown(t.a[2]) \o <<">">>
    [] t.k = "cmp" ->
         LET q == IF t.a # <<>> THEN t.a ELSE Sequenced(t.s)
             inner == SepSeq([j \in DOMAIN q |-> Shown(q[j])], ",")
         IN CASE t.n = "{" -> <<"{">> \o inner \o <<"}">>
              [] t.n = "[" -> <<"[">> \o inner \o <<"]">>
              [] OTHER -> <<"(", t.n, ",">> \o inner \o <<")">>

RECURSIVE Shape(_)   \* what is left when variables are not told apart
Shape(t) == [k |-> t.k, n |-> t.n, i |-> IF IsVarKind(t.k) THEN 0 ELSE t.i, a |-> [j \in DOMAIN t.a |-> Shape(t.a[j])], s |-> {Shape(x) : x \in t.s}]
RECURSIVE Singleton(_)   \* some connector that needs two components has one
Singleton(t) == (t.k = "cmp" /\ t.n \in ConMulti /\ Cardinality(Kids(t)) < 2 /\ Len(t.a) < 2) \/ \E x \in Kids(t) : Singleton(x)
RECURSIVE NoEmptySet(_)   \* a sentence cannot name the empty set
NoEmptySet(t) == (t.k = "cmp" /\ Commutative(t.n) => t.s # {}) /\ \A x \in Kids(t) : NoEmptySet(x)
RECURSIVE VarNumbers(_, _)
VarNumbers(t, k) == IF t.k = k THEN {t.i} ELSE UNION {VarNumbers(x, k) : x \in Kids(t)}
Dense(t) == \A k \in Rng(VarKinds) : LET V == VarNumbers(t, k) IN V = 0..(Cardinality(V) - 1)

Meaning(d) == [term |-> Denote(d.ast), punct |-> d.punct, truth |-> Truth(d), budget |-> Budget(d),
               eternal |-> IsEternal(d), occurrence |-> Occurrence(d, 100)]

Show(tk, accepted) == Emit => PrintT("SENTENCE " \o ToJson([tk |-> tk, ok |-> accepted]))

Check ==
  Done(form) /\ form # <<>> =>
    LET tk == Tokens(form)
        D == Derivations(tk)
        M == {Meaning(d) : d \in D}
    IN /\ Mode # "tokens" => D # {}
       /\ Cardinality(M) <= 1
       /\ \A m \in M :
            /\ IsNormal(m.term) /\ NoEmptySet(m.term)
            /\ ~IsVarKind(m.term.k)
            \* merging sets can drop a variable, but numbers are never invented
            /\ \A k \in Rng(VarKinds) : VarNumbers(m.term, k) \subseteq 0..15
            /\ ~Singleton(m.term) =>
                 LET again == {Denote(d.ast) : d \in Derivations(Shown(m.term) \o <<m.punct>>)}
                 IN Cardinality(again) = 1 /\ \A x \in again : Shape(x) = Shape(m.term)
            /\ m.truth # <<>> <=> m.punct \in {".", "!"}
            /\ \A j \in 1..3 : m.budget[j] \in 0..1000000
       /\ Show(tk, D # {})
=============================================================================
