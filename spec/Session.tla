------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A client of the term library: handles to terms, made, combined, cloned, *)
(* aliased, taken apart, renumbered and dropped in any order.              *)
(*                                                                         *)
(* A handle holds a term whose variables are *cells*: the field i of a     *)
(* variable is the number of a cell, and num[cell] the variable's current  *)
(* number, so that sharing and independence can be told apart.  Den gives  *)
(* the canonical term a handle denotes now.                                *)
(*                                                                         *)
(* With Track, the calls are recorded and printed at the end of each       *)
(* behaviour of length Steps, to be replayed into the real library.        *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS Slots, Words, Numbers, Kinds, SomeCopulas, SomeConnectors, MaxArgs, MaxSize, Steps, Renumber, Sharing, Track

VARIABLES slot, num, hist, steps, renumbered
vars == <<slot, num, hist, steps, renumbered>>
view == <<slot, num, renumbered>>

Held == DOMAIN slot
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

RECURSIVE DenIn(_, _)
DenIn(t, m) == IF IsVarKind(t.k) THEN Var(t.k, m[t.i])
               ELSE Node(t.k, t.n, t.i, [j \in DOMAIN t.a |-> DenIn(t.a[j], m)], {DenIn(x, m) : x \in t.s})
Den(t) == DenIn(t, num)
RECURSIVE Cells(_)
Cells(t) == (IF IsVarKind(t.k) THEN {t.i} ELSE {}) \cup UNION {Cells(x) : x \in Kids(t)}
RECURSIVE Names(_)
Names(t) == (IF t.k = "atom" THEN {t.n} ELSE {}) \cup UNION {Names(x) : x \in Kids(t)}

RECURSIVE Listed(_)
Listed(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listed(S \ {x})
\* A copy of a denoted term with a cell of its own for every variable: <<term, num with the new cells>>
RECURSIVE Fresh(_, _)
RECURSIVE FreshAll(_, _)
FreshAll(q, m) == IF q = <<>> THEN << <<>>, m >>
                  ELSE LET h == Fresh(Head(q), m)
                           r == FreshAll(Tail(q), h[2]) IN << <<h[1]>> \o r[1], r[2] >>
Fresh(t, m) ==
  IF IsVarKind(t.k) THEN << Var(t.k, Len(m) + 1), Append(m, t.i) >>
  ELSE IF t.s # {} THEN LET r == FreshAll(Listed(t.s), m) IN << Node(t.k, t.n, t.i, <<>>, Rng(r[1])), r[2] >>
  ELSE LET r == FreshAll(t.a, m) IN << Node(t.k, t.n, t.i, r[1], {}), r[2] >>

Log(c) == /\ hist' = IF Track THEN Append(hist, c) ELSE hist
          /\ steps' = IF Track THEN steps + 1 ELSE 0
Make(s, t, c) == LET f == Fresh(t, num) IN
  /\ Size(t) <= MaxSize
  /\ slot' = Put(slot, s, f[1]) /\ num' = f[2] /\ UNCHANGED renumbered /\ Log(c)

\* When behaviours are recorded, TLC need not enumerate every choice only to take one of them
Pick(S) == IF ~Track THEN S ELSE IF S = {} THEN {} ELSE {RandomElement(S)}

Word == \E s \in Pick(Slots), w \in Pick(Words) : Make(s, Atom(w), [op |-> "word", slot |-> s, name |-> w])
Variable == \E s \in Pick(Slots), k \in Pick(Kinds), i \in Pick(Numbers) : Make(s, Var(k, i), [op |-> "var", slot |-> s, kind |-> k, value |-> i])
Statement == \E s \in Pick(Slots), x \in Pick(Held), y \in Pick(Held), c \in Pick(SomeCopulas) :
               Make(s, Stmt(c, Den(slot[x]), Den(slot[y])), [op |-> "stmt", slot |-> s, copula |-> c, args |-> <<x, y>>])
Compound == \E s \in Pick(Slots), c \in Pick(SomeConnectors), n \in Pick(0..MaxArgs) : \E args \in Pick([1..n -> Held]) :
              /\ c \in {"-", "~"} => n = 2
              /\ c = "--" => n = 1
              /\ Make(s, Cmp(c, [j \in 1..n |-> Den(slot[args[j]])]), [op |-> "cmp", slot |-> s, connector |-> c, args |-> args])
\* Made the way the parser does it: of the given components themselves, not of copies
Shares(s, t, c) == /\ Sharing /\ Size(DenIn(t, num)) <= MaxSize
                   /\ slot' = Put(slot, s, t) /\ UNCHANGED <<num, renumbered>> /\ Log(c)
StatementIn == \E s \in Pick(Slots), x \in Pick(Held), y \in Pick(Held), c \in Pick(SomeCopulas) :
                 Shares(s, Stmt(c, slot[x], slot[y]), [op |-> "stmtin", slot |-> s, copula |-> c, args |-> <<x, y>>])
ProductIn == \E s \in Pick(Slots), n \in Pick(0..MaxArgs) : \E args \in Pick([1..n -> Held]) :
                 Shares(s, Cmp("*", [j \in 1..n |-> slot[args[j]]]), [op |-> "cmpin", slot |-> s, connector |-> "*", args |-> args])
\* Another statement or compound of the very same components
Shallow == \E s \in Pick(Slots), x \in Pick(Held) :
             /\ slot[x].k \in {"stmt", "cmp"}
             /\ Shares(s, slot[x], [op |-> "shallow", slot |-> s, of |-> x])
Clone == \E s \in Pick(Slots), x \in Pick(Held) : Make(s, Den(slot[x]), [op |-> "clone", slot |-> s, of |-> x])
Alias == \E s \in Pick(Slots), x \in Pick(Held) :
           /\ slot' = Put(slot, s, slot[x]) /\ UNCHANGED <<num, renumbered>>
           /\ Log([op |-> "alias", slot |-> s, of |-> x])
Sub == \E s \in Pick(Slots), x \in Pick(Held) : \E j \in Pick(DOMAIN slot[x].a) :
           /\ slot' = Put(slot, s, slot[x].a[j]) /\ UNCHANGED <<num, renumbered>>
           /\ Log([op |-> "sub", slot |-> s, of |-> x, nth |-> j])
SetVar == /\ Renumber
          /\ \E s \in Pick(Held), i \in Pick(Numbers) :
              /\ IsVarKind(slot[s].k)
              /\ num' = [num EXCEPT ![slot[s].i] = i] /\ renumbered' = TRUE /\ UNCHANGED slot
              /\ Log([op |-> "setvar", slot |-> s, value |-> i])
Drop == \E s \in Pick(Held) : slot' = Del(slot, s) /\ UNCHANGED <<num, renumbered>> /\ Log([op |-> "drop", slot |-> s])

Init == slot = [x \in {} |-> 0] /\ num = <<>> /\ hist = <<>> /\ steps = 0 /\ renumbered = FALSE
Finish == Track /\ steps = Steps /\ steps' = steps + 1 /\ UNCHANGED <<slot, num, hist, renumbered>>
Call == (Track => steps < Steps) /\ (Word \/ Variable \/ Statement \/ Compound \/ StatementIn \/ ProductIn \/ Shallow \/ Clone \/ Alias \/ Sub \/ SetVar \/ Drop)
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars

Bounded == Len(num) <= Steps

----------------------------------------------------------------------------
(* Properties of the design *)

\* P08: every term that can be made is in normal form (renumbering a variable by hand may undo that)
NormalForm == \A s \in Held : ~renumbered => IsNormal(Den(slot[s]))
\* ... and normalising is idempotent, and blind to order and repetition
RECURSIVE Again(_)
Again(t) == IF t.k = "cmp" THEN Cmp(t.n, IF Commutative(t.n) THEN Listed({Again(x) : x \in t.s}) ELSE [j \in DOMAIN t.a |-> Again(t.a[j])])
            ELSE Node(t.k, t.n, t.i, [j \in DOMAIN t.a |-> Again(t.a[j])], {})
Idempotent == \A s \in Held : ~renumbered => Again(Den(slot[s])) = Den(slot[s])
Blind == \A x, y \in Held : \A c \in SomeConnectors :
           Commutative(c) => LET a == Den(slot[x])
                                 b == Den(slot[y])
                             IN Cmp(c, <<a, b>>) = Cmp(c, <<b, a>>) /\ Cmp(c, <<a, b>>) = Cmp(c, <<a, b, a>>)
\* P08: combining is associative for the connectors that flatten
Associative == \A x, y, z \in Held : \A c \in SomeConnectors :
           Flattens(c) /\ c \notin {"&", "|"} =>
             LET a == Den(slot[x])
                 b == Den(slot[y])
                 d == Den(slot[z]) IN Cmp(c, <<Cmp(c, <<a, b>>), d>>) = Cmp(c, <<a, Cmp(c, <<b, d>>)>>)
\* P10: a call changes what other handles denote only if it renumbers a variable they hold
Independent == [][\A s \in Held \cap DOMAIN slot' :
                    slot'[s] = slot[s] /\ DenIn(slot[s], num') # Den(slot[s])
                      => \E c \in Cells(slot[s]) : num'[c] # num[c]]_vars
\* P10: a term just made shares no variable with any other handle, except where the call hands over the components themselves
Apart == [][\A s \in DOMAIN slot' : s \notin Held \/ slot'[s] # slot[s] =>
              \/ \A c \in Cells(slot'[s]) : c > Len(num)
              \/ IF Sharing THEN Cells(slot'[s]) \subseteq UNION {Cells(slot[x]) : x \in Held}
                 ELSE \E x \in Held : Cells(slot'[s]) \subseteq Cells(slot[x])]_vars
\* P07, P06: dropping every handle leaves nothing
Dictionary == UNION {Names(slot[s]) : s \in Held}
Closed == Dictionary \subseteq Words /\ (Held = {} => Dictionary = {})
\* P11: the size of a term is at least its complexity, and flags agree with where variables occur
Attributes == \A s \in Held : LET t == Den(slot[s]) IN
                /\ Complexity(t) <= Size(t) /\ Complexity(t) >= Cardinality(Names(t)) /\ (t.k # "cmp" => Complexity(t) >= 1)
                /\ HasVar(t) <=> Cells(slot[s]) # {}
                /\ IsOperationStmt(t) => ~IsHigherOrder(t)

Report == (Track /\ steps = Steps + 1) => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
