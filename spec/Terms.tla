------------------------------- MODULE Terms -------------------------------
(***************************************************************************)
(* The term algebra of cNARS: what a Narsese term denotes.                 *)
(*                                                                         *)
(* A *canonical* term is a record [k, n, i, a, s]:                         *)
(*   k  kind: "atom" "op" "ivar" "dvar" "qvar" "int" "stmt" "cmp"          *)
(*   n  name of an atom/operation, copula of a statement, connector        *)
(*   i  value of an interval, number of a variable                         *)
(*   a  ordered components (statement: <<subject, predicate>>)             *)
(*   s  components of a commutative compound, as a set                     *)
(* so that TLA+ equality of canonical terms is equality of what the terms  *)
(* denote.  A *raw* term (what the implementation's projection function    *)
(* dumps) has the same fields without s: components in the stored order.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(q) == {q[j] : j \in DOMAIN q}

RECURSIVE FlatSeq(_)
FlatSeq(qs) == IF qs = <<>> THEN <<>> ELSE Head(qs) \o FlatSeq(Tail(qs))

RECURSIVE SumSeq(_)
SumSeq(q) == IF q = <<>> THEN 0 ELSE Head(q) + SumSeq(Tail(q))

\* Sum of the second components of a set of pairs
RECURSIVE SumPairs(_)
SumPairs(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] + SumPairs(S \ {x})

RECURSIVE JoinSeq(_, _)
JoinSeq(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o JoinSeq(Tail(q), sep)

----------------------------------------------------------------------------
(* Copulas and connectors *)

Copulas == {"-->", "<->", "{--", "--]", "{-]", "==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"}
HigherOrderCopulas == {"==>", "=/>", "=|>", "=\\>", "<=>", "</>", "<|>"}
TemporalCopulas == {"=/>", "=|>", "=\\>", "</>", "<|>"}

Connectors == {"&&", "||", "*", "&|", "&/", "|", "&", "-", "~", "--", "[", "{", "\\", "/"}
Commutative(c) == c \in {"&&", "||", "&|", "|", "&", "[", "{"}
Flattens(c) == Commutative(c) \/ c = "&/"

VarKinds == <<"ivar", "dvar", "qvar">>
IsVarKind(k) == k \in {"ivar", "dvar", "qvar"}
VarPrefix(k) == CASE k = "ivar" -> "$" [] k = "dvar" -> "#" [] k = "qvar" -> "?"

----------------------------------------------------------------------------
(* Canonical terms *)

Node(k, n, i, a, s) == [k |-> k, n |-> n, i |-> i, a |-> a, s |-> s]
Atom(n) == Node("atom", n, 0, <<>>, {})
Oper(n) == Node("op", n, 0, <<>>, {})
Intv(i) == Node("int", "", i, <<>>, {})
Var(k, i) == Node(k, "", i, <<>>, {})
Stmt(c, s, p) == Node("stmt", c, 0, <<s, p>>, {})
RawSet(c, S) == Node("cmp", c, 0, <<>>, S)

IsCmp(t, c) == t.k = "cmp" /\ t.n = c
IsSetTerm(t) == IsCmp(t, "{") \/ IsCmp(t, "[")

\* Components of a canonical term, as a set
Kids(t) == Rng(t.a) \cup t.s

(***************************************************************************)
(* Normal form of a compound.  Components with the same flattening         *)
(* connector are spliced in; a commutative compound has each component     *)
(* once; the sets among the components of an intersection are merged       *)
(*     (&,{a,b},{b,c}) = {b}     (&,[a],[b]) = [a,b]                       *)
(*     (|,{a},{b}) = {a,b}       (|,[a,b],[b,c]) = [b]                     *)
(* unless nothing would be left of them (so an empty set stays as it is,   *)
(* as a compound without components does); an intersection with one merged   *)
(* set as its only component is that set; everything else keeps its        *)
(* connector and its components whole.                                     *)
(***************************************************************************)
Intersects(c, setconn) == (c = "&" /\ setconn = "{") \/ (c = "|" /\ setconn = "[")
InterAll(SS) == {x \in UNION SS : \A Q \in SS : x \in Q}

MergeSets(c, setconn, S) ==
  LET G == {t \in S : IsCmp(t, setconn)}
      M == IF Intersects(c, setconn) THEN InterAll({t.s : t \in G}) ELSE UNION {t.s : t \in G}
  IN  IF G = {} \/ M = {} THEN S ELSE (S \ G) \cup {RawSet(setconn, M)}

NormSet(c, S0) ==
  LET S == UNION {IF IsCmp(t, c) THEN t.s ELSE {t} : t \in S0}
      M == IF c \in {"&", "|"} THEN MergeSets(c, "{", MergeSets(c, "[", S)) ELSE S
  IN  IF c \in {"&", "|"} /\ Cardinality(M) = 1 /\ (\A t \in M : IsSetTerm(t) /\ t.s # {})
      THEN CHOOSE t \in M : TRUE
      ELSE RawSet(c, M)

Cmp(c, args) ==
  IF Commutative(c) THEN NormSet(c, Rng(args))
  ELSE IF c = "&/" THEN Node("cmp", c, 0, FlatSeq([j \in DOMAIN args |-> IF IsCmp(args[j], c) THEN args[j].a ELSE <<args[j]>>]), {})
  ELSE Node("cmp", c, 0, args, {})

\* A statement as it is made from a copula; instance and property copulas are abbreviations
MkStmt(c, s, p) ==
  CASE c = "{--" -> Stmt("-->", Cmp("{", <<s>>), p)
    [] c = "--]" -> Stmt("-->", s, Cmp("[", <<p>>))
    [] c = "{-]" -> Stmt("-->", Cmp("{", <<s>>), Cmp("[", <<p>>))
    [] OTHER -> Stmt(c, s, p)

RECURSIVE Canon(_)
Canon(d) ==
  LET kids == [j \in DOMAIN d.a |-> Canon(d.a[j])]
  IN  IF d.k = "cmp" /\ Commutative(d.n) THEN Node("cmp", d.n, d.i, <<>>, Rng(kids))
      ELSE Node(d.k, d.n, d.i, kids, {})

\* A commutative compound stores each component once
RECURSIVE NoDup(_)
NoDup(d) == /\ (d.k = "cmp" /\ Commutative(d.n)) => Cardinality(Canon(d).s) = Len(d.a)
            /\ \A j \in DOMAIN d.a : NoDup(d.a[j])

\* A term that the normal form leaves alone, all the way down
RECURSIVE IsNormal(_)
IsNormal(t) ==
  /\ \A x \in Kids(t) : IsNormal(x)
  /\ t.k = "cmp" /\ Commutative(t.n) => NormSet(t.n, t.s) = t
  /\ t.k = "cmp" /\ t.n = "&/" => Cmp("&/", t.a) = t

----------------------------------------------------------------------------
(* Derived attributes *)

RECURSIVE Complexity(_)
Complexity(t) ==
  CASE t.k = "stmt" -> 1 + Complexity(t.a[1]) + Complexity(t.a[2])
    [] t.k = "cmp" -> SumSeq([j \in DOMAIN t.a |-> Complexity(t.a[j])]) + SumPairs({<<x, Complexity(x)>> : x \in t.s})
    [] OTHER -> 1

RECURSIVE HasVarOf(_, _)
HasVarOf(t, k) == t.k = k \/ \E x \in Kids(t) : HasVarOf(x, k)
HasVar(t) == \E k \in Rng(VarKinds) : HasVarOf(t, k)

IsOperationStmt(t) == t.k = "stmt" /\ t.n = "-->" /\ t.a[2].k = "op" /\ IsCmp(t.a[1], "*")
IsOperation(t) == t.k = "op" \/ IsOperationStmt(t)
IsHigherOrder(t) == t.k = "stmt" /\ t.n \in HigherOrderCopulas

RECURSIVE Size(_)
Size(t) == 1 + SumSeq([j \in DOMAIN t.a |-> Size(t.a[j])]) + SumPairs({<<x, Size(x)>> : x \in t.s})
RECURSIVE Depth(_)
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
Depth(t) == 1 + Max({0} \cup {Depth(x) : x \in Kids(t)})

\* Where the variables of one kind occur in a raw term: positions and their numbers, in stored order
RECURSIVE Occur(_, _)
Occur(d, k) ==
  IF d.k = k THEN << <<<<>>, d.i>> >>
  ELSE FlatSeq([j \in DOMAIN d.a |->
         LET o == Occur(d.a[j], k) IN [m \in DOMAIN o |-> << <<j - 1>> \o o[m][1], o[m][2] >>]])

\* Dense ranks of a sequence of numbers
Ranks(q) == [j \in DOMAIN q |-> Cardinality({x \in Rng(q) : x < q[j]})]

----------------------------------------------------------------------------
(* Printed form of a raw term (components in stored order) *)

RECURSIVE TermText(_)
TermText(d) ==
  CASE d.k \in {"atom", "op"} -> d.n
    [] d.k = "int" -> "+" \o ToString(d.i)
    [] IsVarKind(d.k) -> VarPrefix(d.k) \o ToString(d.i)
    [] d.k = "stmt" /\ IsOperationStmt(d) ->
         "(" \o JoinSeq(<<TermText(d.a[2])>> \o [j \in DOMAIN d.a[1].a |-> TermText(d.a[1].a[j])], ", ") \o ")"
    [] d.k = "stmt" -> "<" \o TermText(d.a[1]) \o " " \o d.n \o " " \o TermText(d.a[2]) \o ">"
    [] d.k = "cmp" ->
         LET inner == [j \in DOMAIN d.a |-> TermText(d.a[j])]
         IN CASE d.n = "{" -> "{" \o JoinSeq(inner, ", ") \o "}"
              [] d.n = "[" -> "[" \o JoinSeq(inner, ", ") \o "]"
              [] OTHER -> "(" \o d.n \o ", " \o JoinSeq(inner, ", ") \o ")"
    [] OTHER -> "?"

=============================================================================
