------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* Narsese as a language: from a sequence of tokens to the sentence it     *)
(* denotes, or to nothing.  Derivations(tk) is the set of all derivations  *)
(* of the grammar (Narsese/Parser/narsese.par) for the token sequence, by  *)
(* dynamic programming from the last token to the first.  "(^op" always    *)
(* begins an operation.                                                    *)
(***************************************************************************)
EXTENDS Terms

Ch(s, j) == SubSeq(s, j, j)
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
Special == {"-", "+", "<", ">", "=", "\"", "&", "|", "!", ".", "?", "@", "~", "%", ";", ",", ":", "/", "\\",
            "*", "#", "$", "[", "]", "{", "}", "(", ")", "^", " "}

DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
                 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9
AllIn(s, from, to, C) == \A j \in from..to : Ch(s, j) \in C

IsBareWord(s) == Len(s) > 0 /\ \A j \in 1..Len(s) : Ch(s, j) \notin Special
IsQuoted(s) == Len(s) >= 2 /\ Ch(s, 1) = "\"" /\ Ch(s, Len(s)) = "\"" /\ \A j \in 2..(Len(s) - 1) : Ch(s, j) \notin {"\"", "\\"}
IsWord(s) == IsBareWord(s) \/ IsQuoted(s)

IsInteger(s) == LET from == IF Len(s) > 0 /\ Ch(s, 1) = "-" THEN 2 ELSE 1
                IN Len(s) >= from /\ AllIn(s, from, Len(s), Digits)
RECURSIVE NatVal(_)
NatVal(s) == IF s = "" THEN 0 ELSE 10 * NatVal(SubSeq(s, 1, Len(s) - 1)) + DigitVal(Ch(s, Len(s)))
IntVal(s) == IF Ch(s, 1) = "-" THEN 0 - NatVal(SubSeq(s, 2, Len(s))) ELSE NatVal(s)

\* Position of the decimal point if the literal is [0].digits
FracFrom(s) == IF Len(s) >= 2 /\ Ch(s, 1) = "." THEN 2
               ELSE IF Len(s) >= 3 /\ Ch(s, 1) = "0" /\ Ch(s, 2) = "." THEN 3 ELSE 0
IsFraction(s) == FracFrom(s) > 0 /\ AllIn(s, FracFrom(s), Len(s), Digits)
\* [0,1]
IsUnit(s) == \/ s \in {"0", "1"}
             \/ IsFraction(s)
             \/ (Len(s) >= 2 /\ SubSeq(s, 1, 2) = "1." /\ AllIn(s, 3, Len(s), {"0"}))
\* (0,1)
IsOpenUnit(s) == IsFraction(s) /\ \E j \in FracFrom(s)..Len(s) : Ch(s, j) # "0"
IsEvidential(s) == Len(s) > 0 /\ AllIn(s, 1, Len(s), Digits) /\ Ch(s, 1) # "0"

\* Millionths
Micro(s) == IF s = "0" THEN 0 ELSE IF Ch(s, 1) = "1" THEN 1000000
            ELSE LET d == SubSeq(s, FracFrom(s), Len(s))
                     d6 == IF Len(d) >= 6 THEN SubSeq(d, 1, 6) ELSE d \o SubSeq("000000", 1, 6 - Len(d))
                 IN NatVal(d6)

----------------------------------------------------------------------------
(* Syntax trees: as canonical terms, but with ordered components, copulas  *)
(* as written, and variables by name.                                      *)

Ast(k, n, i, a) == [k |-> k, n |-> n, i |-> i, a |-> a]
AOp(tk, j) == Ast("op", "^" \o tk[j], 0, <<>>)
AOpStmt(op, args) == Ast("stmt", "-->", 0, <<Ast("cmp", "*", 0, args), op>>)

ConMulti == {"&&", "||", "&|", "&/", "|", "&"}
InfixMulti == ConMulti \cup {"*"}
ConSingle == {"-", "~"}
Prefixes == {"$", "#", "?"}
KindOfPrefix(p) == CASE p = "$" -> "ivar" [] p = "#" -> "dvar" [] p = "?" -> "qvar"
Puncts == {".", "?", "!", "@"}

\* Derivations of everything that starts at each position, from the right end.
\* T[j] = [v |-> variables, t |-> other terms] at j; each a set of <<next position, tree>>
Table(tk) ==
  LET n == Len(tk)
      At(j) == IF j <= n THEN tk[j] ELSE ""
      WordAt == [j \in 1..n |-> IsWord(tk[j])]
      IsW(j) == j <= n /\ WordAt[j]
      TermAt(T, j) == IF j <= n THEN T[j].v \cup T[j].t ELSE {}
      RECURSIVE More(_, _)      \* ("," term)* : set of <<next, trees>>
      More(T, j) == {<<j, <<>>>>} \cup
                    (IF At(j) # "," THEN {}
                     ELSE UNION {{<<r[1], <<x[2]>> \o r[2]>> : r \in More(T, x[1])} : x \in TermAt(T, j + 1)})
      \* lists that end in the closing token
      Closed(T, j, close) == {<<r[1] + 1, r[2]>> : r \in {q \in More(T, j) : At(q[1]) = close}}
      RECURSIVE Chain(_, _, _)  \* (c term)* as long as it goes
      Chain(T, j, c) == IF At(j) # c THEN {<<j, <<>>>>}
                        ELSE UNION {{<<r[1], <<x[2]>> \o r[2]>> : r \in Chain(T, x[1], c)} : x \in TermAt(T, j + 1)}
      Infix(T, j) == UNION {LET c == At(x[1]) IN
                              IF c \in InfixMulti
                              THEN {<<r[1], Ast("cmp", c, 0, <<x[2]>> \o r[2])>> : r \in Chain(T, x[1], c)}
                              ELSE {}
                            : x \in TermAt(T, j)}
      Operand(T, j) == TermAt(T, j) \cup Infix(T, j)
      StmtFrom(T, j, close) ==
        UNION {IF At(x[1]) \in Copulas
               THEN {<<y[1] + 1, Ast("stmt", At(x[1]), 0, <<x[2], y[2]>>)>> : y \in {z \in TermAt(T, x[1] + 1) : At(z[1]) = close}}
               ELSE {}
               : x \in TermAt(T, j)}
      ListFrom(T, j, close) ==    \* term ("," term)* close
        UNION {{<<r[1], <<x[2]>> \o r[2]>> : r \in Closed(T, x[1], close)} : x \in TermAt(T, j)}
      Paren(T, j) ==              \* after "(" at j - 1
        LET c == At(j) IN
        \* statement, new notation
        StmtFrom(T, j, ")")
        \* operation
        \cup (IF c = "^" /\ IsW(j + 1)
              THEN {<<r[1], AOpStmt(AOp(tk, j + 1), r[2])>> : r \in Closed(T, j + 2, ")")} ELSE {})
        \* prefix connectors
        \cup (IF c \in ConMulti /\ At(j + 1) = ","
              THEN {<<r[1], Ast("cmp", c, 0, r[2])>> : r \in {q \in ListFrom(T, j + 2, ")") : Len(q[2]) >= 2}} ELSE {})
        \cup (IF c \in {"*", "\\", "/"} /\ At(j + 1) = ","
              THEN {<<r[1], Ast("cmp", c, 0, r[2])>> : r \in ListFrom(T, j + 2, ")")} ELSE {})
        \cup (IF c = "--" /\ At(j + 1) = ","
              THEN {<<x[1] + 1, Ast("cmp", "--", 0, <<x[2]>>)>> : x \in {z \in TermAt(T, j + 2) : At(z[1]) = ")"}} ELSE {})
        \cup (IF c \in ConSingle /\ At(j + 1) = ","
              THEN UNION {{<<y[1] + 1, Ast("cmp", c, 0, <<x[2], y[2]>>)>> : y \in {z \in Operand(T, x[1] + 1) : At(z[1]) = ")"}}
                          : x \in {z \in Operand(T, j + 2) : At(z[1]) = ","}} ELSE {})
        \* infix
        \cup {<<x[1] + 1, x[2]>> : x \in {z \in Infix(T, j) : At(z[1]) = ")"}}
        \cup UNION {{<<y[1] + 1, Ast("cmp", At(x[1]), 0, <<x[2], y[2]>>)>> : y \in {z \in Operand(T, x[1] + 1) : At(z[1]) = ")"}}
                    : x \in {z \in Operand(T, j) : At(z[1]) \in ConSingle}}
        \* product, new notation
        \cup {<<r[1], Ast("cmp", "*", 0, r[2])>> : r \in {q \in ListFrom(T, j, ")") : Len(q[2]) >= 2 /\ q[2][1].k # "op"}}
      OpArgs(T, j) == ListFrom(T, j, ")")
      NonVar(T, j) ==
        LET c == tk[j] IN
        CASE c = "+" -> IF j < n /\ IsInteger(tk[j + 1]) THEN {<<j + 2, Ast("int", "", IntVal(tk[j + 1]), <<>>)>>} ELSE {}
          [] c = "^" -> IF IsW(j + 1) THEN {<<j + 2, AOp(tk, j + 1)>>} ELSE {}
          [] c = "--" -> {<<x[1], Ast("cmp", "--", 0, <<x[2]>>)>> : x \in TermAt(T, j + 1)}
          [] c = "[" -> {<<r[1], Ast("cmp", "[", 0, r[2])>> : r \in ListFrom(T, j + 1, "]")}
          [] c = "{" -> {<<r[1], Ast("cmp", "{", 0, r[2])>> : r \in ListFrom(T, j + 1, "}")}
          [] c = "<" -> StmtFrom(T, j + 1, ">")
          [] c = "(" -> Paren(T, j + 1)
          [] WordAt[j] -> {<<j + 1, Ast("atom", c, 0, <<>>)>>}
                          \cup (IF At(j + 1) = "(" THEN {<<r[1], AOpStmt(AOp(tk, j), r[2])>> : r \in OpArgs(T, j + 2)} ELSE {})
          [] OTHER -> {}
      RECURSIVE Build(_, _)
      Build(j, T) ==
        IF j = 0 THEN T
        ELSE LET e == [v |-> IF tk[j] \in Prefixes /\ IsW(j + 1)
                             THEN {<<j + 2, Ast(KindOfPrefix(tk[j]), tk[j + 1], 0, <<>>)>>} ELSE {},
                       t |-> NonVar(T, j)]
             IN Build(j - 1, [T EXCEPT ![j] = e])
  IN Build(n, [j \in 1..n |-> [v |-> {}, t |-> {}]])

\* number (";" number (";" number)?)? close, with one test per position: set of <<next, literals>>
Numbers(tk, j, close, Test(_, _)) ==
  LET n == Len(tk)
      At(m) == IF m <= n THEN tk[m] ELSE ""
      one == j <= n /\ Test(1, tk[j])
      two == one /\ At(j + 1) = ";" /\ j + 2 <= n /\ Test(2, tk[j + 2])
      three == two /\ At(j + 3) = ";" /\ j + 4 <= n /\ Test(3, tk[j + 4])
  IN (IF one /\ At(j + 1) = close THEN {<<j + 2, <<tk[j]>>>>} ELSE {})
     \cup (IF two /\ At(j + 3) = close THEN {<<j + 4, <<tk[j], tk[j + 2]>>>>} ELSE {})
     \cup (IF three /\ At(j + 5) = close THEN {<<j + 6, <<tk[j], tk[j + 2], tk[j + 4]>>>>} ELSE {})
BudgetTest(m, s) == CASE m = 1 -> IsUnit(s) [] m = 2 -> IsOpenUnit(s) [] m = 3 -> IsUnit(s)
TruthTest(m, s) == CASE m = 1 -> IsUnit(s) [] m = 2 -> IsOpenUnit(s) [] m = 3 -> IsEvidential(s)

Tenses(tk, j) ==
  LET n == Len(tk)
      At(m) == IF m <= n THEN tk[m] ELSE "" IN
  {<<j, "", 0>>}
  \cup (IF At(j) \in {":/:", ":|:", ":\\:"} THEN {<<j + 1, At(j), 0>>} ELSE {})
  \cup (IF At(j) = ":!" /\ j + 1 <= n /\ IsInteger(tk[j + 1]) /\ At(j + 2) = ":" THEN {<<j + 3, ":!", IntVal(tk[j + 1])>>} ELSE {})

Derivations(tk) ==
  LET n == Len(tk)
      T == Table(tk)
      At(m) == IF m <= n THEN tk[m] ELSE ""
      starts == {<<1, <<>>>>} \cup (IF At(1) = "$" THEN Numbers(tk, 2, "$", BudgetTest) ELSE {})
  IN UNION {UNION {
       LET p == At(x[1]) IN
       IF p \notin Puncts THEN {}
       ELSE UNION {
         LET truths == {<<te[1], <<>>>>} \cup (IF p \in {".", "!"} /\ At(te[1]) = "%" THEN Numbers(tk, te[1] + 1, "%", TruthTest) ELSE {})
         IN {[ast |-> x[2], punct |-> p, budget |-> b[2], tense |-> te[2], time |-> te[3], truth |-> tr[2]]
             : tr \in {z \in truths : z[1] = n + 1}}
         : te \in Tenses(tk, x[1] + 1)}
       : x \in IF b[1] <= n THEN T[b[1]].t ELSE {}}
     : b \in starts}

----------------------------------------------------------------------------
(* What a derivation denotes *)

RECURSIVE VarNames(_, _)
VarNames(ast, k) == IF ast.k = k THEN <<ast.n>> ELSE FlatSeq([j \in DOMAIN ast.a |-> VarNames(ast.a[j], k)])
RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>>
               ELSE LET r == Distinct(SubSeq(q, 1, Len(q) - 1)) IN IF q[Len(q)] \in Rng(r) THEN r ELSE Append(r, q[Len(q)])
IndexIn(q, x) == CHOOSE j \in DOMAIN q : q[j] = x

\* ord[k]: names of the variables of kind k in order of their first occurrence
RECURSIVE DenoteIn(_, _)
DenoteIn(ast, ord) ==
  CASE ast.k = "atom" -> Atom(ast.n)
    [] ast.k = "op" -> Oper(ast.n)
    [] ast.k = "int" -> Intv(ast.i)
    [] IsVarKind(ast.k) -> Var(ast.k, IndexIn(ord[ast.k], ast.n) - 1)
    [] ast.k = "stmt" -> MkStmt(ast.n, DenoteIn(ast.a[1], ord), DenoteIn(ast.a[2], ord))
    [] ast.k = "cmp" -> Cmp(ast.n, [j \in DOMAIN ast.a |-> DenoteIn(ast.a[j], ord)])
Denote(ast) == DenoteIn(ast, [k \in Rng(VarKinds) |-> Distinct(VarNames(ast, k))])

\* Millionths; -1 where the sentence says nothing
TruthOf(d) == [j \in 1..3 |-> IF j > Len(d.truth) THEN 0 - 1
                              ELSE IF j = 3 THEN NatVal(d.truth[3]) * 1000000 ELSE Micro(d.truth[j])]
BudgetOf(d) == [j \in 1..3 |-> IF j > Len(d.budget) THEN 0 - 1 ELSE Micro(d.budget[j])]

(* The configuration: values for what a sentence leaves out (millionths; cj, cg: the confidence of judgements and goals), and the duration *)
DefaultConfig == [f |-> 1000000, c |-> 900000, cj |-> 900000, cg |-> 900000, k |-> 1000000, p |-> 800000, d |-> 800000, q |-> 500000,
                  judgement |-> 500000, goal |-> 900000, question |-> 900000, quest |-> 900000, duration |-> 5]

(* Truth and budget of the sentence, in millionths, with the documented defaults *)
TruthIn(cfg, d) == LET t == TruthOf(d) IN
  IF d.punct \notin {".", "!"} THEN <<>>
  ELSE <<IF t[1] < 0 THEN cfg.f ELSE t[1], IF t[2] < 0 THEN cfg.c ELSE t[2], IF t[3] < 0 THEN cfg.k ELSE t[3]>>
Truth(d) == TruthIn(DefaultConfig, d)
\* A truth that states no confidence takes that of its kind of sentence; where there is no truth at all the general one will do, too
Readings(cfg, d) == LET kind == [cfg EXCEPT !.c = IF d.punct = "." THEN cfg.cj ELSE cfg.cg] IN
  IF d.truth = <<>> THEN {cfg, kind} ELSE {kind}
MaxOf(x, y) == IF x > y THEN x ELSE y
\* quality of a truth value: max(e, 3/4 (1 - e)) where e = c (f - 1/2) + 1/2  (c and f to a thousandth)
Expect(f, c) == ((c \div 1000) * ((f - 500000) \div 1000)) + 500000
Quality(f, c) == LET e == Expect(f, c) IN MaxOf(e, (3 * (1000000 - e)) \div 4)
BudgetIn(cfg, d) ==
  IF d.budget = <<>> THEN <<cfg.p, cfg.d, cfg.q>>
  ELSE LET b == BudgetOf(d)
           tr == TruthIn(cfg, d)
       IN <<b[1],
            IF b[2] >= 0 THEN b[2] ELSE CASE d.punct = "." -> cfg.judgement [] d.punct = "!" -> cfg.goal [] d.punct = "?" -> cfg.question [] d.punct = "@" -> cfg.quest,
            IF b[3] >= 0 THEN b[3] ELSE IF d.punct \in {".", "!"} THEN Quality(tr[1], tr[2]) ELSE 1000000>>
Budget(d) == BudgetIn(DefaultConfig, d)

\* Occurrence time relative to the clock; "eternal" without a tense
IsEternal(d) == d.tense = ""
OccurrenceIn(cfg, d, now) == CASE d.tense = ":!" -> d.time [] d.tense = ":/:" -> now + cfg.duration
                               [] d.tense = ":\\:" -> now - cfg.duration [] d.tense = ":|:" -> now [] OTHER -> now
Occurrence(d, now) == OccurrenceIn(DefaultConfig, d, now)
MarkIn(cfg, eternal, occ, now) == IF eternal THEN "" ELSE IF occ >= now + cfg.duration THEN ":/:" ELSE IF occ <= now - cfg.duration THEN ":\\:" ELSE ":|:"
TenseMark(eternal, occ, now) == MarkIn(DefaultConfig, eternal, occ, now)

----------------------------------------------------------------------------
(* Printed sentences.  Numbers are printed to 2 or 3 decimals; a tie may be *)
(* rounded either way.                                                      *)
Pad(s, w) == IF Len(s) >= w THEN s ELSE SubSeq("000000", 1, w - Len(s)) \o s
Decimals(v, unit, w) ==   \* v millionths, in units of `unit` millionths, w decimals
  LET lo == v \div unit
      r == v % unit
      cands == IF 2 * r < unit - 2 THEN {lo} ELSE IF 2 * r > unit + 2 THEN {lo + 1} ELSE {lo, lo + 1}
      one == 1000000 \div unit
  IN {ToString(x \div one) \o "." \o Pad(ToString(x % one), w) : x \in cands}
Fmt2(v) == UNION {Decimals(x, 10000, 2) : x \in {1000 * q : q \in LET lo == v \div 1000
                                                                     r == v % 1000
                                                                 IN IF r < 499 THEN {lo} ELSE IF r > 501 THEN {lo + 1} ELSE {lo, lo + 1}}}
Fmt3(v) == Decimals(v, 1000, 3)

SentenceTexts(termtext, punct, mark, truth) ==
  LET head == termtext \o punct \o " " \o (IF mark = "" THEN "" ELSE mark \o " ")
  IN IF punct \in {".", "!"} /\ truth # <<>>
     THEN {head \o "%" \o f \o ";" \o c \o "%" : <<f, c>> \in Fmt3(truth[1]) \X Fmt3(truth[2])}
     ELSE {head}
TaskTexts(sentence, b) ==
  {"$" \o p \o ";" \o u \o ";" \o q \o "$ " \o sentence : <<p, u, q>> \in Fmt2(b[1]) \X Fmt2(b[2]) \X Fmt2(b[3])}
=============================================================================
