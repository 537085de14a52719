-------------------------------- MODULE Logic --------------------------------
(***************************************************************************)
(* Copulas and connectors: what kind of relation each of them stands for,  *)
(* and from that every classification and mapping the library offers.      *)
(* The laws that tie them together are in LogicLaws.                       *)
(***************************************************************************)
EXTENDS Terms

(* A copula: between terms or between statements; one-way, mutual, or an   *)
(* abbreviation; and how the events of its two sides lie in time.          *)
Rel(level, dir, time) == [level |-> level, dir |-> dir, time |-> time]
Relation(c) ==
  CASE c = "-->" -> Rel(1, "one-way", "none")    [] c = "<->" -> Rel(1, "mutual", "none")
    [] c = "{--" -> Rel(1, "short", "none")      [] c = "--]" -> Rel(1, "short", "none")     [] c = "{-]" -> Rel(1, "short", "none")
    [] c = "==>" -> Rel(2, "one-way", "none")    [] c = "<=>" -> Rel(2, "mutual", "none")
    [] c = "=/>" -> Rel(2, "one-way", "before")  [] c = "</>" -> Rel(2, "mutual", "before")
    [] c = "=|>" -> Rel(2, "one-way", "same")    [] c = "<|>" -> Rel(2, "mutual", "same")
    [] c = "=\\>" -> Rel(2, "one-way", "after")

NoCopula == "none"
The(S) == IF S = {} THEN NoCopula ELSE CHOOSE c \in S : TRUE

HigherOrder(c) == Relation(c).level = 2
Temporal(c) == Relation(c).time # "none"
\* a mutual relation whose sides may be exchanged: not when one side is the earlier one
CopulaCommutes(c) == Relation(c).dir = "mutual" /\ Relation(c).time \in {"none", "same"}
\* the mutual relation of the same level and time; abbreviations and the backward implication have none
Symmetrized(c) == IF Relation(c).dir = "short" THEN NoCopula
                  ELSE The({x \in Copulas : Relation(x) = [Relation(c) EXCEPT !.dir = "mutual"]})
\* the same relation seen from its other side in time
Mirror(t) == CASE t = "before" -> "after" [] t = "after" -> "before" [] OTHER -> t
Reversed(c) == IF ~Temporal(c) THEN NoCopula
               ELSE The({x \in Copulas : Relation(x) = [Relation(c) EXCEPT !.time = Mirror(@)]})

AllConnectors == Connectors \cup {"#"}
Reducible(c) == Flattens(c)
TemporalConnector(c) == c \in {"&|", "&/"}
Arity(c) == CASE c = "--" -> "one" [] c \in {"-", "~"} -> "two" [] c \in {"&&", "||", "*", "&|", "&/", "|", "&", "\\", "/"} -> "many" [] OTHER -> "any"
SingleOnly(c) == Arity(c) = "one"
DoubleOnly(c) == Arity(c) = "two"
MultipleOnly(c) == Arity(c) \in {"two", "many"}
ValidCount(c, n) == CASE Arity(c) = "one" -> n = 1 [] Arity(c) = "two" -> n = 2 [] Arity(c) = "many" -> n >= 2 [] OTHER -> n >= 1

=============================================================================
