------------------------------ MODULE LogicLaws ------------------------------
(* The laws of copulas and connectors, over every combination of them *)
EXTENDS Logic

CONSTANT MaxCount
VARIABLE at      \* the copulas and connectors looked at, and a number of components
Init == at \in [c : Copulas, d : Copulas, k : AllConnectors, n : 0..MaxCount]
Next == UNCHANGED at
Spec == Init /\ [][Next]_at

OneRelationEach == Relation(at.c) = Relation(at.d) /\ Relation(at.c).dir # "short" => at.c = at.d
CommutesIsMutual == CopulaCommutes(at.c) => Symmetrized(at.c) = at.c
SymmetrizedTwice == LET s == Symmetrized(at.c) IN s # NoCopula => Symmetrized(s) = s /\ Temporal(s) = Temporal(at.c) /\ HigherOrder(s) = HigherOrder(at.c)
ReversedTwice == LET r == Reversed(at.c) IN r # NoCopula => Reversed(r) = at.c /\ Temporal(r) /\ HigherOrder(r) /\ Temporal(at.c)
TemporalIsHigher == Temporal(at.c) => HigherOrder(at.c)
AgreesWithTerms == (HigherOrder(at.c) <=> at.c \in HigherOrderCopulas) /\ (Temporal(at.c) <=> at.c \in TemporalCopulas)
CommutativeIsReducible == Commutative(at.k) => Reducible(at.k)
ArityIsOne == ~(SingleOnly(at.k) /\ MultipleOnly(at.k)) /\ (DoubleOnly(at.k) => MultipleOnly(at.k))
CountAgrees == /\ ValidCount(at.k, at.n) => at.n >= 1
               /\ ValidCount(at.k, at.n) <=> /\ at.n >= 1 /\ (SingleOnly(at.k) => at.n = 1)
                                             /\ (DoubleOnly(at.k) => at.n = 2) /\ (MultipleOnly(at.k) => at.n >= 2)
\* what merges components must not be bound to an exact number of them
ReducibleIsOpen == Reducible(at.k) => Arity(at.k) \in {"many", "any"}
=============================================================================
