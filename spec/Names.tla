-------------------------------- MODULE Names --------------------------------
(***************************************************************************)
(* Dictionaries of named objects.  A dictionary maps names to entries      *)
(* [key, n, obj, own]: its key, how often it was put, the object (0: none) *)
(* and whether the object is an atom of that name, which lives only as     *)
(* long as somebody outside holds it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Without(f, X) == [y \in DOMAIN f \ X |-> f[y]]

Keys(d) == {d[x].key : x \in DOMAIN d}
NameOf(d, k) == CHOOSE x \in DOMAIN d : d[x].key = k
PutPair(d, name, key, obj, own) == IF name \in DOMAIN d THEN [d EXCEPT ![name].n = @ + 1] ELSE Put(d, name, [key |-> key, n |-> 1, obj |-> obj, own |-> own])
CountUp(d, name, times) == [d EXCEPT ![name].n = @ + times]
EraseKey(d, k) == IF k \notin Keys(d) THEN d
                  ELSE LET x == NameOf(d, k) IN IF d[x].n = 1 THEN Del(d, x) ELSE [d EXCEPT ![x].n = @ - 1]
RemoveKey(d, k) == IF k \notin Keys(d) THEN d ELSE Del(d, NameOf(d, k))
\* Names whose atom nobody holds any more disappear
Swept(d, held) == Without(d, {x \in DOMAIN d : d[x].own /\ d[x].obj \notin held})
CountOf(d, k) == IF k \in Keys(d) THEN d[NameOf(d, k)].n ELSE 0
=============================================================================
