------------------------------ MODULE IndexTree ------------------------------
(***************************************************************************)
(* Trees of variable positions.  A node either has successors or           *)
(* occurrences of its own; an occurrence is a path and a cell holding the  *)
(* number of a variable.  What a node lists follows from the leaves below. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Leaf == [succ |-> <<>>, own |-> <<>>]

\* nodes -> the occurrences a node lists, each [path, cell]
RECURSIVE Lists(_, _), Below(_, _, _)
Below(nodes, q, j) ==
  IF j > Len(q) THEN <<>>
  ELSE LET r == Lists(nodes, q[j]) IN [k \in 1..Len(r) |-> [path |-> <<j - 1>> \o r[k].path, cell |-> r[k].cell]] \o Below(nodes, q, j + 1)
Lists(nodes, x) == IF nodes[x].succ = <<>> THEN nodes[x].own ELSE Below(nodes, nodes[x].succ, 1)

RECURSIVE Reach(_, _), ReachAll(_, _)
Reach(nodes, x) == {x} \cup ReachAll(nodes, nodes[x].succ)
ReachAll(nodes, q) == IF q = <<>> THEN {} ELSE Reach(nodes, Head(q)) \cup ReachAll(nodes, Tail(q))
Above(nodes, x) == {y \in DOMAIN nodes : x \in Reach(nodes, y)}

\* the node at a path
RECURSIVE At(_, _, _)
At(nodes, x, path) == IF path = <<>> THEN x ELSE At(nodes, nodes[x].succ[Head(path) + 1], Tail(path))
RECURSIVE Paths(_, _)
Paths(nodes, x) == IF nodes[x].succ = <<>> THEN {<<>>} ELSE UNION {{<<j - 1>> \o p : p \in Paths(nodes, nodes[x].succ[j])} : j \in DOMAIN nodes[x].succ}

\* the rank of each number among those that occur
Norm(v) == [k \in DOMAIN v |-> Cardinality({v[j] : j \in {j \in DOMAIN v : v[j] < v[k]}})]
Numbers(cells, q) == [k \in DOMAIN q |-> cells[q[k].cell]]

\* -- which nodes are up to date
\* Building again brings everything below up to date; building only what is not built does where the rest already is
RECURSIVE Build(_, _, _), BuildAll(_, _, _)
BuildAll(nodes, s, q) == IF q = <<>> THEN s ELSE BuildAll(nodes, Build(nodes, s, Head(q)), Tail(q))
Build(nodes, s, x) ==
  IF x \in s.built THEN s
  ELSE LET r == BuildAll(nodes, s, nodes[x].succ)
           fine == \A j \in DOMAIN nodes[x].succ : nodes[x].succ[j] \in r.cur
       IN [built |-> r.built \cup {x}, cur |-> IF fine THEN r.cur \cup {x} ELSE r.cur \ {x}]
Rebuild(nodes, s, x) == [built |-> s.built \cup Reach(nodes, x), cur |-> s.cur \cup Reach(nodes, x)]
\* Connecting spoils what is above, and the father unless it takes over the positions
Connected(nodes, s, f, son, take) ==
  LET up == Above(nodes, f) \ {f} IN
  [built |-> s.built \ {f}, cur |-> (s.cur \ up) \ (IF take /\ f \in s.cur /\ son \in s.cur THEN {} ELSE {f})]
\* A change at a node made through an ancestor spoils everything above; the node where it is made by itself stays
Touched(nodes, s, root, x) == [s EXCEPT !.cur = @ \ (Above(nodes, x) \ (IF root = x THEN {x} ELSE {}))]
Spoilt(nodes, s, cell) == [s EXCEPT !.cur = @ \ {y \in DOMAIN nodes : \E o \in {Lists(nodes, y)[k] : k \in DOMAIN Lists(nodes, y)} : o.cell = cell}]
=============================================================================
