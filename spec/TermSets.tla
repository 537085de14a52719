-------------------------------- MODULE TermSets --------------------------------
(***************************************************************************)
(* Containers of components: a client makes, extends, copies and combines  *)
(* containers, commutative ones (each equal term once) and ordered ones    *)
(* (exactly the sequence).  Different handles may hold equal terms.        *)
(***************************************************************************)
EXTENDS Terms, Json

CONSTANTS Slots, MaxArgs, MaxLen, Steps, Track
VARIABLES bag, hist, steps
vars == <<bag, hist, steps>>
view == bag

\* The handles and the terms they hold; some hold equal terms that are different objects
Handles == {"a", "b", "s1", "s2", "v1", "v2", "p1", "p2"}
Holds(h) == CASE h \in {"a", "b"} -> Atom(h)
              [] h \in {"s1", "s2"} -> Cmp("{", <<Atom("a"), Atom("b")>>)
              [] h \in {"v1", "v2"} -> Var("ivar", 0)
              [] h \in {"p1", "p2"} -> Cmp("*", <<Var("ivar", 0), Atom("a")>>)

Made == DOMAIN bag
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Pick(S) == IF ~Track THEN S ELSE IF S = {} THEN {} ELSE {RandomElement(S)}
Log(c) == /\ hist' = IF Track THEN Append(hist, c) ELSE hist
          /\ steps' = IF Track THEN steps + 1 ELSE 0

\* q: a sequence of terms.  A commutative container forgets their order and repetition
Bag(comm, q) == [comm |-> comm, set |-> IF comm THEN Rng(q) ELSE {}, seq |-> IF comm THEN <<>> ELSE q]
Content(b) == IF b.comm THEN b.set ELSE Rng(b.seq)
Size_(b) == IF b.comm THEN Cardinality(b.set) ELSE Len(b.seq)
RECURSIVE Listing(_)
Listing(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o Listing(S \ {x})
AsSeq(b) == IF b.comm THEN Listing(b.set) ELSE b.seq

Set(s, b, c) == Size_(b) <= MaxLen /\ bag' = Put(bag, s, b) /\ Log(c)
Make == \E s \in Pick(Slots), comm \in Pick(BOOLEAN), n \in Pick(0..MaxArgs), op \in Pick({"tmake", "tlist"}) : \E args \in Pick([1..n -> Handles]) :
          Set(s, Bag(comm, [j \in 1..n |-> Holds(args[j])]), [op |-> op, slot |-> s, commutative |-> comm, args |-> args])
Push == \E s \in Pick(Made), h \in Pick(Handles) :
          Set(s, Bag(bag[s].comm, Append(AsSeq(bag[s]), Holds(h))), [op |-> "tpush", slot |-> s, args |-> <<h>>])
\* An ordered copy of a commutative container has its members in some order
Copy == \E s \in Pick(Slots), x \in Pick(Made), comm \in Pick(BOOLEAN) :
          /\ bag[x].comm => comm
          /\ Set(s, Bag(comm, AsSeq(bag[x])), [op |-> "tcopy", slot |-> s, commutative |-> comm, of |-> x])

Union(q) == UNION Rng(q)
Meet(q) == {x \in Union(q) : \A j \in DOMAIN q : x \in q[j]}
Less(q) == {x \in q[1] : \A j \in 2..Len(q) : x \notin q[j]}
Combined(op, q) == CASE op = "tunion" -> Union(q) [] op = "tinter" -> Meet(q) [] op = "tdiff" -> Less(q)
Combine == \E s \in Pick(Slots), op \in Pick({"tunion", "tinter", "tdiff"}), n \in Pick(1..MaxArgs) : \E args \in Pick([1..n -> Made]) :
             LET refused == \E j \in 1..n : ~bag[args[j]].comm
                 c == [op |-> op, slot |-> s, args |-> args]
             IN IF refused THEN bag' = bag /\ Log(c)
                ELSE Set(s, Bag(TRUE, Listing(Combined(op, [j \in 1..n |-> bag[args[j]].set]))), c)
Walk == \E s \in Pick(Made) : bag' = bag /\ Log([op |-> "titer", slot |-> s])
Show == \E s \in Pick(Made) : bag' = bag /\ Log([op |-> "tshow", slot |-> s])

Init == bag = [x \in {} |-> 0] /\ hist = <<>> /\ steps = 0
Finish == Track /\ steps = Steps /\ steps' = steps + 1 /\ UNCHANGED <<bag, hist>>
Next == ((Track => steps < Steps) /\ (Make \/ Push \/ Copy \/ Combine \/ Walk \/ Show)) \/ Finish
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Sets == {s \in Made : bag[s].comm}
\* Each equal term once, whatever the order it came in
OnceEach == \A s \in Sets : \A h \in Handles : LET q == AsSeq(bag[s]) IN
              /\ Bag(TRUE, Append(q, Holds(h))) = Bag(TRUE, <<Holds(h)>> \o q)
              /\ Holds(h) \in bag[s].set => Bag(TRUE, Append(q, Holds(h))) = bag[s]
\* Operations on many operands are the binary ones, one after another
Folded == \A x, y, z \in Sets : LET a == bag[x].set
                                    b == bag[y].set
                                    c == bag[z].set IN
            \A op \in {"tunion", "tinter", "tdiff"} : Combined(op, <<a, b, c>>) = Combined(op, <<Combined(op, <<a, b>>), c>>)
\* The laws of sets
Algebra == \A x, y, z \in Sets : LET a == bag[x].set
                                     b == bag[y].set
                                     c == bag[z].set IN
            /\ Union(<<a, b>>) = Union(<<b, a>>) /\ Meet(<<a, b>>) = Meet(<<b, a>>)
            /\ Union(<<a, a>>) = a /\ Meet(<<a, a>>) = a /\ Less(<<a, a>>) = {}
            /\ Less(<<a, b, c>>) = Less(<<a, Union(<<b, c>>)>>)
            /\ Less(<<a, Meet(<<b, c>>)>>) = Union(<<Less(<<a, b>>), Less(<<a, c>>)>>)
            /\ Meet(<<a, Union(<<b, c>>)>>) = Union(<<Meet(<<a, b>>), Meet(<<a, c>>)>>)
            /\ Union(<<Less(<<a, b>>), Meet(<<a, b>>)>>) = a
\* A call changes one container only
OneBag == [][\E s \in Slots : \A x \in Made \ {s} : x \in DOMAIN bag' /\ bag'[x] = bag[x]]_vars
Report == (Track /\ steps = Steps + 1) => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
