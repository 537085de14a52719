-------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* A client of trees of variable positions, with an account of what each   *)
(* node shows when lists are only updated by taking over and by building.  *)
(* Checked: what is up to date shows exactly what the leaves say.          *)
(***************************************************************************)
EXTENDS IndexTree, TLC, Json
CONSTANTS Handles, Values, MaxNodes, Steps, Track
VARIABLES nodes, cells, at, st, shown, hist, steps
vars == <<nodes, cells, at, st, shown, hist, steps>>

Pick(S) == IF Track THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Call(c) == /\ steps < Steps /\ steps' = steps + 1 /\ hist' = IF Track THEN Append(hist, c) ELSE hist
Empty == [x \in {} |-> 0]
New == Cardinality(DOMAIN nodes) + 1
NewCell == Cardinality(DOMAIN cells) + 1
Room == New <= MaxNodes
Prefixed(j, q) == [k \in DOMAIN q |-> [path |-> <<j>> \o q[k].path, cell |-> q[k].cell]]
\* what building shows, from what the nodes below show
RECURSIVE Shows(_, _, _, _), ShowsAll(_, _, _, _)
ShowsAll(ns, sh, built, q) == IF q = <<>> THEN <<sh, built>> ELSE LET r == Shows(ns, sh, built, Head(q)) IN ShowsAll(ns, r[1], r[2], Tail(q))
RECURSIVE Gather(_, _, _)
Gather(sh, q, j) == IF j > Len(q) THEN <<>> ELSE Prefixed(j - 1, sh[q[j]]) \o Gather(sh, q, j + 1)
Shows(ns, sh, built, x) ==
  IF x \in built THEN <<sh, built>>
  ELSE LET r == ShowsAll(ns, sh, built, ns[x].succ)
       IN <<[r[1] EXCEPT ![x] = IF ns[x].succ = <<>> THEN @ ELSE Gather(r[1], ns[x].succ, 1)], r[2] \cup {x}>>

Create == \E h \in Pick(Handles) :
  /\ Room /\ Call([op |-> "create", slot |-> h])
  /\ nodes' = Put(nodes, New, Leaf) /\ at' = Put(at, h, New) /\ shown' = Put(shown, New, <<>>)
  /\ st' = [st EXCEPT !.cur = @ \cup {New}] /\ UNCHANGED cells
Clone == \E h \in Pick(Handles), x \in Pick(DOMAIN at) :
  /\ Room /\ at[x] \in st.cur /\ Call([op |-> "clone", slot |-> h, of |-> x])
  /\ LET q == Lists(nodes, at[x])
         c == NewCell
         mine == [k \in DOMAIN q |-> [path |-> q[k].path, cell |-> c + k - 1]]
     IN /\ nodes' = Put(nodes, New, [succ |-> <<>>, own |-> mine])
        /\ cells' = [y \in DOMAIN cells \cup {c + k - 1 : k \in DOMAIN q} |-> IF y < c THEN cells[y] ELSE cells[q[y - c + 1].cell]]
        /\ shown' = Put(shown, New, mine)
  /\ at' = Put(at, h, New) /\ st' = [st EXCEPT !.cur = @ \cup {New}]
Connect == \E f \in Pick(DOMAIN at), x \in Pick(DOMAIN at), take \in Pick(BOOLEAN) :
  LET a == at[f] b == at[x] IN
  /\ nodes[a].own = <<>> /\ a \notin Reach(nodes, b)
  /\ Call([op |-> "connect", slot |-> f, of |-> x, take |-> IF take THEN 1 ELSE 0])
  /\ nodes' = [nodes EXCEPT ![a].succ = Append(@, b)]
  /\ st' = Connected(nodes, st, a, b, take)
  /\ shown' = IF take THEN [shown EXCEPT ![a] = @ \o Prefixed(Len(nodes[a].succ), shown[b])] ELSE shown
  /\ UNCHANGED <<cells, at>>
Add == \E h \in Pick(DOMAIN at), v \in Pick(Values) : \E p \in Pick(Paths(nodes, at[h])) :
  LET x == At(nodes, at[h], p) IN
  /\ Call([op |-> "add", slot |-> h, value |-> v, path |-> p])
  /\ cells' = Put(cells, NewCell, v)
  /\ LET o == [path |-> <<>>, cell |-> NewCell]
         mine == IF p = <<>> THEN <<o>> ELSE Append(nodes[x].own, o)
     IN nodes' = [nodes EXCEPT ![x].own = mine] /\ shown' = [shown EXCEPT ![x] = mine]
  /\ st' = Touched(nodes, st, at[h], x) /\ UNCHANGED at
TakeOut == \E h \in Pick(DOMAIN at) : \E p \in Pick(Paths(nodes, at[h])) :
  LET x == At(nodes, at[h], p) IN
  /\ Call([op |-> "remove", slot |-> h, path |-> p])
  /\ nodes' = [nodes EXCEPT ![x].own = <<>>] /\ shown' = [shown EXCEPT ![x] = <<>>]
  /\ st' = Touched(nodes, st, at[h], x) /\ UNCHANGED <<cells, at>>
Set == \E h \in Pick(DOMAIN at), v \in Pick(Values) :
  LET q == Lists(nodes, at[h]) IN
  /\ at[h] \in st.cur
  /\ \E k \in Pick(DOMAIN q) :
       /\ Call([op |-> "set", slot |-> h, nth |-> k, value |-> v])
       /\ cells' = [cells EXCEPT ![q[k].cell] = v] /\ st' = Spoilt(nodes, st, q[k].cell)
  /\ UNCHANGED <<nodes, at, shown>>
BuildIt == \E h \in Pick(DOMAIN at), re \in Pick({"build", "rebuild"}) :
  /\ Call([op |-> re, slot |-> h])
  /\ st' = IF re = "rebuild" THEN Rebuild(nodes, st, at[h]) ELSE Build(nodes, st, at[h])
  /\ shown' = Shows(nodes, shown, IF re = "rebuild" THEN {} ELSE st.built, at[h])[1]
  /\ UNCHANGED <<nodes, cells, at>>

Init == nodes = Empty /\ cells = Empty /\ at = Empty /\ st = [built |-> {}, cur |-> {}] /\ shown = Empty /\ hist = <<>> /\ steps = 0
Next == Create \/ Clone \/ Connect \/ Add \/ TakeOut \/ Set \/ BuildIt
Spec == Init /\ [][Next]_vars
view == <<nodes, cells, at, st, shown, steps>>

UpToDate == \A x \in st.cur : shown[x] = Lists(nodes, x)
Inj(q) == \A j, k \in DOMAIN q : j # k => q[j] # q[k]
\* normal numbers: ranks, so blind to renaming in order
NormLaws == \A x \in DOMAIN nodes :
  LET v == Numbers(cells, Lists(nodes, x)) w == Norm(v) IN
  /\ Norm(w) = w
  /\ {w[k] : k \in DOMAIN w} = 0..(Cardinality({v[k] : k \in DOMAIN v}) - 1)
  /\ \A j, k \in DOMAIN v : (v[j] < v[k] <=> w[j] < w[k])
  /\ Norm([k \in DOMAIN v |-> 3 * v[k] + 1]) = w
\* an occurrence lies where its path leads
PathsLead == \A x \in DOMAIN nodes : nodes[x].succ # <<>> => \A k \in DOMAIN Lists(nodes, x) : Lists(nodes, x)[k].path # <<>>
\* a clone is apart: distinct nodes with own occurrences share no cell
ApartCells == \A x, y \in DOMAIN nodes : x # y => {nodes[x].own[k].cell : k \in DOMAIN nodes[x].own} \cap {nodes[y].own[k].cell : k \in DOMAIN nodes[y].own} = {}
Report == (Track /\ steps = Steps) => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
