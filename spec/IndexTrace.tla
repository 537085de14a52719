------------------------------ MODULE IndexTrace ------------------------------
(***************************************************************************)
(* Trace specification of trees of variable positions (P21).  Every event  *)
(* shows positions and numbers of every node held; they are judged where   *)
(* the node is up to date.                                                 *)
(***************************************************************************)
EXTENDS IndexTree, TLC, Json, IOUtils
CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, nodes, cells, at, st, hashes
vars == <<l, nodes, cells, at, st, hashes>>
On(p) == Property \in {p, "all"}
Empty == [x \in {} |-> 0]
New == Cardinality(DOMAIN nodes) + 1
NewCell == Cardinality(DOMAIN cells) + 1
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

Shown(e) ==
  /\ {e.nodes[j].s : j \in DOMAIN e.nodes} = DOMAIN at'
  /\ On("P21") => \A j \in DOMAIN e.nodes :
       LET x == at'[e.nodes[j].s]
           q == Lists(nodes', x)
       IN x \in st'.cur => /\ e.nodes[j].pos = [k \in DOMAIN q |-> q[k].path]
                           /\ e.nodes[j].idx = Numbers(cells', q)
Same == UNCHANGED hashes
CreateCall(e) == nodes' = Put(nodes, New, Leaf) /\ at' = Put(at, e.slot, New) /\ st' = [st EXCEPT !.cur = @ \cup {New}] /\ UNCHANGED cells /\ Same
CloneCall(e) ==
  LET q == Lists(nodes, at[e.of]) c == NewCell IN
  /\ Assert(at[e.of] \in st.cur, "clone of what is not up to date")
  /\ nodes' = Put(nodes, New, [succ |-> <<>>, own |-> [k \in DOMAIN q |-> [path |-> q[k].path, cell |-> c + k - 1]]])
  /\ cells' = [y \in DOMAIN cells \cup {c + k - 1 : k \in DOMAIN q} |-> IF y < c THEN cells[y] ELSE cells[q[y - c + 1].cell]]
  /\ at' = Put(at, e.slot, New) /\ st' = [st EXCEPT !.cur = @ \cup {New}] /\ Same
AliasCall(e) == at' = Put(at, e.slot, at[e.of]) /\ UNCHANGED <<nodes, cells, st>> /\ Same
ConnectCall(e) ==
  /\ Assert(nodes[at[e.slot]].own = <<>> /\ at[e.slot] \notin Reach(nodes, at[e.of]), "connect")
  /\ nodes' = [nodes EXCEPT ![at[e.slot]].succ = Append(@, at[e.of])]
  /\ st' = Connected(nodes, st, at[e.slot], at[e.of], e.take = 1) /\ UNCHANGED <<cells, at>> /\ Same
AddCall(e) ==
  LET x == At(nodes, at[e.slot], e.path)
      o == [path |-> <<>>, cell |-> NewCell] IN
  /\ Assert(nodes[x].succ = <<>>, "add")
  /\ cells' = Put(cells, NewCell, e.value)
  /\ nodes' = [nodes EXCEPT ![x].own = IF e.path = <<>> THEN <<o>> ELSE Append(@, o)]
  /\ st' = Touched(nodes, st, at[e.slot], x) /\ UNCHANGED at /\ Same
RemoveCall(e) ==
  LET x == At(nodes, at[e.slot], e.path) IN
  /\ Assert(nodes[x].succ = <<>>, "remove")
  /\ nodes' = [nodes EXCEPT ![x].own = <<>>] /\ st' = Touched(nodes, st, at[e.slot], x) /\ UNCHANGED <<cells, at>> /\ Same
SetCall(e) ==
  LET c == Lists(nodes, at[e.slot])[e.nth].cell IN
  /\ Assert(at[e.slot] \in st.cur, "set")
  /\ cells' = [cells EXCEPT ![c] = e.value] /\ st' = Spoilt(nodes, st, c) /\ UNCHANGED <<nodes, at>> /\ Same
BuildCall(e) == /\ st' = IF e.op = "rebuild" THEN Rebuild(nodes, st, at[e.slot]) ELSE Build(nodes, st, at[e.slot])
                /\ UNCHANGED <<nodes, cells, at>> /\ Same
NormCall(e) == /\ On("P21") /\ at[e.slot] \in st.cur => e.value = Norm(Numbers(cells, Lists(nodes, at[e.slot])))
               /\ UNCHANGED <<nodes, cells, at, st>> /\ Same
\* equal normal numbers, equal hash values
HashCall(e) ==
  LET v == Norm(Numbers(cells, Lists(nodes, at[e.slot]))) IN
  /\ IF at[e.slot] \in st.cur
     THEN /\ On("P21") /\ v \in DOMAIN hashes => hashes[v] = e.value
          /\ hashes' = Put(hashes, v, e.value)
     ELSE Same
  /\ UNCHANGED <<nodes, cells, at, st>>
EqualCall(e) ==
  LET x == at[e.slot] y == at[e.of] IN
  /\ On("P21") /\ {x, y} \subseteq st.cur /\ Norm(Numbers(cells, Lists(nodes, x))) = Norm(Numbers(cells, Lists(nodes, y))) => e.value = 1
  /\ UNCHANGED <<nodes, cells, at, st>> /\ Same

Step(e) ==
  IF e.res # "ok" THEN e.op = "end" /\ e.res = "end" /\ UNCHANGED <<nodes, cells, at, st>> /\ Same
  ELSE /\ CASE e.op = "reset" -> nodes' = Empty /\ cells' = Empty /\ at' = Empty /\ st' = [built |-> {}, cur |-> {}] /\ Same
            [] e.op = "create" -> CreateCall(e)
            [] e.op = "clone" -> CloneCall(e)
            [] e.op = "alias" -> AliasCall(e)
            [] e.op = "connect" -> ConnectCall(e)
            [] e.op = "add" -> AddCall(e)
            [] e.op = "remove" -> RemoveCall(e)
            [] e.op = "set" -> SetCall(e)
            [] e.op \in {"build", "rebuild"} -> BuildCall(e)
            [] e.op = "norm" -> NormCall(e)
            [] e.op = "hash" -> HashCall(e)
            [] e.op = "equal" -> EqualCall(e)
            [] e.op = "drop" -> at' = Del(at, e.slot) /\ UNCHANGED <<nodes, cells, st>> /\ Same
       /\ Shown(e)
Init == l = 1 /\ nodes = Empty /\ cells = Empty /\ at = Empty /\ st = [built |-> {}, cur |-> {}] /\ hashes = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
