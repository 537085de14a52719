--------------------------------- MODULE Dict ---------------------------------
(***************************************************************************)
(* A client of two dictionaries of names and of handles of atoms.          *)
(***************************************************************************)
EXTENDS Names, TLC, Json
CONSTANTS Dicts, Slots, Words, RawNames, RawKeys, Steps, Track
VARIABLES dict, slot, n, hist, steps
vars == <<dict, slot, n, hist, steps>>

Pick(S) == IF Track THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Held(s) == {s[x] : x \in DOMAIN s}
Call(c) == /\ steps < Steps /\ steps' = steps + 1 /\ hist' = IF Track THEN Append(hist, c) ELSE hist
Sweep(ds, s) == dict' = [d \in Dicts |-> Swept(ds[d], Held(s))] /\ slot' = s
Only(d, v) == Sweep([dict EXCEPT ![d] = v], slot)

\* keys of atoms lie apart from those a client chooses
Word == \E d \in Pick(Dicts), s \in Pick(Slots), w \in Pick(Words) :
  /\ Call([op |-> "word", dict |-> d, slot |-> s, name |-> w])
  /\ IF w \in DOMAIN dict[d] THEN Sweep(dict, Put(slot, s, dict[d][w].obj)) /\ UNCHANGED n
     ELSE /\ n' = n + 1
          /\ Sweep([dict EXCEPT ![d] = PutPair(@, w, 1000 + n, n, TRUE)], Put(slot, s, n))
Anon == \E s \in Pick(Slots) : Call([op |-> "anon", slot |-> s]) /\ n' = n + 1 /\ Sweep(dict, Put(slot, s, n))
Alias == \E s \in Pick(Slots), x \in Pick(DOMAIN slot) : Call([op |-> "alias", slot |-> s, of |-> x]) /\ Sweep(dict, Put(slot, s, slot[x])) /\ UNCHANGED n
Drop == \E s \in Pick(DOMAIN slot) : Call([op |-> "drop", slot |-> s]) /\ Sweep(dict, Del(slot, s)) /\ UNCHANGED n
\* an anonymous atom, or nothing, under a name and key of the client's choice
Raw == \E d \in Pick(Dicts), w \in Pick(RawNames), k \in Pick(RawKeys), s \in Pick(Slots \cup {"-"}) :
  /\ w \notin DOMAIN dict[d] /\ k \notin Keys(dict[d])
  /\ s # "-" => s \in DOMAIN slot /\ \A y \in Dicts : \A x \in DOMAIN dict[y] : dict[y][x].obj # slot[s] \/ ~dict[y][x].own
  /\ Call([op |-> "put", dict |-> d, name |-> w, key |-> ToString(k), obj |-> s])
  /\ Only(d, PutPair(dict[d], w, k, IF s = "-" THEN 0 ELSE slot[s], FALSE)) /\ UNCHANGED n
Again == \E d \in Pick(Dicts) : \E w \in Pick(DOMAIN dict[d]) :
  /\ Call([op |-> "again", dict |-> d, name |-> w]) /\ Only(d, PutPair(dict[d], w, 0, 0, FALSE)) /\ UNCHANGED n
Erase == \E d \in Pick(Dicts) : \E w \in Pick(DOMAIN dict[d]) :
  /\ Call([op |-> "erase", dict |-> d, name |-> w]) /\ Only(d, EraseKey(dict[d], dict[d][w].key)) /\ UNCHANGED n
Remove == \E d \in Pick(Dicts) : \E w \in Pick(DOMAIN dict[d]), how \in Pick({"remove", "removename"}) :
  /\ Call([op |-> how, dict |-> d, name |-> w]) /\ Only(d, RemoveKey(dict[d], dict[d][w].key)) /\ UNCHANGED n
Reset == \E d \in Pick(Dicts) : Call([op |-> "clear", dict |-> d]) /\ Only(d, Empty) /\ UNCHANGED n

Init == dict = [d \in Dicts |-> Empty] /\ slot = Empty /\ n = 1 /\ hist = <<>> /\ steps = 0
Next == Word \/ Anon \/ Alias \/ Drop \/ Raw \/ Again \/ Erase \/ Remove \/ Reset
Spec == Init /\ [][Next]_vars
view == <<dict, slot, n, steps>>

\* one name, one key
OneToOne == \A d \in Dicts : \A x, y \in DOMAIN dict[d] : dict[d][x].key = dict[d][y].key => x = y
Counted == \A d \in Dicts : \A x \in DOMAIN dict[d] : dict[d][x].n > 0
\* an atom of a dictionary is held by somebody
NoGhosts == \A d \in Dicts : \A x \in DOMAIN dict[d] : dict[d][x].own => dict[d][x].obj \in Held(slot)
\* an atom has one name in one dictionary
OneName == \A d, e \in Dicts : \A x \in DOMAIN dict[d], y \in DOMAIN dict[e] :
             dict[d][x].own /\ dict[e][y].obj = dict[d][x].obj => d = e /\ x = y
\* dictionaries do not touch each other
Apart == [][\E d \in Dicts : \A e \in Dicts \ {d} : Held(slot) \subseteq Held(slot') => dict'[e] = dict[e]]_vars
Report == (Track /\ steps = Steps) => PrintT("HISTORY " \o ToJson(hist))
=============================================================================
