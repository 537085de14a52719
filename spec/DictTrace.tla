------------------------------ MODULE DictTrace ------------------------------
(***************************************************************************)
(* Trace specification of dictionaries of names (P18).  Every event shows  *)
(* what looking up every name and key gives, and which atoms are alive.    *)
(***************************************************************************)
EXTENDS Names, TLC, Json, IOUtils

CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, dict, slot, n
vars == <<l, dict, slot, n>>
On(p) == Property \in {p, "all"}
Dicts == {"d1", "d2", "g"}
Rng(q) == {q[j] : j \in DOMAIN q}
Held(s) == {s[x] : x \in DOMAIN s}
Sweep(ds, s) == dict' = [d \in Dicts |-> Swept(ds[d], Held(s))] /\ slot' = s
Only(d, v) == Sweep([dict EXCEPT ![d] = v], slot)

Shown(e) ==
  /\ {<<e.slots[j].s, e.slots[j].id>> : j \in DOMAIN e.slots} = {<<s, slot'[s]>> : s \in DOMAIN slot'}
  /\ On("P18") =>
     /\ \A j \in DOMAIN e.names :
          LET x == e.names[j]
              d == dict'[x.d]
          IN IF x.name \in DOMAIN d
             THEN LET w == d[x.name] IN x.there = 1 /\ x.key = w.key /\ x.keythere = 1 /\ x.back = x.name /\ x.n = w.n /\ x.obj = w.obj
             ELSE x.there = 0
     /\ \A d \in Dicts : \A w \in DOMAIN dict'[d] : \E j \in DOMAIN e.names : e.names[j].d = d /\ e.names[j].name = w
     /\ \A j \in DOMAIN e.keys : LET x == e.keys[j] IN x.there = (IF x.key \in Keys(dict'[x.d]) THEN 1 ELSE 0) /\ x.n = CountOf(dict'[x.d], x.key)
     /\ Rng(e.live) = Held(slot') \cup ({dict'[d][w].obj : <<d, w>> \in {<<d, w>> \in Dicts \X UNION {DOMAIN dict'[d] : d \in Dicts} : w \in DOMAIN dict'[d]}} \ {0})

KeySeen(e, d, name) == LET j == CHOOSE j \in DOMAIN e.names : e.names[j].d = d /\ e.names[j].name = name IN e.names[j].key

WordCall(e) ==
  IF e.name \in DOMAIN dict[e.dict] THEN Sweep(dict, Put(slot, e.slot, dict[e.dict][e.name].obj)) /\ UNCHANGED n
  ELSE /\ n' = n + 1
       /\ LET k == KeySeen(e, e.dict, e.name) IN
          /\ On("P18") => k \notin Keys(dict[e.dict])
          /\ Sweep([dict EXCEPT ![e.dict] = PutPair(@, e.name, k, n, TRUE)], Put(slot, e.slot, n))
TextCall(e) ==
  /\ On("P18") => LET mine == {w \in DOMAIN dict[e.dict] : dict[e.dict][w].own /\ dict[e.dict][w].obj = slot[e.slot]} IN
        IF mine # {} THEN mine = {e.text} ELSE e.anonymous = 1
  /\ UNCHANGED <<dict, slot, n>>
Answer(e, yes) == On("P18") => e.answer = (IF yes THEN 1 ELSE 0)
KeyCall(e, k) ==   \* erase, remove: by the key of a name, or by a key
  /\ Answer(e, k \in Keys(dict[e.dict]))
  /\ Only(e.dict, IF e.op \in {"erase", "erasekey"} THEN EraseKey(dict[e.dict], k) ELSE RemoveKey(dict[e.dict], k)) /\ UNCHANGED n

Step(e) ==
  IF e.res # "ok" THEN e.op = "end" /\ e.res = "end" /\ UNCHANGED <<dict, slot, n>>
  ELSE /\ CASE e.op = "reset" -> dict' = [d \in Dicts |-> Empty] /\ slot' = Empty /\ n' = 1
            [] e.op = "universe" -> UNCHANGED <<dict, slot, n>>
            [] e.op \in {"word", "parse"} -> WordCall(e)
            [] e.op = "anon" -> n' = n + 1 /\ Sweep(dict, Put(slot, e.slot, n))
            [] e.op = "alias" -> Sweep(dict, Put(slot, e.slot, slot[e.of])) /\ UNCHANGED n
            [] e.op = "drop" -> Sweep(dict, Del(slot, e.slot)) /\ UNCHANGED n
            [] e.op = "put" -> /\ Assert(e.name \notin DOMAIN dict[e.dict] /\ e.key \notin Keys(dict[e.dict]), "put: not a new pair")
                               /\ Only(e.dict, PutPair(dict[e.dict], e.name, e.key, IF e.obj = "-" THEN 0 ELSE slot[e.obj], FALSE)) /\ UNCHANGED n
            [] e.op = "again" -> Only(e.dict, CountUp(dict[e.dict], e.name, e.times)) /\ UNCHANGED n
            [] e.op \in {"erase", "remove"} -> KeyCall(e, dict[e.dict][e.name].key)
            [] e.op \in {"erasekey", "removekey"} -> KeyCall(e, e.key)
            [] e.op = "removename" -> /\ Answer(e, e.name \in DOMAIN dict[e.dict])
                                      /\ Only(e.dict, Del(dict[e.dict], e.name)) /\ UNCHANGED n
            [] e.op = "clear" -> Only(e.dict, Empty) /\ UNCHANGED n
            [] e.op = "text" -> TextCall(e)
       /\ Assert(e.op \in {"reset", "universe"} \/ Len(e.names) > 0, "no names to look up")
       /\ Shown(e)

Init == l = 1 /\ dict = [d \in Dicts |-> Empty] /\ slot = Empty /\ n = 1
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
