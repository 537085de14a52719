--------------------------- MODULE EvidenceTrace ---------------------------
(***************************************************************************)
(* Trace specification of evidential bases, stamps and the clock.  Every   *)
(* event shows all bases and stamps after the call.                        *)
(*                                                                         *)
(* P14: bases.  P15: stamps, clock, tense.                                 *)
(***************************************************************************)
EXTENDS EvBase, TLC, Json, IOUtils

CONSTANT Property
Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, cell, at, stamp, now, used, n, max, dur, hashes
vars == <<l, cell, at, stamp, now, used, n, max, dur, hashes>>

On(p) == Property \in {p, "all"}
Rng(q) == {q[j] : j \in DOMAIN q}
Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
Val(s) == cell[at[s]]

\* What all bases and stamps show
Shown(e) ==
  /\ {e.bases[j].s : j \in DOMAIN e.bases} = DOMAIN at'
  /\ On("P14") => \A j \in DOMAIN e.bases : LET b == e.bases[j] IN Rng(b.v) = cell'[at'[b.s]] /\ b.n = Cardinality(cell'[at'[b.s]])
  /\ {e.stamps[j].s : j \in DOMAIN e.stamps} = DOMAIN stamp'
  /\ \A j \in DOMAIN e.stamps :
       LET x == e.stamps[j]
           w == stamp'[x.s]
       IN /\ On("P15") => x.o = w.o /\ x.c = w.c /\ x.p = w.p /\ x.e = w.e
          /\ On("P14") \/ On("P15") => Rng(x.v) = IF w.cell < 0 THEN {} ELSE cell'[w.cell]
BaseShown(e, s) == LET j == CHOOSE j \in DOMAIN e.bases : e.bases[j].s = s IN Rng(e.bases[j].v)
StampShown(e, s) == LET j == CHOOSE j \in DOMAIN e.stamps : e.stamps[j].s = s IN e.stamps[j]
HasBase(e, s) == \E j \in DOMAIN e.bases : e.bases[j].s = s
HasStamp(e, s) == \E j \in DOMAIN e.stamps : e.stamps[j].s = s

\* One identifier nobody has had
Unused(v) == Cardinality(v) = 1 /\ ((On("P14") \/ On("P15")) => v \cap used = {})

KeepRest == UNCHANGED <<now, max, dur, hashes>>
NewCell(s, v) == n' = n + 1 /\ cell' = Put(cell, n, v) /\ at' = Put(at, s, n) /\ UNCHANGED stamp
InCell(c, v) == cell' = [cell EXCEPT ![c] = v] /\ UNCHANGED <<at, n, stamp>>

FreshCall(e) == HasBase(e, e.slot) /\ LET v == BaseShown(e, e.slot) IN Unused(v) /\ NewCell(e.slot, v) /\ used' = used \cup v /\ KeepRest
MakeCall(e) == NewCell(e.slot, Rng(e.elems)) /\ UNCHANGED used /\ KeepRest
CopyCall(e) == NewCell(e.slot, Val(e.of)) /\ UNCHANGED used /\ KeepRest
AssignCall(e) == InCell(at[e.slot], Val(e.of)) /\ UNCHANGED used /\ KeepRest
AliasCall(e) == at' = Put(at, e.slot, at[e.of]) /\ UNCHANGED <<cell, n, stamp, used>> /\ KeepRest
MergeCall(e) == NewCell(e.slot, Merge(Val(e.args[1]), Val(e.args[2]), max)) /\ UNCHANGED used /\ KeepRest
IntoCall(e) == InCell(at[e.slot], Val(e.slot) \cup Merge(Val(e.args[1]), Val(e.args[2]), max)) /\ UNCHANGED used /\ KeepRest
ExtendCall(e) == InCell(at[e.slot], Merge(Val(e.slot), Val(e.args[1]), max)) /\ UNCHANGED used /\ KeepRest
AddCall(e) == /\ On("P14") => e.self = 1
              /\ InCell(at[e.slot], Val(e.slot) \cup {e.id}) /\ UNCHANGED used /\ KeepRest
OverlapCall(e) == /\ On("P14") => e.value = IF Overlap(Val(e.args[1]), Val(e.args[2])) THEN 1 ELSE 0
                  /\ UNCHANGED <<cell, at, n, stamp, used>> /\ KeepRest
HashCall(e) == /\ On("P14") /\ Val(e.slot) \in DOMAIN hashes => hashes[Val(e.slot)] = e.value
               /\ hashes' = Put(hashes, Val(e.slot), e.value)
               /\ UNCHANGED <<cell, at, n, stamp, used, now, max, dur>>

\* A new stamp with a base of its own
OwnStamp(e, o, c, p, eternal) ==
  /\ HasStamp(e, e.slot)
  /\ LET v == Rng(StampShown(e, e.slot).v) IN
       /\ Unused(v)
       /\ n' = n + 1 /\ cell' = Put(cell, n, v) /\ used' = used \cup v
       /\ stamp' = Put(stamp, e.slot, [o |-> o, c |-> c, p |-> p, e |-> eternal, cell |-> n])
  /\ UNCHANGED at /\ KeepRest
StampCall(e) == OwnStamp(e, now, now, 0 - 1, IF e.eternal = 1 THEN 1 ELSE 0)
StampAtCall(e) == OwnStamp(e, e.at, now, 0 - 1, 0)
StampFullCall(e) ==
  LET eternal == IF e.eternal = 0 THEN 0 ELSE 1 IN
  IF e.base = "-" THEN OwnStamp(e, e.at, e.created, e.put, eternal)
  ELSE /\ stamp' = Put(stamp, e.slot, [o |-> e.at, c |-> e.created, p |-> e.put, e |-> eternal, cell |-> at[e.base]])
       /\ UNCHANGED <<cell, at, n, used>> /\ KeepRest
StampCopyCall(e) == stamp' = Put(stamp, e.slot, stamp[e.of]) /\ UNCHANGED <<cell, at, n, used>> /\ KeepRest
TenseCall(e) == /\ On("P15") => e.value = TenseOf(stamp[e.slot].e = 1, stamp[e.slot].o, now, dur)
                /\ UNCHANGED <<cell, at, n, stamp, used>> /\ KeepRest
EternalizeCall(e) == stamp' = [stamp EXCEPT ![e.slot].e = 1] /\ UNCHANGED <<cell, at, n, used>> /\ KeepRest
UnbaseCall(e) == stamp' = [stamp EXCEPT ![e.slot].cell = 0 - 1] /\ UNCHANGED <<cell, at, n, used>> /\ KeepRest
StampExtendCall(e) ==
  IF stamp[e.slot].cell >= 0
  THEN InCell(stamp[e.slot].cell, Merge(cell[stamp[e.slot].cell], Val(e.args[1]), max)) /\ UNCHANGED used /\ KeepRest
  ELSE \* a stamp without a base gets one of its own first
       /\ HasStamp(e, e.slot)
       /\ LET v == Rng(StampShown(e, e.slot).v)
              new == v \ Val(e.args[1])
              \* the new identifier: seen, or one the client had made up itself, or one that found no room
              candidates == new \cup (Val(e.args[1]) \ used) \cup {0 - 1}
          IN /\ new \cap used = {}
             /\ \E x \in candidates : v = Merge({x}, Val(e.args[1]), max)
             /\ n' = n + 1 /\ cell' = Put(cell, n, v) /\ used' = used \cup new
             /\ stamp' = [stamp EXCEPT ![e.slot].cell = n]
       /\ UNCHANGED at /\ KeepRest
TimeCall(e) == now' = e.value /\ UNCHANGED <<cell, at, n, stamp, used, max, dur, hashes>>
\* Every part of the program sees the same clock
NowCall(e) == /\ On("P15") => e.seen = <<now, now, now>>
              /\ Unused(Rng(e.ids)) /\ used' = used \cup Rng(e.ids)
              /\ UNCHANGED <<cell, at, n, stamp>> /\ KeepRest
MaxCall(e) == max' = e.value /\ UNCHANGED <<cell, at, n, stamp, used, now, dur, hashes>>
DurationCall(e) == dur' = e.value /\ UNCHANGED <<cell, at, n, stamp, used, now, max, hashes>>
DropCall(e) == at' = Del(at, e.slot) /\ stamp' = Del(stamp, e.slot) /\ UNCHANGED <<cell, n, used>> /\ KeepRest
ShowCall(e) == UNCHANGED <<cell, at, n, stamp, used>> /\ KeepRest

Marks == [judgement |-> ".", question |-> "?", goal |-> "!", quest |-> "@", plain |-> "."]
SentenceCall(e) ==
  /\ On("P15") => e.punct = Marks[e.kind]
  /\ On("P15") => e.truth = IF e.kind \in {"judgement", "goal"} THEN <<1000000, 900000, 1000000>> ELSE <<>>
  /\ IF e.stamp = "-" THEN OwnStamp(e, now, now, 0 - 1, 1)
     ELSE stamp' = Put(stamp, e.slot, stamp[e.stamp]) /\ UNCHANGED <<cell, at, n, used>> /\ KeepRest

ResetCall(e) == /\ cell' = Empty /\ at' = Empty /\ stamp' = Empty /\ now' = 0 /\ n' = 0 /\ max' = 20000 /\ dur' = 5
                /\ UNCHANGED <<used, hashes>>

Step(e) ==
  IF e.res # "ok" THEN e.op = "end" /\ e.res = "end" /\ UNCHANGED <<cell, at, n, stamp, used>> /\ KeepRest
  ELSE /\ CASE e.op = "reset" -> ResetCall(e)
            [] e.op = "new" -> FreshCall(e)
            [] e.op \in {"make", "share"} -> MakeCall(e)
            [] e.op = "copy" -> CopyCall(e)
            [] e.op = "assign" -> AssignCall(e)
            [] e.op = "alias" -> AliasCall(e)
            [] e.op = "merge" -> MergeCall(e)
            [] e.op = "into" -> IntoCall(e)
            [] e.op = "extend" -> ExtendCall(e)
            [] e.op = "add" -> AddCall(e)
            [] e.op = "overlap" -> OverlapCall(e)
            [] e.op = "hash" -> HashCall(e)
            [] e.op = "stamp" -> StampCall(e)
            [] e.op = "stampat" -> StampAtCall(e)
            [] e.op = "stampfull" -> StampFullCall(e)
            [] e.op = "stampcopy" -> StampCopyCall(e)
            [] e.op = "tense" -> TenseCall(e)
            [] e.op = "eternalize" -> EternalizeCall(e)
            [] e.op = "unbase" -> UnbaseCall(e)
            [] e.op = "sextend" -> StampExtendCall(e)
            [] e.op = "time" -> TimeCall(e)
            [] e.op = "now" -> NowCall(e)
            [] e.op = "max" -> MaxCall(e)
            [] e.op = "duration" -> DurationCall(e)
            [] e.op = "drop" -> DropCall(e)
            [] e.op = "show" -> ShowCall(e)
            [] e.op = "sentence" -> SentenceCall(e)
       /\ Shown(e)

Init == l = 1 /\ cell = Empty /\ at = Empty /\ stamp = Empty /\ now = 0 /\ used = {} /\ n = 0 /\ max = 20000 /\ dur = 5 /\ hashes = Empty
Next == l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars

Accepted ==
  LET d == TLCGet("stats").diameter - 1
  IN PrintT("MATCHED " \o ToString(d) \o " OF " \o ToString(Len(Trace))) /\ d = Len(Trace)
=============================================================================
