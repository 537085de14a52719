------------------------------ MODULE Evidence ------------------------------
(***************************************************************************)
(* A client of evidential bases, stamps and the clock.                     *)
(*                                                                         *)
(* Several handles may share one base (a cell); a copy of a base has a     *)
(* cell of its own.  A stamp refers to a cell too.  Checked: no cell ever  *)
(* exceeds what was put into it, identifiers are issued once, merges are   *)
(* fair and bounded, changes show in the handles of that cell only.        *)
(***************************************************************************)
EXTENDS EvBase, TLC, Json

CONSTANTS Slots,      \* handles of bases
          Stamps,     \* handles of stamps
          Ids,        \* identifiers a client uses itself
          Limit,        \* how long a base may become by merging
          Duration, MaxTime, Steps, Track

VARIABLES cell,       \* cell -> its set
          at,         \* handle of a base -> cell
          stamp,      \* handle of a stamp -> [o, c, e, cell]
          now, next,  \* the clock, the next identifier to be issued
          n,          \* number of cells made
          hist, steps
vars == <<cell, at, stamp, now, next, n, hist, steps>>

Empty == [x \in {} |-> 0]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Val(s) == cell[at[s]]
Held == DOMAIN at

Pick(S) == IF Track THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Call(c) == /\ steps < Steps
           /\ steps' = steps + 1
           /\ hist' = IF Track THEN Append(hist, c) ELSE hist

NewCell(s, v) == /\ n' = n + 1 /\ cell' = Put(cell, n, v) /\ at' = Put(at, s, n)

Fresh == \E s \in Pick(Slots), u \in Pick({"a", "b"}) :
  /\ Call([op |-> "new", slot |-> s, unit |-> u])
  /\ NewCell(s, {next}) /\ next' = next + 1 /\ UNCHANGED <<stamp, now>>
Make == \E s \in Pick(Slots) : \E v \in Pick(SUBSET Ids) :
  /\ Call([op |-> "make", slot |-> s, elems |-> Ascending(v)])
  /\ NewCell(s, v) /\ UNCHANGED <<stamp, now, next>>
Copy == \E s \in Pick(Slots), x \in Pick(Held) :
  /\ Call([op |-> "copy", slot |-> s, of |-> x])
  /\ NewCell(s, Val(x)) /\ UNCHANGED <<stamp, now, next>>
Alias == \E s \in Pick(Slots), x \in Pick(Held) :
  /\ Call([op |-> "alias", slot |-> s, of |-> x])
  /\ at' = Put(at, s, at[x]) /\ UNCHANGED <<cell, n, stamp, now, next>>
MergeTwo == \E s \in Pick(Slots), x \in Pick(Held), y \in Pick(Held) :
  /\ Call([op |-> "merge", slot |-> s, args |-> <<x, y>>])
  /\ NewCell(s, Merge(Val(x), Val(y), Limit)) /\ UNCHANGED <<stamp, now, next>>
Extend == \E x \in Pick(Held), y \in Pick(Held) :
  /\ Call([op |-> "extend", slot |-> x, args |-> <<y>>])
  /\ cell' = [cell EXCEPT ![at[x]] = Merge(Val(x), Val(y), Limit)] /\ UNCHANGED <<at, n, stamp, now, next>>
Add == \E x \in Pick(Held), i \in Pick(Ids) :
  /\ Call([op |-> "add", slot |-> x, id |-> i])
  /\ cell' = [cell EXCEPT ![at[x]] = @ \cup {i}] /\ UNCHANGED <<at, n, stamp, now, next>>

NewStamp(s, o, e) == /\ n' = n + 1 /\ cell' = Put(cell, n, {next}) /\ next' = next + 1
                     /\ stamp' = Put(stamp, s, [o |-> o, c |-> now, e |-> e, cell |-> n])
StampNow == \E s \in Pick(Stamps), e \in Pick(BOOLEAN), u \in Pick({"a", "b", "lib"}) :
  /\ Call([op |-> "stamp", slot |-> s, unit |-> u, eternal |-> IF e THEN 1 ELSE 0])
  /\ NewStamp(s, now, e) /\ UNCHANGED <<at, now>>
StampAt == \E s \in Pick(Stamps), o \in Pick(0..MaxTime), u \in Pick({"a", "b", "lib"}) :
  /\ Call([op |-> "stampat", slot |-> s, unit |-> u, at |-> o])
  /\ NewStamp(s, o, FALSE) /\ UNCHANGED <<at, now>>
StampOn == \E s \in Pick(Stamps), o \in Pick(0..MaxTime), e \in Pick(BOOLEAN), x \in Pick(Held) :
  /\ Call([op |-> "stampfull", slot |-> s, unit |-> "a", at |-> o, created |-> now, put |-> 0, base |-> x, eternal |-> IF e THEN 1 ELSE 0])
  /\ stamp' = Put(stamp, s, [o |-> o, c |-> now, e |-> e, cell |-> at[x]]) /\ UNCHANGED <<cell, at, n, now, next>>
Eternalize == \E s \in Pick(DOMAIN stamp) :
  /\ Call([op |-> "eternalize", slot |-> s])
  /\ stamp' = [stamp EXCEPT ![s].e = TRUE] /\ UNCHANGED <<cell, at, n, now, next>>
StampExtend == \E s \in Pick(DOMAIN stamp), x \in Pick(Held) :
  /\ Call([op |-> "sextend", slot |-> s, args |-> <<x>>])
  /\ cell' = [cell EXCEPT ![stamp[s].cell] = Merge(@, Val(x), Limit)] /\ UNCHANGED <<at, n, stamp, now, next>>
Tick == \E t \in Pick(0..MaxTime), u \in Pick({"a", "b"}) :
  /\ Call([op |-> "time", unit |-> u, value |-> t])
  /\ now' = t /\ UNCHANGED <<cell, at, n, stamp, next>>

Init == cell = Empty /\ at = Empty /\ stamp = Empty /\ now = 0 /\ next = 100 /\ n = 0 /\ hist = <<>> /\ steps = 0
Next == Fresh \/ Make \/ Copy \/ Alias \/ MergeTwo \/ Extend \/ Add \/ StampNow \/ StampAt \/ StampOn \/ Eternalize \/ StampExtend \/ Tick
Spec == Init /\ [][Next]_vars
view == <<[s \in Held |-> <<Val(s), {x \in Held : at[x] = at[s]}>>], [s \in DOMAIN stamp |-> [stamp[s] EXCEPT !.cell = <<cell[stamp[s].cell], {x \in Held : at[x] = stamp[s].cell}, {x \in DOMAIN stamp : stamp[x].cell = stamp[s].cell}>>]], now, next, steps>>

Live == {at[s] : s \in Held} \cup {stamp[s].cell : s \in DOMAIN stamp}
\* The merge of any two bases within reach
MergeLaws ==
  \A a, b \in {cell[x] : x \in Live} :
    LET m == Merge(a, b, Limit)
        ca == Cardinality(m \cap a)
        cb == Cardinality(m \cap b)
    IN /\ m \subseteq a \cup b
       /\ Cardinality(m) <= Limit
       /\ Cardinality(a) + Cardinality(b) <= Limit => m = a \cup b
       /\ \A x \in m \cap (a \ b), y \in a : y < x => y \in m            \* oldest first
       /\ \A x \in m \cap (b \ a), y \in b : y < x => y \in m
       /\ a \cap b = {} => /\ (ca > cb => cb = Cardinality(b))           \* fair
                           /\ (cb > ca + 1 => ca = Cardinality(a))
       /\ Overlap(a, b) = Overlap(b, a)
       /\ a \cup b # {} /\ Limit > 0 => m # {}
\* The number of entries taken from each side is the alternation's
Alternating == steps = 0 => \A l1, l2, m \in 0..7 : m <= l1 + l2 => Closed(m, l1, l2) = Shares(m, l1, l2, 0, 0)
\* An identifier that was issued is known to those who were given it
Issued == \A x \in Live : \A i \in cell[x] : i \in Ids \/ (i >= 100 /\ i < next)
TenseLaws == \A s \in DOMAIN stamp :
  LET t == TenseOf(stamp[s].e, stamp[s].o, now, Duration) IN
  /\ stamp[s].e <=> t = ":-:"
  /\ ~stamp[s].e /\ stamp[s].o = now /\ Duration > 0 => t = ":|:"
  /\ (t = ":/:" => stamp[s].o >= now) /\ (t = ":\\:" => stamp[s].o <= now)
Report == (Track /\ steps = Steps) => PrintT("HISTORY " \o ToJson(hist))

\* What a call does not mention does not change
OneCell == [][\A s, x \in Held : s \in DOMAIN at' /\ x \in DOMAIN at' /\ at'[s] = at[s] /\ at'[x] = at[x] /\ at[s] # at[x]
                 => cell'[at[s]] = cell[at[s]] \/ cell'[at[x]] = cell[at[x]]]_vars
=============================================================================
