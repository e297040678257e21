---- MODULE TrxTable ----
(* The shared transaction table: running transactions, the entry each one occupies and the groups that joined it.
   Which free entry a new transaction gets is left open (any free one). *)
EXTENDS Naturals, Integers, FiniteSets, Sequences, TLC, Json

CONSTANTS XIDS        \* transaction identifiers
NOSLOT == -1            \* value for "refused"

VARIABLES
  size,     \* number of entries
  ngroups,  \* number of groups
  run,      \* running transactions: [SUBSET XIDS -> [slot, groups]]
  last      \* last operation with its result (observation only)

vars == <<size, ngroups, run>>

Live == DOMAIN run
Used == {run[x].slot : x \in Live}
Free == (0..size-1) \ Used

PickSlots(S) == S
MinPick(S) == IF S = {} THEN {} ELSE {CHOOSE s \in S : \A t \in S : s <= t}

Reset(n, g) == size' = n /\ ngroups' = g /\ run' = <<>>

Start(x, g, r) ==
  /\ x \notin Live /\ g < ngroups
  /\ IF Free = {}
     THEN r = NOSLOT /\ UNCHANGED run
     ELSE /\ r \in PickSlots(Free)
          /\ run' = [y \in Live \cup {x} |-> IF y = x THEN [slot |-> r, groups |-> {g}] ELSE run[y]]
  /\ UNCHANGED <<size, ngroups>>

Find(x, r) == r = (IF x \in Live THEN run[x].slot ELSE NOSLOT) /\ UNCHANGED vars

Join(x, g, r) ==
  /\ x \in Live
  /\ IF g < ngroups
     THEN r = 0 /\ run' = [run EXCEPT ![x].groups = @ \cup {g}]
     ELSE r = NOSLOT /\ UNCHANGED run
  /\ UNCHANGED <<size, ngroups>>

Has(x, g, r) ==
  /\ x \in Live
  /\ r = (IF g >= ngroups THEN NOSLOT ELSE IF g \in run[x].groups THEN 1 ELSE 0)
  /\ UNCHANGED vars

(* lookup by entry number: entries beyond the table do not exist, entries in use give the transaction *)
At(s, r) ==
  /\ \/ s \in Used /\ \E x \in Live : run[x].slot = s /\ r = x
     \/ s \notin Used /\ s >= size /\ r = NOSLOT
     \/ s \notin Used /\ s < size /\ r \in {NOSLOT, -2}
  /\ UNCHANGED vars

End(x) ==
  /\ x \in Live
  /\ run' = [y \in Live \ {x} |-> run[y]]
  /\ UNCHANGED <<size, ngroups>>

----
(* Properties *)
TypeOK == Used \subseteq 0..size-1 /\ Live \subseteq XIDS
NeverShared == \A x, y \in Live : x # y => run[x].slot # run[y].slot
NotMoreThanFits == Cardinality(Live) <= size
Joined == \A x \in Live : run[x].groups \subseteq 0..ngroups-1 /\ run[x].groups # {}
OthersUndisturbed == [][\A x \in Live \cap DOMAIN run' : run'[x].slot = run[x].slot /\ run[x].groups \subseteq run'[x].groups]_vars

----
(* Enumeration of all transitions for the walk generator *)
CONSTANTS SIZE, NGROUPS
Init == size = SIZE /\ ngroups = NGROUPS /\ run = <<>> /\ last = [op |-> "reset"]
Res == 0..SIZE-1 \cup {NOSLOT} \cup XIDS
Next ==
  \/ \E x \in XIDS, g \in 0..NGROUPS-1, r \in Res : Start(x, g, r) /\ last' = [op |-> "start", x |-> x, g |-> g, r |-> r]
  \/ \E x \in XIDS, r \in Res : Find(x, r) /\ last' = [op |-> "find", x |-> x, r |-> r]
  \/ \E x \in XIDS, g \in 0..NGROUPS, r \in Res : Join(x, g, r) /\ last' = [op |-> "join", x |-> x, g |-> g, r |-> r]
  \/ \E x \in XIDS, g \in 0..NGROUPS, r \in Res : Has(x, g, r) /\ last' = [op |-> "has", x |-> x, g |-> g, r |-> r]
  \/ \E s \in 0..SIZE+1, r \in Res : At(s, r) /\ last' = [op |-> "at", s |-> s, r |-> r]
  \/ \E x \in XIDS : End(x) /\ last' = [op |-> "end", x |-> x]
Spec == Init /\ [][Next]_<<vars, last>>
View == vars
PrintEdge == PrintT("EDGE " \o ToJson([f |-> run, e |-> last', t |-> run']))
====
