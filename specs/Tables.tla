---- MODULE Tables ----
(* The shared configuration tables: queues, groups, servers, services and advertisements.
   An entry is recorded at the end of its table, keeps its position for good, and is found under its key; a duplicate, a
   key too long for the table or an addition beyond the capacity is refused and changes nothing.  Advertisements are a set;
   whoever changes it changes the revisions of exactly the services concerned. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json

VARIABLES cap,     \* [q, g, s, v |-> capacity]
          queues,  \* sequence of names
          groups,  \* sequence of [g, n]
          servers, \* sequence of [s, g, n, q]  (q: position of its queue)
          services,\* sequence of names
          adv,     \* set of <<service position, server position>>
          last
vars == <<cap, queues, groups, servers, services, adv>>

CONSTANTS QNames, SNames, Grps, Ids, Caps
MAXNAME == [q |-> 31, g |-> 29, s |-> 127, v |-> 31]

IsPos(seq, P(_), i) == i \in 1..Len(seq) /\ P(seq[i])
Pos(seq, P(_)) == IF \E i \in 1..Len(seq) : P(seq[i]) THEN CHOOSE i \in 1..Len(seq) : P(seq[i]) ELSE 0

QPos(q) == Pos(queues, LAMBDA e : e = q)
GPos(g) == Pos(groups, LAMBDA e : e.g = g)
SPos(s, g) == Pos(servers, LAMBDA e : e.s = s /\ e.g = g)
VPos(v) == Pos(services, LAMBDA e : e = v)

Reset(c) == cap' = c /\ queues' = <<>> /\ groups' = <<>> /\ servers' = <<>> /\ services' = <<>> /\ adv' = {}

QueueFits(q, len) == Len(queues) < cap.q /\ len <= MAXNAME.q

MakeQueue(q, len, r, changed) ==
  /\ changed = {}
  /\ IF QPos(q) = 0 /\ QueueFits(q, len)
     THEN r = Len(queues) /\ queues' = Append(queues, q)
     ELSE r = -1 /\ UNCHANGED queues
  /\ UNCHANGED <<cap, groups, servers, services, adv>>

MakeGroup(g, n, len, r, changed) ==
  /\ changed = {}
  /\ IF GPos(g) = 0 /\ Len(groups) < cap.g /\ len <= MAXNAME.g
     THEN r = Len(groups) /\ groups' = Append(groups, [g |-> g, n |-> n])
     ELSE r = -1 /\ UNCHANGED groups
  /\ UNCHANGED <<cap, queues, servers, services, adv>>

MakeServer(s, g, n, len, q, qlen, r, changed) ==
  /\ changed = {}
  /\ IF SPos(s, g) = 0 /\ Len(servers) < cap.s /\ len <= MAXNAME.s /\ (QPos(q) # 0 \/ QueueFits(q, qlen))
     THEN /\ r = Len(servers)
          /\ queues' = (IF QPos(q) # 0 THEN queues ELSE Append(queues, q))
          /\ servers' = Append(servers, [s |-> s, g |-> g, n |-> n, q |-> (IF QPos(q) # 0 THEN QPos(q) ELSE Len(queues) + 1) - 1])
     ELSE r = -1 /\ UNCHANGED <<queues, servers>>
  /\ UNCHANGED <<cap, groups, services, adv>>

MakeService(v, len, r, changed) ==
  /\ changed = {}
  /\ IF VPos(v) = 0 /\ Len(services) < cap.v /\ len <= MAXNAME.v
     THEN r = Len(services) /\ services' = Append(services, v)
     ELSE r = -1 /\ UNCHANGED services
  /\ UNCHANGED <<cap, queues, groups, servers, adv>>

(* server number s (from 0, in the table) offers v on its own queue *)
Advertise(v, len, s, r, changed) ==
  /\ s < Len(servers)
  /\ LET fits == VPos(v) # 0 \/ (Len(services) < cap.v /\ len <= MAXNAME.v)
         at   == IF VPos(v) # 0 THEN VPos(v) - 1 ELSE Len(services)
     IN  IF fits /\ <<at, s>> \notin adv
         THEN /\ r = 0 /\ changed = {v}
              /\ adv' = adv \cup {<<at, s>>}
              /\ services' = (IF VPos(v) # 0 THEN services ELSE Append(services, v))
         ELSE r = -1 /\ changed = {} /\ UNCHANGED <<adv, services>>
  /\ UNCHANGED <<cap, queues, groups, servers>>

Unadvertise(v, s, r, changed) ==
  /\ s < Len(servers)
  /\ IF VPos(v) # 0 /\ <<VPos(v) - 1, s>> \in adv
     THEN r = 0 /\ changed = {v} /\ adv' = adv \ {<<VPos(v) - 1, s>>}
     ELSE r = -1 /\ changed = {} /\ UNCHANGED adv
  /\ UNCHANGED <<cap, queues, groups, servers, services>>

FindQ(q, r) == r = QPos(q) - 1 /\ UNCHANGED vars
FindG(g, r) == r = GPos(g) - 1 /\ UNCHANGED vars
FindS(s, g, r) == r = SPos(s, g) - 1 /\ UNCHANGED vars
FindV(v, r) == r = VPos(v) - 1 /\ UNCHANGED vars

----
Uniq(seq, K(_)) == \A i, j \in 1..Len(seq) : i # j => K(seq[i]) # K(seq[j])
Unique == Uniq(queues, LAMBDA e : e) /\ Uniq(groups, LAMBDA e : e.g) /\ Uniq(servers, LAMBDA e : <<e.s, e.g>>) /\ Uniq(services, LAMBDA e : e)
Bounded == Len(queues) <= cap.q /\ Len(groups) <= cap.g /\ Len(servers) <= cap.s /\ Len(services) <= cap.v
Sound == /\ \A i \in 1..Len(servers) : servers[i].q < Len(queues)
         /\ \A a \in adv : a[1] < Len(services) /\ a[2] < Len(servers)
         /\ Cardinality(adv) <= cap.s * cap.v
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
InPlace == [][Prefix(queues, queues') /\ Prefix(groups, groups') /\ Prefix(servers, servers') /\ Prefix(services, services')]_vars

----
Init == /\ cap \in Caps /\ queues = <<>> /\ groups = <<>> /\ servers = <<>> /\ services = <<>> /\ adv = {}
        /\ last = [op |-> "reset"]
R == -1..3
L(x) == last' = x
Next ==
  \/ \E q \in QNames, r \in R : MakeQueue(q, 2, r, {}) /\ L([op |-> "mkqueue", q |-> q])
  \/ \E g \in Grps, r \in R : MakeGroup(g, "grp", 3, r, {}) /\ L([op |-> "mkgroup", g |-> g, n |-> "grp"])
  \/ \E s \in Ids, q \in QNames, r \in R : MakeServer(s, 1, "srv", 3, q, 2, r, {}) /\ L([op |-> "mkserver", s |-> s, g |-> 1, n |-> "srv", q |-> q])
  \/ \E v \in SNames, s \in 0..2, r \in R : \E c \in {{}, {v}} : Advertise(v, 2, s, r, c) /\ L([op |-> "adv", v |-> v, s |-> s])
  \/ \E v \in SNames, s \in 0..2, r \in R : \E c \in {{}, {v}} : Unadvertise(v, s, r, c) /\ L([op |-> "unadv", v |-> v, s |-> s])
  \/ \E q \in QNames : FindQ(q, QPos(q) - 1) /\ L([op |-> "findq", q |-> q])
  \/ \E g \in Grps : FindG(g, GPos(g) - 1) /\ L([op |-> "findg", g |-> g])
  \/ \E s \in Ids : FindS(s, 1, SPos(s, 1) - 1) /\ L([op |-> "finds", s |-> s, g |-> 1])
  \/ \E v \in SNames : FindV(v, VPos(v) - 1) /\ L([op |-> "findv", v |-> v])
Spec == Init /\ [][Next]_<<vars, last>>
View == vars
PrintEdge == PrintT("EDGE " \o ToJson([f |-> [q |-> queues, g |-> groups, s |-> servers, v |-> services, a |-> adv], e |-> last', t |-> [q |-> queues', g |-> groups', s |-> servers', v |-> services', a |-> adv']]))
====
