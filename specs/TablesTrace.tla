---- MODULE TablesTrace ----
EXTENDS TraceBase
VARIABLES cap, queues, groups, servers, services, adv, last
T == INSTANCE Tables WITH QNames <- {}, SNames <- {}, Grps <- {}, Ids <- {}, Caps <- {}
TraceInit == l = 1 /\ cap = <<>> /\ queues = <<>> /\ groups = <<>> /\ servers = <<>> /\ services = <<>> /\ adv = {} /\ last = 0
S(q) == {q[i] : i \in 1..Len(q)}
C == S(Ev.changed)
Str(n) == ToString(n)
Sub5(s) == IF Len(s) > 5 THEN SubSeq(s, 1, 5) ELSE s
Sub6(s) == IF Len(s) > 6 THEN SubSeq(s, 1, 6) ELSE s
GText(e) == Str(e.g) \o "|" \o e.n \o "|open-" \o Sub5(e.n) \o "|close-" \o Sub5(e.n) \o "|tms-" \o Sub5(e.n)
SText(e) == Str(e.s) \o "|" \o Str(e.g) \o "|" \o e.n \o "|opt-" \o Sub6(e.n) \o "|" \o Str(e.q)
Tables ==
  /\ Ev.q = queues
  /\ Ev.g = [i \in 1..Len(groups) |-> GText(groups[i])]
  /\ Ev.s = [i \in 1..Len(servers) |-> SText(servers[i])]
  /\ Ev.v = services
  /\ Len(Ev.a) = Cardinality(adv)
  /\ S(Ev.a) = {Str(a[1]) \o "|" \o Str(servers[a[2] + 1].q) \o "|" \o Str(a[2]) : a \in adv}
  /\ UNCHANGED <<cap, queues, groups, servers, services, adv>>
TraceNext ==
  /\ last' = last
  /\ \/ IsOp("reset") /\ T!Reset([q |-> Ev.mq, g |-> Ev.mg, s |-> Ev.ms, v |-> Ev.mv])
     \/ IsOp("mkqueue") /\ T!MakeQueue(Ev.q, Ev.len, Ev.r, C)
     \/ IsOp("mkgroup") /\ T!MakeGroup(Ev.g, Ev.n, Ev.len, Ev.r, C)
     \/ IsOp("mkserver") /\ T!MakeServer(Ev.s, Ev.g, Ev.n, Ev.len, Ev.q, Ev.qlen, Ev.r, C)
     \/ IsOp("mkservice") /\ T!MakeService(Ev.v, Ev.len, Ev.r, C)
     \/ IsOp("adv") /\ T!Advertise(Ev.v, Ev.len, Ev.s, Ev.r, C)
     \/ IsOp("unadv") /\ T!Unadvertise(Ev.v, Ev.s, Ev.r, C)
     \/ IsOp("findq") /\ T!FindQ(Ev.q, Ev.r)
     \/ IsOp("findg") /\ T!FindG(Ev.g, Ev.r)
     \/ IsOp("finds") /\ T!FindS(Ev.s, Ev.g, Ev.r)
     \/ IsOp("findv") /\ T!FindV(Ev.v, Ev.r)
     \/ IsOp("tables") /\ Tables
TraceSpec == TraceInit /\ [][TraceNext]_<<cap, queues, groups, servers, services, adv, last, l>>
Inv == cap = <<>> \/ (T!Unique /\ T!Bounded /\ T!Sound)
====
