---- MODULE ServicesDesign ----
(* How it is done: message queues, shared by the servers of a set, threads that take a request at a time, routing that goes round
   the queues that offered the service when the caller looked.  Refines Services. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids,          \* requests
          Threads,      \* of servers <<server, thread>>
          QOf(_),
          Svcs, Clients,
          Start         \* advertisements at the start
VARIABLES q,            \* queues of requests: sequences of [id, svc, hop]
          rq,           \* replies on their way: set of [id, kind]
          busy,         \* the messages threads work on
          table,        \* advertisements
          cache,        \* what clients know of who offers a service, and whose turn it is: [Clients \X Svcs -> [qs, cur]]
          call,         \* requests: [by, svc, st]
          ref           \* the abstract state, moved along with every step
vars == <<q, rq, busy, table, cache, call, ref>>
Nothing == [id |-> 0, svc |-> "", hop |-> 0]
Srvs == {t[1] : t \in Threads}
Qs == {QOf(s) : s \in Srvs}
QV(s) == QOf(s)
VARIABLES req, run, tab, chg, dead, turn, names
S == INSTANCE Services WITH QueueOf <- QV, MaxServices <- 0
av == <<req, run, tab, chg, dead, turn, names>>
Offers(svc) == {a \in table : a[2] = svc}
RECURSIVE Seqs(_)
Seqs(A) == IF A = {} THEN {<<>>} ELSE UNION {{<<QOf(a[1])>> \o s : s \in Seqs(A \ {a})} : a \in A}
Init ==
  /\ q = [k \in Qs |-> <<>>] /\ rq = {} /\ busy = [t \in Threads |-> Nothing]
  /\ table = Start /\ call = <<>> /\ ref = 0
  /\ cache = [k \in Clients \X Svcs |-> [qs |-> <<>>, cur |-> 0]]
  /\ S!Init0(Start)
(* a synchronous call: the client looks up the table if it changed, goes to the next queue and sends *)
Fresh(c, svc, k) ==      \* k is what the client knows after looking
  IF Cardinality(Offers(svc)) = Len(cache[<<c, svc>>].qs) /\ {QOf(a[1]) : a \in Offers(svc)} = {cache[<<c, svc>>].qs[i] : i \in 1..Len(cache[<<c, svc>>].qs)}
  THEN k = cache[<<c, svc>>].qs ELSE k \in Seqs(Offers(svc))
Idle(c) == \A i \in DOMAIN call : call[i].by = c => call[i].st = "done"
Send(c, i, svc) ==
  /\ i \notin DOMAIN call /\ Idle(c)
  /\ \E k \in {x \in UNION {Seqs(Offers(svc)), {cache[<<c, svc>>].qs}} : Fresh(c, svc, x)} :
       IF k = <<>>
       THEN /\ call' = call @@ (i :> [by |-> c, svc |-> svc, st |-> "refused"]) /\ UNCHANGED <<q, cache>>
       ELSE LET n == (cache[<<c, svc>>].cur % Len(k)) + 1 IN
            /\ cache' = [cache EXCEPT ![<<c, svc>>] = [qs |-> k, cur |-> n]]
            /\ q' = [q EXCEPT ![k[n]] = Append(@, [id |-> i, svc |-> svc, hop |-> 0])]
            /\ call' = call @@ (i :> [by |-> c, svc |-> svc, st |-> "sent"])
  /\ UNCHANGED <<rq, busy, table>>
  /\ S!Send(i, c, svc, "d", TRUE, TRUE)
Refused(i) ==
  /\ i \in DOMAIN call /\ call[i].st = "refused"
  /\ call' = [call EXCEPT ![i].st = "done"] /\ UNCHANGED <<q, rq, busy, table, cache>>
  /\ S!Rep(i, call[i].by, -1, "noent", 0, "")
Fn(s, svc) == {a[3] : a \in {b \in table : b[1] = s /\ b[2] = svc}}
Take(t) ==
  /\ busy[t] = Nothing /\ q[QOf(t[1])] # <<>>
  /\ LET m == Head(q[QOf(t[1])])
         rest == Tail(q[QOf(t[1])])
     IN  IF Fn(t[1], m.svc) # {}
         THEN /\ q' = [q EXCEPT ![QOf(t[1])] = rest] /\ busy' = [busy EXCEPT ![t] = m]
              /\ UNCHANGED <<rq, table, cache, call>>
              /\ \E f \in Fn(t[1], m.svc) : S!Exec(m.id, t[1], t[2], m.svc, f, "d", m.hop)
         ELSE IF \E a \in table : a[2] = m.svc /\ QOf(a[1]) = QOf(t[1])
         THEN q' = [q EXCEPT ![QOf(t[1])] = Append(rest, m)] /\ UNCHANGED <<rq, busy, table, cache, call>> /\ UNCHANGED av
         ELSE /\ q' = [q EXCEPT ![QOf(t[1])] = rest] /\ rq' = rq \cup {[id |-> m.id, kind |-> "noent"]}
              /\ UNCHANGED <<busy, table, cache, call>> /\ UNCHANGED av
Return(t, kind) ==
  /\ busy[t] # Nothing /\ busy' = [busy EXCEPT ![t] = Nothing]
  /\ rq' = rq \cup {[id |-> busy[t].id, kind |-> kind]} /\ UNCHANGED <<q, table, cache, call>>
  /\ S!Ret(busy[t].id, t[1], t[2], kind, 0, "")
Forward(t, svc) ==
  /\ busy[t] # Nothing /\ busy[t].hop = 0 /\ busy' = [busy EXCEPT ![t] = Nothing]
  /\ UNCHANGED <<table, cache, call>>
  /\ \/ \E a \in Offers(svc) : q' = [q EXCEPT ![QOf(a[1])] = Append(@, [id |-> busy[t].id, svc |-> svc, hop |-> 1])] /\ UNCHANGED rq
     \/ Offers(svc) = {} /\ rq' = rq \cup {[id |-> busy[t].id, kind |-> "svcerr"]} /\ UNCHANGED q
  /\ S!Fwd(busy[t].id, t[1], t[1], t[2], svc, "d")
Deliver(m) ==
  /\ m \in rq /\ rq' = rq \ {m} /\ call' = [call EXCEPT ![m.id].st = "done"] /\ UNCHANGED <<q, busy, table, cache>>
  /\ IF m.kind = "ok" THEN S!Rep(m.id, call[m.id].by, 0, "ok", 0, "") ELSE S!Rep(m.id, call[m.id].by, -1, m.kind, 0, "")
(* offers change at once here; the trace sees a start and an end *)
Withdraw(a) == a \in table /\ table' = table \ {a} /\ UNCHANGED <<q, rq, busy, cache, call>> /\ S!Unadv(a[1], a[2], "ok")
Offer(a) == a \notin table /\ Cardinality(table) < Cardinality(Start) /\ table' = table \cup {a} /\ UNCHANGED <<q, rq, busy, cache, call>> /\ S!Adv(a[1], a[2], a[3], "ok")
(* what the design does in a step; the abstract specification must allow the step *)
Enabled ==
  \/ \E c \in Clients, i \in Ids, svc \in Svcs : i \notin DOMAIN call /\ Idle(c) /\ Send(c, i, svc)
  \/ \E i \in Ids : Refused(i)
  \/ \E t \in Threads : Take(t) \/ Return(t, "ok") \/ \E svc \in Svcs : Forward(t, svc)
  \/ \E m \in rq : Deliver(m)
  \/ \E a \in Start : Withdraw(a) \/ Offer(a)
Next == Enabled /\ ref' = ref
Spec == Init /\ [][Next]_<<vars, av>>
---------------------------------------------------------------------------------------------------------
(* no step of the design is refused by the abstract specification: what the design could do, it can do *)
CanTake(t) == busy[t] = Nothing /\ q[QOf(t[1])] # <<>> => ENABLED Take(t)
CanReturn(t) == busy[t] # Nothing => ENABLED Return(t, "ok")
CanDeliver == \A m \in rq : ENABLED Deliver(m)
CanRefuse == \A i \in DOMAIN call : call[i].st = "refused" => ENABLED Refused(i)
Refines == (\A t \in Threads : CanTake(t) /\ CanReturn(t)) /\ CanDeliver /\ CanRefuse
(* a request is in one place *)
Places(i) == Cardinality({<<k, n>> \in Qs \X (1..Cardinality(Ids)) : n <= Len(q[k]) /\ q[k][n].id = i})
             + Cardinality({t \in Threads : busy[t] # Nothing /\ busy[t].id = i}) + Cardinality({m \in rq : m.id = i})
Once == \A i \in DOMAIN call : Places(i) = IF call[i].st = "sent" THEN 1 ELSE 0
Abstract == S!OnePlace /\ S!RunIsRun
====
