---- MODULE LifeTrace ----
EXTENDS TraceBase
VARIABLES run, fails, off, stale, gone
C == Trace[1]
SetOf(q) == {q[k] : k \in 1..Len(q)}
Conf == [s \in DOMAIN C.srv |-> [grp |-> C.srv[s].grp, gno |-> C.srv[s].gno, id |-> C.srv[s].id, q |-> C.srv[s].q,
                                 auto |-> C.srv[s].auto = 1, log |-> C.srv[s].log = 1, name |-> C.srv[s].name, svcs |-> SetOf(C.srv[s].svcs)]]
L == INSTANCE Life WITH Srv <- Conf, Bbl <- "0.0"
v == <<run, fails, off, stale, gone>>
TraceInit == l = 1 /\ L!Init
RECURSIVE Advs(_, _, _)
Advs(o, s, q) ==      \* what the called server has done to its offers
  IF q = <<>> THEN o
  ELSE LET h == q[1]
           good == IF h.op = "adv" \/ h.svc \in o[s] THEN h.r = 0 ELSE h.r = -1
           n == IF h.op = "adv" THEN [o EXCEPT ![s] = @ \cup {h.svc}] ELSE [o EXCEPT ![s] = @ \ {h.svc}]
       IN IF good THEN Advs(n, s, Tail(q)) ELSE [o EXCEPT ![s] = {"?"}]
TraceNext ==
  \/ IsOp("boot") /\ Ev.rc = 0 /\ Ev.crash = <<>> /\ Ev.dones = <<>> /\ L!Boot(Ev.g, Ev.i, Ev.started, Ev.failed, Ev.dup, Ev.inits)
  \/ IsOp("shut") /\ Ev.rc = 0 /\ Ev.crash = <<>> /\ Ev.inits = <<>> /\ L!Shut(Ev.g, Ev.i, Ev.ok, Ev.no, Ev.dones)
  \/ IsOp("kill") /\ IF Ev.r = 0 THEN L!Kill(Ev.who) ELSE Ev.who \notin run /\ UNCHANGED v
  \/ IsOp("spill") /\ L!Spill(Ev.who, Ev.svc, Ev.r)
  \/ IsOp("settle") /\ L!Settle
  \/ IsOp("rm") /\ Ev.rc = 0 /\ L!Rm
  \/ IsOp("fail") /\ L!Fail(Ev.who, Ev.on = 1)
  \/ IsOp("obs") /\ Ev.foreign = 3 /\ L!Obs(SetOf(Ev.alive), Ev.q, Ev.shm, Ev.sem, Ev.files)
  \/ IsOp("call") /\ L!Call(Ev.svc, Ev.by, Ev.r, Ev.e)
       /\ off' = (IF Len(Ev.by) = 1 THEN Advs(off, Ev.by[1], Ev.adv) ELSE off)
       /\ (\A s \in DOMAIN off' : "?" \notin off'[s])
  \/ IsOp("query") /\ L!Query(Ev.class, Ev.f, Ev.how, Ev.r, Ev.e, Ev.err, Ev.occ, Ev.rows, C.domain, C.machine)
  \/ l <= Len(Trace) /\ Ev.op \in {"cfg", "over"} /\ l' = l + 1 /\ UNCHANGED v
TraceSpec == TraceInit /\ [][TraceNext]_<<v, l>>
====
