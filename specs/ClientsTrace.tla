---- MODULE ClientsTrace ----
EXTENDS TraceBase
VARIABLES noq, st, dead, lost, bbl
C == Trace[1]
SetOf(q) == {q[k] : k \in 1..Len(q)}
Procs == [p \in DOMAIN C.procs |-> SetOf(C.procs[p])]
K == INSTANCE Clients WITH Proc <- Procs, Max <- C.max, Leaks <- C.leaks = 1
v == <<noq, st, dead, lost, bbl>>
TraceInit == l = 1 /\ K!Init
Same == UNCHANGED v
TraceNext ==
  \/ IsOp("cstart") /\ K!Start(Ev.who)
  \/ IsOp("cinit") /\ K!Attach(Ev.c, Ev.r, Ev.e)
  \/ IsOp("cterm") /\ K!Detach(Ev.c, Ev.r)
  \/ IsOp("ccall") /\ K!Call(Ev.c, Ev.by = <<Ev.to>>, Ev.r)
  \/ IsOp("ckill") /\ K!Kill(Ev.who, Ev.m = 1)
  \/ IsOp("cend") /\ Ev.rc = 0 /\ K!Exit(Ev.who)
  \/ IsOp("settle") /\ K!Settle
  \/ IsOp("bbl") /\ Ev.ok = 1 /\ K!Bbl(Ev.on = 1)
  \/ IsOp("obs") /\ Ev.foreign = 3 /\ Ev.shm = 1 /\ Ev.sem = 1 /\ K!Obs(Ev.q - C.q)
  \/ IsOp("exhaust") /\ K!Exhaust(Ev.on = 1)
  \/ IsOp("storm") /\ K!Storm(SetOf(Ev.cs), Ev.rounds)
  \/ IsOp("limited") /\ Ev.r = -1 /\ Ev.e = "time" /\ Ev.ms >= Ev.lo /\ Ev.ms <= Ev.hi /\ Same
  \/ IsOp("thawed") /\ Ev.r = Ev.n /\ Same
  \/ l <= Len(Trace) /\ Ev.op \in {"cfg", "over"} /\ l' = l + 1 /\ Same
TraceSpec == TraceInit /\ [][TraceNext]_<<v, l>>
====
