---- MODULE BuiltTrace ----
EXTENDS TraceBase, Built
SetOf(s) == {s[i] : i \in 1..Len(s)}
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsOp("reset") /\ made' = [n \in {} |-> <<>>] /\ up' = {}
  \/ IsOp("build") /\ Build(Ev.n, Ev.table, SetOf(Ev.rms), Ev.rm, SetOf(Ev.defined), Ev.threads = 1, Ev.init = 1, Ev.keep = 1, Ev.ok = 1, Ev.there = 1, SetOf(Ev.left))
  \/ IsOp("list") /\ List(Ev.n, Ev.listing)
  \/ IsOp("boot") /\ Boot(SetOf(Ev.ns), SetOf(Ev.inits), SetOf(Ev.opens))
  \/ IsOp("call") /\ Call(Ev.svc, Ev.server, Ev.fun)
  \/ IsOp("meet") /\ Meet(Ev.server, Ev.yes = 1)
  \/ IsOp("commit") /\ Committed({}, SetOf(Ev.managers), Ev.ok = 1, SetOf(Ev.commits))
  \/ IsOp("down") /\ Down
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
====
