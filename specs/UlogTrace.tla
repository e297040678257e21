---- MODULE UlogTrace ----
EXTENDS TraceBase, Ulog
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsOp("node") /\ Node(Ev.n)
  \/ IsOp("env") /\ SetEnv(Ev.pfx, Ev.ms = 1, Ev.can = 1)
  \/ IsOp("log") /\ Begin(Ev.id, Ev.proc, Ev.pid, Ev.text, Ev.t)
  \/ IsOp("done") /\ End(Ev.id, Ev.r, Ev.t)
  \/ IsOp("see") /\ See(Ev.pfx, Ev.lines)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
====
