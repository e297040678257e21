---- MODULE FieldsTrace ----
EXTENDS TraceBase, Fields
SetOf(s) == {s[i] : i \in 1..Len(s)}
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsOp("write") /\ Write(Ev.p, Ev.lines)
  \/ IsOp("rm") /\ Remove(Ev.p)
  \/ IsOp("env") /\ SetEnv(Ev.set = 1, Ev.dirs, Ev.tabs)
  \/ IsOp("id") /\ ByName(Ev.name, Ev.id, Ev.e)
  \/ IsOp("nm") /\ ById(Ev.id, Ev.name, Ev.e)
  \/ IsOp("uln") /\ UnloadNames
  \/ IsOp("uli") /\ UnloadIds
  \/ IsOp("storm") /\ Together(SetOf(Ev.rs), SetOf(Ev.is))
  \/ IsOp("hdr") /\ Headers(Ev.paths, Ev.ok, [i \in 1..Len(Ev.outs) |-> [ex |-> Ev.outs[i].ex, d |-> SetOf(Ev.outs[i].d)]])
  \/ IsOp("mk") /\ Compose(Ev.t, Ev.n, Ev.id, Ev.e)
  \/ IsOp("apart") /\ TakeApart(Ev.t, Ev.n, Ev.rt, Ev.rn)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
====
