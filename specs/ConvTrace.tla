---- MODULE ConvTrace ----
EXTENDS TraceBase, Conv
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsOp("alloc") /\ Alloc(Ev.cap)
  \/ IsOp("cvt") /\ Convert(Ev.ft, Ev.tt, Ev.x, Ev.r, Ev.e, Ev.n, Ev.v) /\ UNCHANGED vars
  \/ IsOp("null") /\ NullValue(Ev.r, Ev.e)
  \/ IsOp("chg") /\ Change(Ev.f, Ev.oc, Ev.ty, Ev.x, Ev.r, Ev.e, Ev.now)
  \/ IsOp("read") /\ Read(Ev.f, Ev.oc, Ev.ty, Ev.room, Ev.r, Ev.e, Ev.n, Ev.v, Ev.over)
  \/ IsOp("occ") /\ Search(Ev.f, Ev.ty, Ev.x, Ev.r, Ev.e)
  \/ IsOp("re") /\ Pattern(Ev.f, Ev.p, Ev.b = 1, Ev.z = 1, Ev.bad = 1, Ev.r, Ev.e)
  \/ IsOp("dump") /\ Dump(Ev.list)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
====
