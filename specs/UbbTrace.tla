---- MODULE UbbTrace ----
EXTENDS TraceBase
VARIABLES stored
U == INSTANCE Ubb
v == <<stored>>
TraceInit == l = 1 /\ U!Init
TraceNext ==
  \/ IsOp("load") /\ U!Load(Ev.f, Ev.t, Ev.how, Ev.rc)
  \/ IsOp("unload") /\ U!Unload(Ev.rc, Ev.text)
  \/ IsOp("attach") /\ U!Attach(Len(Ev.views), Ev.views)
  \/ IsOp("reset") /\ stored' = U!Nothing
TraceSpec == TraceInit /\ [][TraceNext]_<<v, l>>
====
