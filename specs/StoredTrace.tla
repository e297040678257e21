---- MODULE StoredTrace ----
EXTENDS TraceBase, FmlTypes
VARIABLES buf, size, file, pos, reg
Bufs == 0..1
UsedOf(x) == ListSize(x)
T == INSTANCE Stored WITH Used <- UsedOf
TraceInit == /\ l = 1 /\ buf = [b \in Bufs |-> <<>>] /\ size = [b \in Bufs |-> MINSIZE]
             /\ file = [k \in 0..1 |-> <<>>] /\ pos = [k \in 0..1 |-> 0] /\ reg = <<>>
TraceNext ==
  \/ IsOp("new") /\ Ev.list = <<>> /\ Ev.size >= Ev.want /\ T!New(Ev.b, Ev.size, <<>>)
  \/ IsOp("fill") /\ Ev.bad = 0 /\ T!Fill(Ev.b, Ev.list)
  \/ IsOp("store") /\ T!Store(Ev.k, Ev.b, Ev.r)
  \/ IsOp("cut") /\ T!Cut(Ev.k, Ev.n)
  \/ IsOp("rewind") /\ T!Rewind(Ev.k)
  \/ IsOp("clear") /\ T!Clear(Ev.k)
  \/ IsOp("restore") /\ Ev.bad = 0 /\ Ev.used = UsedOf(Ev.list) /\ T!Restore(Ev.k, Ev.b, Ev.r, Ev.e, Ev.list, <<>>)
  \/ IsOp("export") /\ T!Export(Ev.b, Ev.r)
  \/ IsOp("import") /\ Ev.bad = 0 /\ T!Import(Ev.b, Ev.r, Ev.list, Ev.size)
  \/ IsOp("dump") /\ Ev.bad = 0 /\ T!Dump(Ev.b, Ev.list, Ev.used, Ev.size)
TraceSpec == TraceInit /\ [][TraceNext]_<<buf, size, file, pos, reg, l>>
Inv == T!Fits
====
