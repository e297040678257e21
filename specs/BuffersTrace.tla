---- MODULE BuffersTrace ----
EXTENDS TraceBase, Base
VARIABLES slot, reg
Slots == 0..2
T == INSTANCE Buffers
TraceInit == l = 1 /\ slot = [s \in Slots |-> T!Nil] /\ reg = T!NoReg
TraceNext ==
  \/ IsOp("new") /\ slot' = [s \in Slots |-> T!Nil] /\ reg' = T!NoReg
  \/ IsOp("alloc") /\ T!Alloc(Ev.s, Ev.t, Ev.sub, Ev.want, Ev.r, Ev.e, Ev.size)
  \/ IsOp("free") /\ T!Free(Ev.s)
  \/ IsOp("realloc") /\ T!Realloc(Ev.s, Ev.want, Ev.r, Ev.e, Ev.size)
  \/ IsOp("types") /\ T!Types(Ev.s, Ev.r, Ev.e, Ev.type, Ev.sub)
  \/ IsOp("write") /\ T!Write(Ev.s, Ev.v, Ev.r)
  \/ IsOp("export") /\ T!Export(Ev.s, Ev.text = 1, Ev.room, Ev.r, Ev.e, Ev.len) /\ (Ev.str # "" => IsB64(Ev.str, Ev.bin))
  \/ IsOp("import") /\ T!Import(Ev.s, Ev.bad, Ev.r, Ev.e, Ev.len, Ev.size)
  \/ IsOp("dump") /\ T!Dump(Ev.s, Ev.type, Ev.sub, Ev.size, Ev.data, Ev.fsz)
  \/ IsOp("badarg") /\ Ev.r = -1 /\ Ev.e = Ev.want /\ UNCHANGED <<slot, reg>>
TraceSpec == TraceInit /\ [][TraceNext]_<<slot, reg, l>>
Inv == T!Fits
====
