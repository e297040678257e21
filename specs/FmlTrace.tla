---- MODULE FmlTrace ----
EXTENDS TraceBase
VARIABLES cap, buf
T == INSTANCE Fml
TraceInit == l = 1 /\ cap = [b \in 0..1 |-> 0] /\ buf = [b \in 0..1 |-> <<>>]
V == [v |-> Ev.v, n |-> Ev.n]
(* contents as they are listed, when they are a well-formed listing *)
FromList(list) ==
  LET F == {list[i][1] : i \in 1..Len(list)}
  IN  [f \in F |-> LET s == SelectSeq(list, LAMBDA x : x[1] = f) IN [i \in 1..Len(s) |-> [v |-> s[i][4], n |-> s[i][3]]]]
S(q) == {q[i] : i \in 1..Len(q)}
NextDump == FromList(Trace[l + 1].list)
W(F) == /\ l < Len(Trace) /\ Trace[l + 1].op = "dump" /\ Trace[l + 1].b = Ev.b
        /\ T!Whole(Ev.op, Ev.b, Ev.r, Ev.e, F, NextDump)
TraceNext ==
  \/ IsOp("alloc") /\ Ev.r = 0 /\ Ev.min = T!MINSIZE /\ T!Alloc(Ev.b, Ev.cap)
  \/ IsOp("init") /\ Ev.r = 0 /\ T!Init0(Ev.b)
  \/ /\ IsOp("realloc")
     /\ IF Ev.need < T!MINSIZE + T!Size(buf[Ev.b]) THEN Ev.r = -1 /\ Ev.e = T!FNOSPACE /\ UNCHANGED <<cap, buf>>
        ELSE Ev.r = 0 /\ Ev.size >= Ev.need /\ cap' = [cap EXCEPT ![Ev.b] = Ev.size - T!MINSIZE] /\ UNCHANGED buf
  \/ IsOp("add") /\ T!Chg(Ev.b, Ev.f, -1, V, Ev.r, Ev.e)
  \/ IsOp("chg") /\ T!Chg(Ev.b, Ev.f, Ev.oc, V, Ev.r, Ev.e)
  \/ IsOp("del") /\ T!Del(Ev.b, Ev.f, Ev.oc, Ev.r, Ev.e)
  \/ IsOp("delall") /\ T!DelAll(Ev.b, Ev.f, Ev.r, Ev.e)
  \/ IsOp("get") /\ T!Get(Ev.b, Ev.f, Ev.oc, Ev.room, Ev.r, Ev.e, Ev.n, Ev.v)
  \/ IsOp("find") /\ T!Find(Ev.b, Ev.f, Ev.oc, Ev.r, Ev.e, Ev.n, Ev.v)
  \/ IsOp("findlast") /\ T!FindLast(Ev.b, Ev.f, Ev.oc, Ev.r, Ev.e, Ev.n, Ev.v)
  \/ IsOp("pres") /\ T!Pres(Ev.b, Ev.f, Ev.oc, Ev.r)
  \/ IsOp("occur") /\ T!Occur(Ev.b, Ev.f, Ev.r)
  \/ IsOp("len") /\ T!LenOf(Ev.b, Ev.f, Ev.oc, Ev.r, Ev.e)
  \/ IsOp("findocc") /\ T!FindOcc(Ev.b, Ev.f, Ev.v, Ev.r, Ev.e)
  \/ IsOp("next") /\ T!NextStep(Ev.b, Ev.f, Ev.oc, Ev.room, Ev.r, Ev.e, Ev.nf, Ev.noc, Ev.n, Ev.v)
  \/ IsOp("dump") /\ Ev.bad = 0 /\ T!Dump(Ev.b, Ev.list, Ev.used, Ev.unused, Ev.size)
  \/ /\ l <= Len(Trace) /\ Trace[l].op \in {"cpy", "update", "join", "ojoin", "concat"} /\ l' = l + 1 /\ W({})
  \/ /\ l <= Len(Trace) /\ Trace[l].op \in {"proj", "delete", "projcpy"} /\ l' = l + 1 /\ W(S(Ev.l))
TraceSpec == TraceInit /\ [][TraceNext]_<<cap, buf, l>>
Inv == T!Fits /\ T!NoEmpty
====
