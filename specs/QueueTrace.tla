---- MODULE QueueTrace ----
EXTENDS TraceBase
VARIABLES q, out
Queues == 0..1
T == INSTANCE Queue WITH MaxCost <- 4000
TraceInit == l = 1 /\ T!Init0
(* a message that was not accepted, or was received, leaves no file; files belong to messages waiting *)
F == Ev.files <= (IF q'[0] = T!Gone THEN 0 ELSE Len(q'[0])) + (IF q'[1] = T!Gone THEN 0 ELSE Len(q'[1]))
(* a limit was kept: not given up before it, nor long after it *)
Timing == Ev.mode = "timed" /\ Ev.r = "full" => Ev.ms >= Ev.limit /\ Ev.ms <= Ev.limit + 3000
TraceNext ==
  \/ IsOp("new") /\ T!New(Ev.q)
  \/ IsOp("delete") /\ T!Delete(Ev.q) /\ F
  \/ /\ IsOp("send") /\ T!Send(Ev.q, Ev.t, Ev.m, Ev.r, Ev.room) /\ F /\ Timing
     /\ Ev.mode = "wait" => Ev.r # "full"
     /\ Ev.r = "full" => Ev.before = Ev.after
  \/ IsOp("sendbad") /\ T!SendBad(Ev.q, Ev.r, Ev.kept, Ev.opened) /\ F
  \/ IsOp("recv") /\ T!Recv(Ev.q, Ev.sel, Ev.r, Ev.t, Ev.m) /\ F
  \/ IsOp("stat") /\ T!Stat(Ev.q, Ev.n) /\ F
  \/ IsOp("reset") /\ q' = [k \in Queues |-> T!Gone] /\ out' = 0
TraceSpec == TraceInit /\ [][TraceNext]_<<q, out, l>>
====
