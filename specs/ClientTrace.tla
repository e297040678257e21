---- MODULE ClientTrace ----
EXTENDS TraceBase
CONSTANTS Slack
VARIABLES calls, next, all, dflt, lim, full, gone
T == INSTANCE Client WITH Services <- {"SVC0", "SVC1", "SVC2", "SVC3"}, Tol <- 150
v7 == <<calls, next, all, dflt, lim, full, gone>>
TraceInit == l = 1 /\ T!Init0(1000)
TraceNext ==
  \/ IsOp("reset") /\ Ev.r = 0 /\ calls' = <<>> /\ next' = 0 /\ all' = 0 /\ UNCHANGED <<dflt, lim, full, gone>>
  \/ IsOp("acall") /\ T!Acall(Ev.svc, Ev.data, Ev.flags, Ev.r, Ev.err, Ev.ms, Ev.req, Ev.rcd) /\ Ev.more = 0
  \/ IsOp("reply") /\ T!Reply(Ev.cd, [rval |-> Ev.rval, rcode |-> Ev.rcode, data |-> Ev.data])
  \/ IsOp("unblock") /\ UNCHANGED v7
  \/ IsOp("get") /\ T!Get(Ev.any = 1, Ev.asked, Ev.flags, Ev.err, Ev.cd, Ev.rcode, Ev.data, Ev.ms, Ev.acts)
  \/ IsOp("call") /\ T!Call(Ev.svc, Ev.want, Ev.flags, Ev.err, Ev.rcode, Ev.data, Ev.ms, Ev.req, Ev.rcd, Ev.acts)
  \/ IsOp("cancel") /\ T!Cancel(Ev.cd, Ev.err)
  \/ IsOp("blk") /\ T!SetLimit(Ev.v, Ev.f, Ev.err)
  \/ IsOp("rblk") /\ T!ReadLimit(Ev.f, Ev.r, Ev.err)
  \/ IsOp("fill") /\ T!Fill(Ev.n, Ev.err, Ev.good, Ev.sent) /\ \A i \in 1..Len(Ev.cds) : Ev.cds[i] \notin DOMAIN calls
  \/ IsOp("room") /\ full' = (IF Ev.full = 1 THEN full \cup {Ev.svc} ELSE full \ {Ev.svc}) /\ UNCHANGED <<calls, next, all, dflt, lim, gone>>
  \/ IsOp("gone") /\ gone' = gone \cup {Ev.svc} /\ UNCHANGED <<calls, next, all, dflt, lim, full>>
TraceSpec == TraceInit /\ [][TraceNext]_<<v7, l>>
====
