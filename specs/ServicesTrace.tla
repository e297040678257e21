---- MODULE ServicesTrace ----
EXTENDS TraceBase
VARIABLES req, run, tab, chg, dead, turn, names
Queues == Trace[1].queues
Max == Trace[1].maxservices
T == INSTANCE Services WITH MaxServices <- Max, QueueOf <- LAMBDA s : IF s \in DOMAIN Queues THEN Queues[s] ELSE s
v == <<req, run, tab, chg, dead, turn, names>>
Rng(s) == {s[i] : i \in 1..Len(s)}
By == Ev.who \o "/" \o ToString(Ev.tid)
Nm(s) == IF s = "-" THEN "" ELSE s
Fn(f) == IF f = "1" THEN 1 ELSE IF f = "2" THEN 2 ELSE 0
Err == IF Ev.r = -1 THEN Ev.e ELSE "ok"
(* the name of the administrative service takes a place too *)
TraceInit == l = 1 /\ T!Init0({<<"0.0", ".TMIB", 1>>})
(* requests without data carry no identity: some request without data *)
Ids == IF Ev.id # "-" THEN {Ev.id} ELSE {i \in DOMAIN req : req[i].img = "N" /\ req[i].svc = Ev.svc}
Mine == IF <<Ev.who, Ev.tid>> \in DOMAIN run THEN run[<<Ev.who, Ev.tid>>] ELSE "?"
Skip == {"xa", "txs", "mark", "end", "init", "term", "svrdone", "tx", "tp"}
TraceNext ==
  \/ IsOp("cfg") /\ UNCHANGED v
  \/ IsOp("svrinit") /\ Ev.fail = 0 /\ "adverr" \notin DOMAIN Ev /\ T!Restart(Ev.who, Rng(Ev.svcs) \cup {"BASE"})
  \/ IsOp("send") /\ T!Send(Ev.id, By, Ev.svc, Ev.img, Ev.reply = 1, Ev.how = "call")
  \/ IsOp("acc") /\ T!Accept(Ev.id, By, Err)
  \/ IsOp("exec") /\ (\E i \in Ids : T!Exec(i, Ev.who, Ev.tid, Ev.svc, Ev.fn, Ev.img, Ev.hop))
  \/ IsOp("fwd") /\ T!Fwd(Ev.id, By, Ev.who, Ev.tid, Ev.svc, Ev.img)
  \/ IsOp("ret") /\ T!Ret(IF Ev.id = "-" THEN Mine ELSE Ev.id, Ev.who, Ev.tid, Ev.kind, Ev.rcode, Ev.img)
  \/ IsOp("rep") /\ T!Rep(Ev.id, By, Ev.r, Ev.e, Ev.rcode, Ev.img)
  \/ IsOp("cancel") /\ T!Cancel(Ev.id, By, Err)
  \/ IsOp("advstart") /\ T!AdvStart(Ev.who, Ev.what, Nm(Ev.svc), Fn(Ev.f))
  \/ IsOp("adv") /\ T!Adv(Ev.who, Nm(Ev.svc), Fn(Ev.f), Err)
  \/ IsOp("unadv") /\ T!Unadv(Ev.who, Nm(Ev.svc), Err)
  \/ IsOp("die") /\ T!Die(Ev.who)
  \/ IsOp("closing") /\ T!Closing
  \/ IsOp("quiesce") /\ T!Quiesce
  \/ l <= Len(Trace) /\ Trace[l].op \in Skip /\ l' = l + 1 /\ UNCHANGED v
TraceSpec == TraceInit /\ [][TraceNext]_<<v, l>>
====
