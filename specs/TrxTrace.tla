---- MODULE TrxTrace ----
EXTENDS TraceBase
VARIABLES ctx, own, ph, tx, tms, br, req, sus, seen, done, refused, down
Grps == Trace[1].groups
Odd == Trace[1].odd = 1
T == INSTANCE Trx WITH GroupOf <- LAMBDA w : IF w \in DOMAIN Grps THEN Grps[w] ELSE 0, TableSize <- 100
v == <<ctx, own, ph, tx, tms, br, req, sus, seen, done, refused, down>>
Me == <<Ev.who, Ev.tid>>
O == T!Own(Me)
Ts == LET x == T!Ctx(Me).xid IN IF x \in DOMAIN tms THEN tms[x] ELSE <<>>
M0 == LET x == T!Ctx(Me).xid IN IF x \in DOMAIN tx THEN tx[x].m0 ELSE {}
Tm == Ev.who \in DOMAIN Trace[1].tms
TraceInit == l = 1 /\ T!Init
Shown == [level |-> Ev.level, xid |-> Ev.xid, cr |-> Ev.cr, ctl |-> Ev.ctl, to |-> Ev.to]
After == T!Shown(IF Me \in DOMAIN ctx' THEN ctx'[Me] ELSE T!Closed) = Shown /\ own' = T!Put(own, Me, <<>>)
Keep == {"info", "getlev"}
Tx(f) ==
  CASE f = "begin" -> T!Begin(Me, O, Ev.r, Ev.xid)
    [] f = "commit" -> T!End(Me, O, Ev.r, Ev.xid, TRUE, Ts, M0)
    [] f = "rollback" -> T!End(Me, O, Ev.r, Ev.xid, FALSE, Ts, M0)
    [] f = "open" -> T!Open(Me, O, Ev.r)
    [] f = "close" -> T!Close(Me, O, Ev.r)
    [] f = "info" -> T!Look(Me, O)
    [] OTHER -> T!Set(Me, O, f, Ev.a, Ev.r)
(* the same through ATMI: its errors stand for results of TX *)
TxOf(f, r, e) ==
  IF r # -1 THEN {0}
  ELSE CASE e = "proto" -> {-5} [] e = "inval" -> {-8} [] e = "abort" -> {-2} [] e = "heuristic" -> {-3} [] e = "hazard" -> {-4} [] e = "rmerr" -> {-6, -7} [] e = "tran" -> {-1} [] e = "system" -> {-7} [] OTHER -> {}
Tp(f) ==
  \E r \in TxOf(f, Ev.r, Ev.e) :
  CASE f = "begin" -> T!TpBegin(Me, O, r, Ev.xid, Ev.n)
    [] f = "commit" -> T!End(Me, O, r, Ev.xid, TRUE, Ts, M0) \/ T!End(Me, O, r - 100, Ev.xid, TRUE, Ts, M0)
    [] f = "abort" -> T!End(Me, O, r, Ev.xid, FALSE, Ts, M0) \/ T!End(Me, O, r - 100, Ev.xid, FALSE, Ts, M0)
    [] f = "suspend" -> T!Suspend(Me, O, r, <<Me, Ev.in, Ev.a>>)
    [] f = "resume" -> T!Resume(Me, O, r, <<Me, Ev.in, Ev.a>>)
    [] f = "open" -> T!Open(Me, O, r)
    [] f = "close" -> T!Close(Me, O, r)
    [] OTHER -> FALSE
Skip == {"cfg", "svrinit", "svrdone", "mark", "end", "init", "term", "closing", "die"}
TraceNext ==
  \/ IsOp("txs") /\ T!Ending(Me)
  \/ IsOp("tx") /\ Tx(Ev.f) /\ After
  \/ IsOp("tp") /\ Ev.f # "getlev" /\ Tp(Ev.f) /\ After
  \/ IsOp("tp") /\ Ev.f = "getlev" /\ T!Look(Me, O) /\ After /\ (IF Ev.r = -1 THEN Ev.e = "proto" /\ Ev.level = -5 ELSE Ev.r = Ev.level)
  \/ IsOp("xa") /\ Tm /\ (IF Ev.f \in {"open", "close"} THEN UNCHANGED v ELSE Ev.rmid = Trace[1].tms[Ev.who] /\ T!Tms(Ev.f, Ev.xid, Ev.rmid, Ev.r))
  \/ IsOp("xa") /\ ~Tm /\ T!Xa(Me, Ev.f, Ev.flags, Ev.xid, Ev.rmid, Ev.r)
  \/ IsOp("send") /\ T!Send(Me, Ev.id, Ev.notran = 1, Ev.reply = 1)
  \/ IsOp("acc") /\ T!Other(Me, O)
  \/ IsOp("cancel") /\ T!Other(Me, O)
  \/ IsOp("exec") /\ T!Exec(Me, Ev.id, Shown)
  \/ IsOp("ret") /\ T!Ret(Me, Ev.kind)
  \/ IsOp("fwd") /\ T!Ret(Me, "fwd")
  \/ l <= Len(Trace) /\ l' = l /\ Ev.op = "xa" /\ Ev.f = "end" /\ T!FwdLost(Me)
  \/ IsOp("rep") /\ T!Rep(Me, Ev.id, Ev.r, Ev.e, O)
  \/ IsOp("quiesce") /\ T!Quiesce(Odd)
  \/ l <= Len(Trace) /\ Ev.op \in Skip /\ l' = l + 1 /\ UNCHANGED v
TraceSpec == TraceInit /\ [][TraceNext]_<<v, l>>
====
