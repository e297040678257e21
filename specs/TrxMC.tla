---- MODULE TrxMC ----
(* One thread, every operation in every state of its TX interface, with everything its resource manager may answer.
   Thread <<"1.1", 1>> is a service, <<"c", 1>> a client without a resource manager. *)
EXTENDS Trx, Json
CONSTANTS Me, Joined
VARIABLES last
Svc == <<"1.1", 1>>
Cli == <<"c", 1>>
MCGroup(w) == IF w = "1.1" THEN 1 ELSE 0
X == "x" \o ToString(Cardinality(seen) + 1)
RMs == HasRM(Me)
MCInit == /\ own = <<>> /\ ph = <<>> /\ tms = <<>> /\ br = {} /\ req = <<>> /\ sus = <<>> /\ done = {} /\ refused = {} /\ down = {} /\ last = <<>>
          /\ IF Joined THEN /\ seen = {"x1"} /\ tx = ("x1" :> [NewTx EXCEPT !.must = {1}, !.may = {1}])
                            /\ ctx = (Me :> [Closed EXCEPT !.open = TRUE, !.xid = "x1"])
             ELSE seen = {} /\ tx = <<>> /\ ctx = (Me :> [Closed EXCEPT !.open = TRUE])
C == ctx[Me]
E(f, fl, x, r) == [f |-> f, fl |-> fl, x |-> x, r |-> r]
Inj(f, r) == IF r = 0 THEN <<>> ELSE <<"xaret " \o f \o " 1 " \o ToString(r)>>
Starts == {0, -3, -7, -9, -5}
Ends == IF C.rbo THEN {-6} ELSE {0, -3, -7, 100}
InjEnd(r) == IF C.rbo THEN <<>> ELSE Inj("end", r)
TxRes == {0, -1, -2, -3, -4, -5, -6, -7, -8}
P(r) == [f |-> "prepare", g |-> 1, r |-> r]
Cm(r) == [f |-> "commit", g |-> 1, r |-> r]
B(r) == [f |-> "rollback", g |-> 1, r |-> r]
(* <<calls of the transaction manager, what has to be arranged>> *)
CommitTs == {<<<<P(0), Cm(r)>>, Inj("commit", r)>> : r \in {0, 4, 5, 6, 7, 8, -3, -7}}
            \cup {<<<<P(3)>>, Inj("prepare", 3)>>}
            \cup {<<<<P(v), B(-4)>>, Inj("prepare", v)>> : v \in {100, 107}}
            \cup {<<<<P(v), B(r)>>, Inj("prepare", v) \o Inj("rollback", r)>> : v \in {-3, -7}, r \in {0, 5, 7, 8}}
BackTs == {<<<<B(r)>>, Inj("rollback", r)>> : r \in {0, 5, 6, 7, 8, 100, -3}}
Ts(commit) == IF ~InTx(C) \/ ~C.mine \/ ~RMs THEN {<<<<>>, <<>>>>} ELSE IF commit THEN CommitTs \cup BackTs ELSE BackTs
NextOwn == IF C.ctl = 1 /\ RMs THEN {<<<<E("start", "no", X, r)>>, Inj("start", r)>> : r \in {0, -3}} ELSE {<<<<>>, <<>>>>}
DoEnd(commit, names) ==
  IF InTx(C) /\ C.mine
  THEN \E e \in IF RMs THEN Ends ELSE {0}, n \in NextOwn, t \in Ts(commit), r \in TxRes \cup {q - 100 : q \in TxRes}, nm \in names :
         /\ (t[1] # <<>> /\ t[1][1].f = "prepare") => e = 0
         /\ (t[1] # <<>> /\ t[1][1].f = "rollback" /\ commit) => e # 0
         /\ End(Me, (IF RMs THEN <<E("end", "success", C.xid, e)>> ELSE <<>>) \o n[1], r, X, commit, t[1], IF RMs THEN {1} ELSE {})
         /\ last' = (IF RMs THEN InjEnd(e) ELSE <<>>) \o t[2] \o n[2] \o <<nm>>
  ELSE \E nm \in names : End(Me, <<>>, PROTO, "", commit, <<>>, {}) /\ last' = <<nm>>
DoBegin ==
  \/ \E s \in (IF RMs THEN Starts ELSE {0}), r \in TxRes, k \in {"tx begin", "tp begin 0", "tp begin 7"} :
       LET o == IF RMs /\ C.open /\ ~InTx(C) THEN <<E("start", "no", X, s)>> ELSE <<>> IN
       /\ (IF k = "tx begin" THEN Begin(Me, o, r, X) ELSE TpBegin(Me, o, r, X, IF k = "tp begin 0" THEN 0 ELSE 7))
       /\ (o = <<>> => s = 0)
       /\ last' = Inj("start", s) \o <<k>>
  \/ \E r \in TxRes : TpBegin(Me, <<>>, r, X, -1) /\ last' = <<"tp begin -1">>
DoOpen == \E x \in (IF RMs THEN {0, -3} ELSE {0}), r \in {0, -6}, nm \in {"tx open", "tp open"} : Open(Me, IF RMs THEN <<E("open", "no", "", x)>> ELSE <<>>, r) /\ C'.cr = 0 /\ C'.to = 0 /\ last' = Inj("open", x) \o <<nm>>
DoClose == \E x \in (IF RMs /\ ~InTx(C) THEN {0, -3} ELSE {0}), r \in {0, -5, -6}, nm \in {"tx close", "tp close"} : Close(Me, IF RMs /\ ~InTx(C) THEN <<E("close", "no", "", x)>> ELSE <<>>, r) /\ last' = Inj("close", x) \o <<nm>>
DoSet == \E f \in {"cr", "ctl", "to"}, a \in {0, 1, 2, 7, -1}, r \in {0, -5, -8} : (f = "to" \/ a # 7) /\ (f = "to" => a \in {0, 7, -1}) /\ Set(Me, <<>>, f, a, r) /\ last' = <<"tx " \o f \o " " \o ToString(a)>>
Susp == "s" \in DOMAIN sus /\ sus["s"].x \in DOMAIN tx
DoSuspend ==
  /\ ~(Susp /\ InTx(C) /\ C.mine)
  /\ \E e \in (IF RMs THEN Ends ELSE {0}), r \in {0, -5, -7} :
       LET o == IF RMs /\ C.open /\ InTx(C) /\ C.mine THEN <<E("end", "suspend", C.xid, e)>> ELSE <<>> IN
       (o = <<>> => e = IF C.rbo THEN -6 ELSE 0) /\ Suspend(Me, o, r, "s") /\ last' = (IF o = <<>> THEN <<>> ELSE InjEnd(e)) \o <<"tp suspend s">>
DoResume ==
  \E s \in (IF RMs THEN {0, -3} ELSE {0}), r \in {0, -5, -6, -8} :
     LET o == IF RMs /\ C.open /\ ~InTx(C) /\ Susp THEN <<E("start", "resume", sus["s"].x, s)>> ELSE <<>> IN
     (o = <<>> => s = 0) /\ Resume(Me, o, r, "s") /\ last' = Inj("start", s) \o <<"tp resume s">>
MCNext ==
  \/ DoBegin \/ DoOpen \/ DoClose \/ DoSet \/ DoSuspend \/ DoResume
  \/ DoEnd(TRUE, {"tx commit", "tp commit"}) \/ DoEnd(FALSE, {"tx rollback", "tp abort"})
  \/ Look(Me, <<>>) /\ last' \in {<<"tx info">>, <<"tp getlev">>}
(* what own is empty for *)
MCSpec == MCInit /\ [][MCNext /\ UNCHANGED own]_<<vars, last>>
St(c, s, t) == <<c.open, InTx(c), c.mine, c.cr, c.ctl, c.to, c.rbo, IF "s" \notin DOMAIN s THEN "none" ELSE IF s["s"].x \notin DOMAIN t THEN "over" ELSE IF s["s"].x = c.xid THEN "back" ELSE "live">>
View == St(C, sus, tx)
PrintEdge == PrintT("EDGE " \o ToJson([f |-> St(C, sus, tx), e |-> last', t |-> St(C', sus', tx')]))
(* every transaction is either the one of the thread or suspended *)
NoneLost == \A x \in DOMAIN tx : x = C.xid \/ (Susp /\ sus["s"].x = x)
TypeOK == /\ C.mine => InTx(C)
          /\ InTx(C) => C.open /\ C.xid \in DOMAIN tx
====
