---- MODULE Trx ----
(* Transactions of the applications (T01-T03): what threads see of the TX and ATMI calls, how the branches of a
   transaction are started, left, prepared and ended, and who works in which transaction.

   A thread of control is a client thread or a dispatch thread of a server.  The calls it makes to the resource manager
   of its group are gathered in own (since the end of the previous operation); the calls transaction managers make for a
   transaction are gathered in tms.  An operation ends with a result and may only have made the calls it should have. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS GroupOf(_),    \* of a process; 0: clients, they have no resource manager
          TableSize      \* transactions at a time

VARIABLES ctx,       \* thread -> what its TX interface is in
          own,       \* thread -> calls to the resource manager
          ph,        \* thread -> what a dispatch thread does
          tx,        \* transaction -> groups that take part
          tms,       \* transaction -> calls of transaction managers
          br,        \* branches: <<group, xid>>
          req,       \* requests
          sus,       \* label -> suspended transaction
          seen,      \* every identifier there ever was
          done,      \* committed ones
          refused,   \* transactions somebody could not join
          down       \* groups whose transaction managers have died
vars == <<ctx, own, ph, tx, tms, br, req, sus, seen, done, refused, down>>

PROTO == -5
NoBegin == -100
Get(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Del(f, S) == [y \in DOMAIN f \ S |-> f[y]]
Sel(s, f) == SelectSeq(s, LAMBDA e : e.f = f)
Groups(s) == {s[i].g : i \in 1..Len(s)}
OncePer(s) == \A i, j \in 1..Len(s) : s[i].g = s[j].g => i = j

Closed == [open |-> FALSE, xid |-> "", mine |-> FALSE, cr |-> 0, ctl |-> 0, to |-> 0, rbo |-> FALSE]
Ctx(t) == Get(ctx, t, Closed)
Own(t) == Get(own, t, <<>>)
InTx(c) == c.xid # ""
HasRM(t) == GroupOf(t[1]) # 0
Ph(t) == Get(ph, t, IF HasRM(t) THEN [p |-> "idle", id |-> "", x |-> "", ok |-> FALSE, lx |-> "", late |-> FALSE] ELSE [p |-> "prog", id |-> "", x |-> "", ok |-> FALSE, lx |-> "", late |-> FALSE])

(* what tx_info shows *)
Shown(c) == [level |-> IF ~c.open THEN PROTO ELSE IF InTx(c) THEN 1 ELSE 0,
             xid |-> IF ~c.open THEN "" ELSE IF InTx(c) THEN c.xid ELSE "-",
             cr |-> IF c.open THEN c.cr ELSE 0, ctl |-> IF c.open THEN c.ctl ELSE 0, to |-> IF c.open THEN c.to ELSE 0]

----
(* outcomes: t is what the transaction managers were called for, must/may the groups that take part for sure/perhaps *)
RB(r) == r >= 100 /\ r <= 107
Res(s, g) == LET k == CHOOSE i \in 1..Len(s) : s[i].g = g IN s[k].r
Results(s) == {s[i].r : i \in 1..Len(s)}

RollbackOutcome(b, must, plain) ==
  IF Results(b) \cap {5, 7} # {} THEN {-3} \cup (IF Results(b) = {7} THEN {-9} ELSE {})
  ELSE IF 8 \in Results(b) THEN {-4}
  ELSE {plain} \cup (IF must \subseteq Groups(b) /\ Results(b) \subseteq {0, -4} THEN {} ELSE {-4})

RolledBack(must, may, t, res, plain) ==
  /\ \A i \in 1..Len(t) : t[i].f = "rollback"
  /\ OncePer(t)
  /\ must \ down \subseteq Groups(t)
  /\ Groups(t) \subseteq may
  /\ res \in RollbackOutcome(t, must, plain)

Committed(must, may, t, res) ==
  LET p == Sel(t, "prepare")
      c == Sel(t, "commit")
      b == Sel(t, "rollback")
      np == Len(p)
      yes == {g \in Groups(p) : Res(p, g) = 0}
      ro == {g \in Groups(p) : Res(p, g) = 3}
      no == {g \in Groups(p) : RB(Res(p, g)) \/ Res(p, g) = -4}
      all == must \subseteq yes \cup ro /\ Groups(p) = yes \cup ro
  IN /\ OncePer(p) /\ OncePer(c) /\ OncePer(b)
     /\ must \ down \subseteq Groups(p)
     /\ Groups(p) \subseteq may
     /\ \A i \in 1..Len(t) : i <= np <=> t[i].f = "prepare"     \* nothing is decided before everybody has voted
     /\ IF c # <<>>
        THEN /\ all /\ b = <<>>
             /\ Groups(c) \subseteq yes /\ yes \ down \subseteq Groups(c)
             /\ LET rs == {Res(c, g) : g \in Groups(c)} \cup (IF yes \subseteq Groups(c) THEN {} ELSE {999})
                IN res \in IF rs = {6} THEN {-3, -2} ELSE IF rs \cap {5, 6} # {} THEN {-3} ELSE IF rs \subseteq {0, 7} THEN {0} ELSE {-4}
        ELSE \/ /\ all /\ b = <<>> /\ yes \ down = {}
                /\ res = IF yes = {} THEN 0 ELSE -4
             \/ /\ ~all \/ (may \cap down) \ Groups(p) # {}          \* whoever can't be asked has not agreed
                /\ Groups(b) \subseteq may \ ro
                /\ Groups(p) \ (ro \cup no \cup down) \subseteq Groups(b)
                /\ res \in RollbackOutcome(b, yes, -2)
Decided(t) == Sel(t, "commit") # <<>>

----
(* the calls a thread makes itself *)
Call(o, i, f, fl, x) == i <= Len(o) /\ o[i].f = f /\ o[i].fl = fl /\ o[i].x = x
(* suspended while others work in the transaction, and resumed afterwards *)
RECURSIVE Pairs(_, _)
Pairs(o, x) == \/ o = <<>>
               \/ Call(o, 1, "end", "suspend", x) /\ o[1].r # 0 /\ Pairs(Tail(o), x)
               \/ Call(o, 1, "end", "suspend", x) /\ o[1].r = 0 /\ Call(o, 2, "start", "resume", x) /\ Pairs(SubSeq(o, 3, Len(o)), x)
Failed(o) == \E i \in 1..Len(o) : o[i].r # 0

SetC(t, c) == ctx' = Put(ctx, t, c)
Clear(t) == own' = Put(own, t, <<>>)
Over(x) == IF x \in DOMAIN tx THEN tx[x].ending ELSE TRUE
Live == Cardinality(DOMAIN tx)
NewTx == [must |-> {}, may |-> {}, m0 |-> {}, ending |-> FALSE]
(* the first branch is the one of the thread that begins *)
Begun(t) == IF HasRM(t) THEN LET g == {GroupOf(t[1])} IN [NewTx EXCEPT !.must = g, !.may = g] ELSE NewTx

(* how a begin came out: r is what begin returned, x the new transaction *)
BeginOwn(t, o, r, x) ==
  IF ~HasRM(t) THEN o = <<>> /\ IF Live >= TableSize THEN r = -6 ELSE r = 0
  ELSE IF o = <<>> THEN Live >= TableSize /\ r = -6
  ELSE /\ Live < TableSize
       /\ Len(o) = 1 /\ o[1].f = "start" /\ o[1].fl = "no"
       /\ r \in CASE o[1].r = 0 -> {0} [] o[1].r = -9 -> {-1} [] o[1].r = -7 -> {-7} [] OTHER -> {-6, -7}
       /\ (r = 0 => x = o[1].x)

Same(t, c) == SetC(t, c) /\ UNCHANGED <<ph, tx, tms, br, req, sus, seen, done, refused, down>>

(* f, argument, result; x is the transaction the thread is in afterwards *)
Begin(t, o, r, x) ==
  LET c == Ctx(t) IN
  IF ~c.open \/ InTx(c) THEN r = PROTO /\ o = <<>> /\ Same(t, c)
  ELSE /\ BeginOwn(t, o, r, x)
       /\ IF r = 0 THEN /\ x \notin seen /\ seen' = seen \cup {x}
                        /\ SetC(t, [c EXCEPT !.xid = x, !.mine = TRUE, !.rbo = FALSE])
                        /\ tx' = Put(tx, x, Begun(t)) /\ tms' = Put(tms, x, <<>>)
                        /\ UNCHANGED <<ph, br, req, sus, done, refused, down>>
          ELSE Same(t, c)

(* the end of a transaction: out tells which results are right for what was done *)
End(t, o, r, x, wasCommit, ts, m0) ==
  LET c == Ctx(t) IN
  IF ~c.open \/ ~InTx(c) \/ ~c.mine THEN r = PROTO /\ o = <<>> /\ Same(t, c)
  ELSE LET n == IF HasRM(t) THEN 1 ELSE 0
           rest == SubSeq(o, n + 1, Len(o))
           r0 == IF r <= NoBegin THEN r - NoBegin ELSE r
           k == tx[c.xid]
           only == c.rbo \/ (n = 1 /\ o[1].r # 0)
       IN /\ n = 1 => Len(o) >= 1 /\ o[1].f = "end" /\ o[1].x = c.xid /\ o[1].fl \in (IF wasCommit THEN {"success"} ELSE {"success", "fail"})
          /\ IF wasCommit /\ ~only THEN Committed(m0, k.may, ts, r0) ELSE RolledBack(m0, k.may, ts, r0, IF wasCommit THEN -2 ELSE 0)
          /\ done' = IF Decided(ts) \/ (wasCommit /\ ~only /\ r0 = 0) THEN done \cup {c.xid} ELSE done
          /\ IF c.ctl = 0
             THEN /\ rest = <<>> /\ r = r0
                  /\ SetC(t, [c EXCEPT !.xid = "", !.mine = FALSE, !.rbo = FALSE])
                  /\ tx' = Del(tx, {c.xid}) /\ tms' = Del(tms, {c.xid}) /\ UNCHANGED seen
             ELSE \* chained: the next one begins
                  \E br1 \in {0, -1, -6, -7} :
                     /\ IF br1 = 0 THEN r = r0 ELSE r = r0 + NoBegin
                     /\ IF ~HasRM(t) THEN rest = <<>> /\ br1 = 0
                        ELSE IF rest = <<>> THEN Live > TableSize /\ br1 = -6
                        ELSE Len(rest) = 1 /\ rest[1].f = "start" /\ rest[1].fl = "no" /\ (br1 = 0 <=> rest[1].r = 0) /\ (br1 = 0 => x = rest[1].x)
                     /\ IF br1 = 0
                        THEN /\ x \notin seen /\ seen' = seen \cup {x}
                             /\ SetC(t, [c EXCEPT !.xid = x, !.mine = TRUE, !.rbo = FALSE])
                             /\ tx' = Put(Del(tx, {c.xid}), x, Begun(t))
                             /\ tms' = Put(Del(tms, {c.xid}), x, <<>>)
                        ELSE /\ SetC(t, [c EXCEPT !.xid = "", !.mine = FALSE, !.rbo = FALSE])
                             /\ tx' = Del(tx, {c.xid}) /\ tms' = Del(tms, {c.xid}) /\ UNCHANGED seen
          /\ UNCHANGED <<ph, br, req, sus, refused, down>>

Open(t, o, r) ==
  LET c == Ctx(t) IN
  /\ IF HasRM(t) THEN Len(o) = 1 /\ o[1].f = "open" /\ (r = 0 <=> o[1].r = 0) ELSE o = <<>> /\ r = 0
  /\ \E cr2 \in {0, c.cr}, to2 \in {0, c.to} :
        Same(t, IF r = 0 /\ ~c.open THEN [Closed EXCEPT !.open = TRUE, !.cr = cr2, !.to = to2] ELSE c)
Close(t, o, r) ==
  LET c == Ctx(t) IN
  IF InTx(c) THEN r = PROTO /\ o = <<>> /\ Same(t, c)
  ELSE /\ IF HasRM(t) THEN Len(o) = 1 /\ o[1].f = "close" /\ (r = 0 <=> o[1].r = 0) ELSE o = <<>> /\ r = 0
       /\ Same(t, IF r = 0 THEN [c EXCEPT !.open = FALSE] ELSE c)
Set(t, o, f, a, r) ==
  LET c == Ctx(t) IN
  /\ o = <<>>
  /\ IF ~c.open THEN r = PROTO /\ Same(t, c)
     ELSE IF (f \in {"cr", "ctl"} /\ a \notin {0, 1}) \/ (f = "to" /\ a < 0) THEN r = -8 /\ Same(t, c)
     ELSE r = 0 /\ Same(t, CASE f = "cr" -> [c EXCEPT !.cr = a] [] f = "ctl" -> [c EXCEPT !.ctl = a] [] OTHER -> [c EXCEPT !.to = a])
Look(t, o) == o = <<>> /\ Same(t, Ctx(t))

Suspend(t, o, r, lab) ==
  LET c == Ctx(t) IN
  IF ~c.open \/ ~InTx(c) \/ ~c.mine THEN r = PROTO /\ o = <<>> /\ Same(t, c)
  ELSE /\ IF HasRM(t) THEN Len(o) = 1 /\ Call(o, 1, "end", "suspend", c.xid) ELSE o = <<>>
       /\ IF o = <<>> \/ o[1].r = 0
          THEN /\ r = 0
               /\ sus' = Put(sus, lab, [x |-> c.xid, rbo |-> c.rbo])
               /\ SetC(t, [c EXCEPT !.xid = "", !.mine = FALSE, !.rbo = FALSE])
               /\ UNCHANGED <<ph, tx, tms, br, req, seen, done, refused, down>>
          ELSE r # 0 /\ Same(t, [c EXCEPT !.rbo = TRUE])
Resume(t, o, r, lab) ==
  LET c == Ctx(t)
      s == Get(sus, lab, [x |-> "", rbo |-> FALSE]) IN
  IF ~c.open \/ InTx(c) THEN r = PROTO /\ o = <<>> /\ Same(t, c)
  ELSE IF s.x \notin DOMAIN tx THEN r = -8 /\ o = <<>> /\ Same(t, c)
  ELSE /\ IF HasRM(t) THEN Len(o) = 1 /\ Call(o, 1, "start", "resume", s.x) ELSE o = <<>>
       /\ IF o = <<>> \/ o[1].r = 0 THEN r = 0 /\ Same(t, [c EXCEPT !.xid = s.x, !.mine = TRUE, !.rbo = s.rbo])
          ELSE r # 0 /\ Same(t, c)

(* ATMI: the timeout is kept only if a transaction has begun *)
TpBegin(t, o, r, x, to) ==
  LET c == Ctx(t) IN
  IF c.open /\ ~InTx(c) /\ to < 0 THEN r = -8 /\ o = <<>> /\ Same(t, c)
  ELSE IF ~c.open \/ InTx(c) THEN r = PROTO /\ o = <<>> /\ Same(t, c)
  ELSE /\ BeginOwn(t, o, r, x)
       /\ IF r = 0 THEN /\ x \notin seen /\ seen' = seen \cup {x}
                        /\ SetC(t, [c EXCEPT !.xid = x, !.mine = TRUE, !.rbo = FALSE, !.to = to])
                        /\ tx' = Put(tx, x, Begun(t)) /\ tms' = Put(tms, x, <<>>)
                        /\ UNCHANGED <<ph, br, req, sus, done, refused, down>>
          ELSE Same(t, c)

(* a thread is about to end its transaction *)
Ending(t) ==
  LET c == Ctx(t) IN
  /\ Own(t) = <<>>
  /\ IF InTx(c) /\ c.mine THEN tms[c.xid] = <<>> /\ tx' = [tx EXCEPT ![c.xid].m0 = tx[c.xid].must, ![c.xid].ending = TRUE] ELSE UNCHANGED tx
  /\ UNCHANGED <<ctx, own, ph, tms, br, req, sus, seen, done, refused, down>>

----
(* calls to resource managers *)
BrNext(f, fl, x, g, r) ==
  CASE f = "start" /\ fl = "no" /\ r = 0 -> br \cup {<<g, x>>}
    [] f = "prepare" /\ (r = 3 \/ RB(r)) -> br \ {<<g, x>>}
    [] f = "commit" /\ r \notin {-7, 4, -6, -4} -> br \ {<<g, x>>}
    [] f = "rollback" /\ r \notin {-7, -6, -4} -> br \ {<<g, x>>}
    [] OTHER -> br

Takes(x, g, r) ==
  tx' = IF x \in DOMAIN tx
        THEN [tx EXCEPT ![x].may = @ \cup {g}, ![x].must = IF r = 0 THEN @ \cup {g} ELSE @] ELSE tx

Xa(t, f, fl, x, g, r) ==
  LET p == Ph(t)
      c == Ctx(t)
      e == [f |-> f, fl |-> fl, x |-> x, r |-> r]
  IN
  /\ g = GroupOf(t[1])
  /\ br' = BrNext(f, fl, x, g, r)
  /\ IF p.p = "prog"
     THEN /\ f # "rollback"
          /\ own' = Put(own, t, Append(Own(t), e))
          /\ UNCHANGED <<ctx, ph, tx, tms, req, sus, seen, done, refused, down>>
     ELSE CASE f \in {"open", "close"} ->
                 /\ (p.p = "idle" \/ (p.p = "joining" /\ ~p.ok)) /\ SetC(t, IF f = "open" /\ r = 0 THEN (IF c.open THEN c ELSE [Closed EXCEPT !.open = TRUE]) ELSE IF f = "close" /\ r = 0 THEN [c EXCEPT !.open = FALSE] ELSE c)
                 /\ UNCHANGED <<own, ph, tx, tms, req, sus, seen, done, refused, down>>
            [] f = "end" /\ p.p = "leaving" ->
                 (* the service is over: its part of the transaction is good only if the service was *)
                 /\ x = c.xid
                 /\ IF c.mine THEN fl \in {"success", "fail"} ELSE IF p.ok THEN fl = "success" ELSE fl = "fail" \/ c.rbo
                 /\ SetC(t, [c EXCEPT !.xid = "", !.mine = FALSE, !.rbo = FALSE])
                 /\ ph' = Put(ph, t, [p EXCEPT !.p = "idle", !.lx = x])
                 /\ req' = IF p.id \in DOMAIN req
                           THEN [req EXCEPT ![p.id].st = IF ~p.ok \/ (~c.mine /\ fl = "success" /\ r = 0) THEN @ ELSE "err",
                                            ![p.id].x2 = IF c.mine THEN x ELSE @] ELSE req
                 /\ tx' = IF c.mine THEN [tx EXCEPT ![x].m0 = tx[x].must, ![x].ending = TRUE] ELSE tx
                 /\ UNCHANGED <<own, tms, sus, seen, done, refused, down>>
            [] f = "start" /\ p.p \in {"idle", "joining"} ->
                 /\ fl \in {"no", "join"} /\ x \in seen
                 /\ (p.p = "joining" => ~p.ok)
                 /\ Takes(x, g, r)
                 /\ ph' = Put(ph, t, [p EXCEPT !.p = "joining", !.x = x, !.ok = (r = 0), !.late = Over(x)])
                 /\ refused' = IF r = 0 THEN refused ELSE refused \cup {x}
                 /\ UNCHANGED <<ctx, own, tms, req, sus, seen, done, down>>
            [] f = "end" /\ p.p = "joining" ->
                 (* too late *)
                 /\ p.ok /\ fl = "fail" /\ p.x = x /\ Over(x)
                 /\ ph' = Put(ph, t, [p EXCEPT !.p = "idle", !.lx = x])
                 /\ refused' = refused \cup {x}
                 /\ UNCHANGED <<ctx, own, tx, tms, req, sus, seen, done, down>>
            [] f = "rollback" /\ p.p = "idle" ->
                 (* work that outlived its transaction is undone by whoever did it; what was committed has no such work *)
                 /\ p.lx = x /\ (x \notin done \/ p.late \/ r = -4) /\ Over(x)
                 /\ ph' = Put(ph, t, [p EXCEPT !.lx = ""])
                 /\ refused' = refused \cup {x}
                 /\ req' = IF p.id \in DOMAIN req /\ req[p.id].xid = x THEN [req EXCEPT ![p.id].st = "err"] ELSE req
                 /\ UNCHANGED <<ctx, own, tx, tms, sus, seen, done, down>>
            [] OTHER -> FALSE

(* transaction managers are called by whoever ends the transaction *)
Tms(f, x, g, r) ==
  /\ x \in DOMAIN tx /\ tx[x].ending
  /\ tms' = [tms EXCEPT ![x] = Append(@, [f |-> f, g |-> g, r |-> r])]
  /\ br' = BrNext(f, "no", x, g, r)
  /\ down' = IF r = 999 THEN down \cup {g} ELSE down
  (* a group may already take part though it has not started to work for a request on its way *)
  /\ tx' = IF r = -4 /\ \E i \in DOMAIN req : req[i].xid = x /\ req[i].st \in {"sent", "fwd"} THEN [tx EXCEPT ![x].may = @ \cup {g}] ELSE tx
  /\ UNCHANGED <<ctx, own, ph, req, sus, seen, done, refused>>

----
(* requests *)
CallOwn(t, o) == LET c == Ctx(t) IN IF InTx(c) /\ HasRM(t) THEN Pairs(o, c.xid) ELSE o = <<>>
AfterCall(t, o) == LET c == Ctx(t) IN IF Failed(o) THEN [c EXCEPT !.rbo = TRUE] ELSE c

Send(t, id, notran, reply) ==
  /\ Own(t) = <<>>
  /\ req' = Put(req, id, [xid |-> IF InTx(Ctx(t)) /\ ~notran THEN Ctx(t).xid ELSE "-", st |-> "sent", x2 |-> "", reply |-> reply])
  /\ UNCHANGED <<ctx, own, ph, tx, tms, br, sus, seen, done, refused, down>>

(* a thread that was called works in the transaction of the caller, and in no other *)
Exec(t, id, shown) ==
  LET q == req[id].xid
      p == Ph(t)
      c == Ctx(t)
      c2 == IF q = "-" THEN c ELSE [c EXCEPT !.xid = q, !.mine = FALSE, !.rbo = FALSE]
  IN /\ id \in DOMAIN req
     /\ \A s \in DOMAIN ph : ph[s].p = "leaving" => ph[s].id # id
     /\ IF q = "-" THEN p.p = "idle" \/ (p.p = "joining" /\ ~p.ok) ELSE p.p = "joining" /\ p.x = q /\ p.ok /\ c.open
     /\ ~InTx(c)
     /\ shown = Shown(c2)
     /\ SetC(t, c2)
     /\ Clear(t)
     /\ req' = [req EXCEPT ![id].st = "run"]
     /\ ph' = Put(ph, t, [p |-> "prog", id |-> id, x |-> "", ok |-> FALSE, lx |-> "", late |-> q # "-" /\ p.late])
     /\ UNCHANGED <<tx, tms, br, sus, seen, done, refused, down>>

(* the service is done: kind of its end *)
Ret(t, kind) ==
  LET p == Ph(t)
      c == Ctx(t)
      st == CASE kind = "ok" -> "ok" [] kind = "fail" -> "fail" [] kind = "fwd" -> "fwd" [] OTHER -> "err"
  IN /\ p.p = "prog"
     /\ Own(t) = <<>>
     /\ req' = IF p.id \in DOMAIN req THEN [req EXCEPT ![p.id].st = IF st \in {"ok", "fwd"} /\ InTx(c) /\ c.rbo THEN "err" ELSE st] ELSE req
     /\ ph' = Put(ph, t, [p EXCEPT !.p = IF InTx(c) THEN "leaving" ELSE "idle", !.ok = (kind \in {"ok", "fwd"} /\ ~c.rbo)])
     /\ UNCHANGED <<ctx, own, tx, tms, br, sus, seen, done, refused, down>>

(* a forward to nowhere leaves as a failure *)
FwdLost(t) ==
  /\ Ph(t).p = "leaving" /\ Ph(t).ok /\ Ph(t).id \in DOMAIN req /\ req[Ph(t).id].st = "fwd"
  /\ ph' = [ph EXCEPT ![t].ok = FALSE]
  /\ req' = [req EXCEPT ![Ph(t).id].st = "err"]
  /\ UNCHANGED <<ctx, own, tx, tms, br, sus, seen, done, refused, down>>

Rep(t, id, r, e, o) ==
  /\ CallOwn(t, o)
  /\ SetC(t, AfterCall(t, o)) /\ Clear(t)
  /\ IF id \notin DOMAIN req THEN UNCHANGED <<req, tx, tms>>
     ELSE LET q == req[id]
              open == \E s \in DOMAIN ph : ph[s].p = "leaving" /\ ph[s].id = id
              final == r = 0 \/ e \in {"svcfail", "svcerr", "noent", "time"}
          IN /\ r = 0 => q.st = "ok"
             /\ e = "svcfail" => q.st = "fail"
             /\ (r = 0 \/ e \in {"svcfail", "svcerr"}) => ~open
             /\ e = "svcerr" => \/ q.st = "err"
                                \/ q.st \in {"sent", "fwd"} /\ (q.xid = "-" \/ q.xid \in refused \/ Over(q.xid) \/ \E s \in DOMAIN ctx : HasRM(s) /\ ~ctx[s].open)
             /\ IF q.x2 # "" /\ final
                THEN /\ RolledBack(tx[q.x2].m0, tx[q.x2].may, tms[q.x2], 0, 0) \/ RolledBack(tx[q.x2].m0, tx[q.x2].may, tms[q.x2], -3, 0) \/ RolledBack(tx[q.x2].m0, tx[q.x2].may, tms[q.x2], -4, 0)
                     /\ tx' = Del(tx, {q.x2}) /\ tms' = Del(tms, {q.x2})
                ELSE UNCHANGED <<tx, tms>>
             (* the caller no longer waits, but what it sent may still be served *)
             /\ req' = IF final /\ ~(e = "time" /\ q.st \in {"sent", "fwd", "run"}) THEN Del(req, {id}) ELSE req
  /\ UNCHANGED <<ph, br, sus, seen, done, refused, down>>

(* calls that return no reply: they change nothing *)
Other(t, o) ==
  /\ CallOwn(t, o) /\ SetC(t, AfterCall(t, o)) /\ Clear(t)
  /\ UNCHANGED <<ph, tx, tms, br, req, sus, seen, done, refused, down>>

(* everybody is done: no transaction is under way, and nothing is left in resource managers that did as they were told *)
Quiesce(odd) ==
  /\ (DOMAIN tx = {} /\ br = {}) \/ odd \/ PrintT(<<"left over", tx, br>>) = FALSE
  /\ UNCHANGED vars

Init == /\ ctx = <<>> /\ own = <<>> /\ ph = <<>> /\ tx = <<>> /\ tms = <<>> /\ br = {} /\ req = <<>> /\ sus = <<>>
        /\ seen = {} /\ done = {} /\ refused = {} /\ down = {}
====
