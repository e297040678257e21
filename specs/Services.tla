---- MODULE Services ----
(* What callers of services and the services themselves observe, whatever queues, servers and threads are in between: every request
   that was accepted is executed by one server that offers the service, once, with the data that was sent, as many times as it was
   forwarded, and its caller gets the outcome of the last execution; requests for services nobody offers are refused.
   A server runs one request at a time per thread.  Calls of one client that follow each other go to the offering queues in turn. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS QueueOf(_),    \* the request queue of a server
          MaxServices    \* how many different services can ever be offered, 0: enough
VARIABLES req,     \* requests by their identity
          run,     \* what the threads <<server, thread>> of servers execute
          tab,     \* advertisements <<server, service, function>>
          chg,     \* advertisements <<server, service, function or -1>> being made or withdrawn
          dead,    \* servers that were killed
          turn,    \* the queues that served the consecutive calls of <<client, service>>
          names    \* every service that was ever offered
vars == <<req, run, tab, chg, dead, turn, names>>
Init0(t) == req = <<>> /\ run = <<>> /\ tab = t /\ chg = {} /\ dead = {} /\ turn = <<>> /\ names = {a[2] : a \in t}
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]
(* certainly offered now *)
Offered(svc) == \E a \in tab : a[2] = svc /\ a[1] \notin dead /\ ~\E c \in chg : c[1] = a[1] /\ c[2] = svc
(* a request may come to a server that does not offer the service (any more) *)
Unsure(svc) == ~Offered(svc) \/ \E a \in tab : a[2] = svc /\ a[1] \in dead
NoOut == [kind |-> "", rcode |-> 0, img |-> "", by |-> ""]
Send(id, by, svc, img, reply, sync) ==
  /\ id \notin DOMAIN req
  /\ req' = req @@ (id :> [svc |-> svc, img |-> img, reply |-> reply, by |-> by, sync |-> sync, hop |-> 0, st |-> "queued", out |-> NoOut,
                           maybe |-> Unsure(svc),     \* could have found nobody who offers the service
                           old |-> {},                   \* advertisements withdrawn after it was sent
                           clean |-> ~\E c \in chg : c[2] = svc])
  /\ turn' = IF sync THEN turn ELSE Drop(turn, <<by, svc>>)
  /\ UNCHANGED <<run, tab, chg, dead, names>>
Finish(id) == req' = Drop(req, id)
(* the answer of tpacall *)
Accept(id, by, e) ==
  /\ UNCHANGED <<run, tab, chg, dead, turn, names>>
  /\ id \in DOMAIN req => req[id].by = by
  /\ \/ e = "ok" /\ UNCHANGED req
     \/ id \in DOMAIN req /\ e = "noent" /\ req[id].st = "queued" /\ req[id].maybe /\ Finish(id)
Push(s, x, n) == LET t == Append(s, x) IN IF Len(t) > n THEN SubSeq(t, Len(t) - n + 1, Len(t)) ELSE t
Range(s) == {s[i] : i \in 1..Len(s)}
(* sequences of calls by one client: any as many calls as there are offers reach every queue that offers *)
InTurn(id, s) ==
  LET r == req[id]
      k == <<r.by, r.svc>>
      offers == {a \in tab : a[2] = r.svc}
      n == Cardinality(offers)
      t == Push(IF k \in DOMAIN turn THEN turn[k] ELSE <<>>, QueueOf(s), n)
  IN  IF r.sync /\ r.hop = 0 /\ r.clean /\ dead = {}
      THEN /\ Len(t) = n => Range(t) = {QueueOf(a[1]) : a \in offers}
           /\ turn' = [x \in DOMAIN turn \cup {k} |-> IF x = k THEN t ELSE turn[x]]
      ELSE turn' = IF r.sync /\ r.hop = 0 THEN Drop(turn, k) ELSE turn
Exec(id, s, tid, svc, fn, img, hop) ==
  /\ id \in DOMAIN req /\ <<s, tid>> \notin DOMAIN run /\ s \notin dead
  /\ LET r == req[id] IN
     /\ r.st \in {"queued", "late"} /\ r.svc = svc /\ r.img = img /\ r.hop = hop
     /\ <<s, svc, fn>> \in tab \/ <<s, svc, fn>> \in chg \/ <<s, svc, fn>> \in r.old
     /\ IF r.st = "late" THEN UNCHANGED turn ELSE InTurn(id, s)
  /\ req' = [req EXCEPT ![id].st = IF @ = "late" THEN "laterun" ELSE "run"]
  /\ run' = run @@ (<<s, tid>> :> id)
  /\ UNCHANGED <<tab, chg, dead, names>>
Fwd(id, by, s, tid, svc, img) ==
  /\ <<s, tid>> \in DOMAIN run /\ run[<<s, tid>>] = id /\ req[id].st \in {"run", "laterun"}
  /\ run' = Drop(run, <<s, tid>>)
  /\ req' = [req EXCEPT ![id] = [@ EXCEPT !.st = IF @ = "run" THEN "queued" ELSE "late", !.hop = @ + 1, !.svc = svc, !.img = img, !.maybe = Unsure(svc), !.old = {}]]
  /\ turn' = Drop(turn, <<by, svc>>)
  /\ UNCHANGED <<tab, chg, dead, names>>
Ret(id, s, tid, kind, rcode, img) ==
  /\ <<s, tid>> \in DOMAIN run /\ run[<<s, tid>>] = id
  /\ run' = Drop(run, <<s, tid>>)
  /\ IF req[id].st = "run" /\ req[id].reply THEN req' = [req EXCEPT ![id].st = "ret", ![id].out = [kind |-> kind, rcode |-> rcode, img |-> img, by |-> s]]
     ELSE Finish(id)
  /\ UNCHANGED <<tab, chg, dead, turn, names>>
(* what the caller is told *)
Rep(id, by, r, e, rcode, img) ==
  /\ UNCHANGED <<run, tab, chg, dead, turn, names>>
  /\ IF id \notin DOMAIN req \/ req[id].st \in {"late", "laterun"} \/ ~req[id].reply THEN r = -1 /\ e = "baddesc" /\ UNCHANGED req ELSE
     LET q == req[id] o == q.out IN
     /\ q.by = by
     /\
      \/ /\ q.st = "ret" /\ Finish(id)
        /\ CASE o.kind = "ok" -> r = 0 /\ e = "ok" /\ rcode = o.rcode /\ img = o.img
             [] o.kind = "fail" -> r = -1 /\ e = "svcfail" /\ rcode = o.rcode /\ img = o.img
             [] OTHER -> r = -1 /\ e = "svcerr"
      \/ q.st = "queued" /\ q.maybe /\ r = -1 /\ (e = "noent" \/ (e = "svcerr" /\ q.hop > 0)) /\ Finish(id)
      (* the server that had it was killed *)
      \/ q.st = "ret" /\ o.by \in dead /\ r = -1 /\ e = "time" /\ Finish(id)
      \/ q.st \in {"queued", "lost"} /\ dead # {} /\ r = -1 /\ e = "time"
         /\ (IF q.st = "lost" THEN Finish(id) ELSE req' = [req EXCEPT ![id].st = "late"])
Cancel(id, by, e) ==
  /\ UNCHANGED <<run, tab, chg, dead, turn, names>>
  /\ IF id \in DOMAIN req /\ req[id].reply /\ req[id].st \notin {"late", "laterun"}
     THEN /\ e = "ok" /\ req[id].by = by
          /\ IF req[id].st \in {"ret", "lost"} THEN Finish(id) ELSE req' = [req EXCEPT ![id].reply = FALSE]
     ELSE e = "baddesc" /\ UNCHANGED req
(* changes of what is offered; between start and end both the old and the new may be seen *)
Touch(svc, withdrawn) ==
  req' = [i \in DOMAIN req |-> IF req[i].svc = svc
            THEN [req[i] EXCEPT !.clean = FALSE, !.maybe = @ \/ withdrawn,
                                !.old = IF withdrawn THEN @ \cup {a \in tab : a[2] = svc} ELSE @]
            ELSE req[i]]
AdvStart(s, what, svc, f) ==
  /\ chg' = chg \cup {<<s, svc, IF what = "adv" THEN f ELSE -1>>}
  /\ Touch(svc, what = "unadv")
  /\ UNCHANGED <<run, tab, dead, turn, names>>
Ended(s, svc) ==
  /\ chg' = {c \in chg : ~(c[1] = s /\ c[2] = svc)}
  /\ UNCHANGED <<run, dead>>
Changed(svc) == turn' = [k \in {x \in DOMAIN turn : x[2] # svc} |-> turn[k]]
Adv(s, svc, f, e) ==
  /\ Ended(s, svc)
  /\ LET mine == {a \in tab : a[1] = s /\ a[2] = svc} IN
     CASE svc = "" \/ f = 0 -> e = "inval" /\ UNCHANGED <<tab, turn, req, names>>
       [] mine # {} /\ <<s, svc, f>> \notin mine -> e = "match" /\ UNCHANGED <<tab, turn, req, names>>
       [] mine # {} /\ <<s, svc, f>> \in mine -> e = "ok" /\ UNCHANGED <<tab, turn, req, names>>
       [] mine = {} /\ svc \notin names /\ MaxServices > 0 /\ e = "limit"     \* those being added may have come first
            -> Cardinality(names \cup {c[2] : c \in {x \in chg : x[3] > 0 /\ x[2] \notin {"", svc}}}) >= MaxServices /\ UNCHANGED <<tab, turn, req, names>>
       [] OTHER -> e = "ok" /\ (svc \in names \/ MaxServices = 0 \/ Cardinality(names) < MaxServices) /\ tab' = tab \cup {<<s, svc, f>>} /\ names' = names \cup {svc} /\ Changed(svc) /\ Touch(svc, FALSE)
Unadv(s, svc, e) ==
  /\ Ended(s, svc)
  /\ LET mine == {a \in tab : a[1] = s /\ a[2] = svc} IN
     CASE svc = "" -> e = "inval" /\ UNCHANGED <<tab, turn, req, names>>
       [] svc # "" /\ mine = {} -> e = "noent" /\ UNCHANGED <<tab, turn, req, names>>
       [] OTHER -> e = "ok" /\ tab' = tab \ mine /\ Changed(svc) /\ Touch(svc, TRUE) /\ UNCHANGED names
(* a server is killed: what it was executing is lost *)
Die(s) ==
  LET gone == {k \in DOMAIN run : k[1] = s}
      ids == {run[k] : k \in gone}
      svcs == {a[2] : a \in {b \in tab : b[1] = s}}
  IN  /\ dead' = dead \cup {s} /\ chg' = {c \in chg : c[1] # s}
      /\ run' = [k \in DOMAIN run \ gone |-> run[k]]
      /\ req' = [i \in {j \in DOMAIN req : j \in ids => req[j].st = "run" /\ req[j].reply} |->
                                      IF i \in ids THEN [req[i] EXCEPT !.st = "lost"]
                                      ELSE IF req[i].st = "queued" /\ req[i].svc \in svcs THEN [req[i] EXCEPT !.maybe = TRUE, !.old = @ \cup {a \in tab : a[2] = req[i].svc}] ELSE req[i]]
      /\ UNCHANGED <<tab, turn, names>>
(* a killed server runs again, with what it offers from the start *)
Restart(s, svcs) ==
  /\ dead' = dead \ {s}
  /\ tab' = {a \in tab : a[1] # s} \cup {<<s, v, 1>> : v \in svcs}
  /\ names' = names \cup svcs
  /\ turn' = <<>> /\ UNCHANGED <<req, run, chg>>
(* servers are being shut down, one after another *)
Closing ==
  /\ chg' = chg \cup {<<a[1], a[2], -1>> : a \in tab}
  /\ req' = [i \in DOMAIN req |-> [req[i] EXCEPT !.maybe = TRUE, !.old = @ \cup {a \in tab : a[2] = req[i].svc}]]
  /\ UNCHANGED <<run, tab, dead, turn, names>>
(* after all clients are done and everything had time to finish *)
Quiesce ==
  /\ run = <<>>
  /\ \A i \in DOMAIN req : req[i].st = "queued" => req[i].maybe \/ dead # {}
  /\ UNCHANGED vars
---------------------------------------------------------------------------------------------------------
(* nothing is executed twice at a time, by two threads *)
OnePlace == \A a, b \in DOMAIN run : run[a] = run[b] => a = b
RunIsRun == \A a \in DOMAIN run : req[run[a]].st \in {"run", "laterun"}
====
