---- MODULE Client ----
(* The client side of the request/reply interface: descriptors of outstanding calls, the replies that came for them, and the limits
   on waiting.  A reply is [rval, rcode, data]; calls maps outstanding descriptors to <<>> or <<reply>>. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Services,     \* offered services
          Slack,        \* a limit is noticed at most this much later (ms)
          Tol           \* uncertainty of the recorded times of replies (ms)
VARIABLES calls, next, all, dflt,
          lim,          \* number of descriptors (0: not known yet)
          full, gone    \* services whose request queue is full / does not exist any more
vars == <<calls, next, all, dflt, lim, full, gone>>
NoReply == <<>>
Init0(d) == calls = <<>> /\ next = 0 /\ all = 0 /\ dflt = d /\ lim = 0 /\ full = {} /\ gone = {}
Cds == DOMAIN calls
Limit == IF next # 0 THEN next ELSE IF all # 0 THEN all ELSE dflt
Has(flags, c) == \E i \in 1..Len(flags) : SubSeq(flags, i, i) = c
Limited(flags) == ~Has(flags, "b") /\ ~Has(flags, "t")
Used(flags) == next' = IF Limited(flags) THEN 0 ELSE next
WithoutCd(f, c) == [x \in DOMAIN f \ {c} |-> f[x]]
Put(f, c, r) == IF c \in DOMAIN f /\ f[c] = NoReply THEN [f EXCEPT ![c] = <<r>>] ELSE f
RECURSIVE Apply(_, _)
Apply(f, acts) == IF acts = <<>> THEN f
                  ELSE LET a == Head(acts) IN
                       Apply(IF a.what = "reply" /\ a.ok = 1 THEN Put(f, a.cd, [rval |-> a.rval, rcode |-> a.rcode, data |-> a.data]) ELSE f, Tail(acts))
Rest == UNCHANGED <<all, dflt, full, gone>>
Room == lim = 0 \/ Cardinality(Cds) < lim
(* what the server must have been sent *)
Sent(svc, data, flags, req, rcd, r) ==
  /\ req = svc \o "/" \o data \o "/" \o (IF Has(flags, "n") THEN "none" ELSE "mine") \o "/0/-/0"
  /\ rcd = r
Acall(svc, data, flags, r, err, ms, req, rcd) ==
  /\ Rest /\ UNCHANGED lim
  /\ \/ /\ err = "ok" /\ svc \in Services /\ svc \notin full \cup gone /\ data # "X"
        /\ Sent(svc, data, flags, req, rcd, r) /\ Used(flags)
        /\ IF Has(flags, "n") THEN r = 0 /\ UNCHANGED calls
           ELSE r > 0 /\ r \notin Cds /\ Room /\ calls' = calls @@ (r :> NoReply)
     \/ /\ err # "ok" /\ r = -1 /\ req = "" /\ UNCHANGED calls
        /\ \/ err = "noent" /\ svc \notin Services /\ UNCHANGED next
           \/ err = "inval" /\ data = "X" /\ UNCHANGED next
           \/ err = "limit" /\ ~Has(flags, "n") /\ lim # 0 /\ ~Room /\ UNCHANGED next
           \/ err = "block" /\ svc \in full /\ Has(flags, "b") /\ UNCHANGED next
           \/ err = "time" /\ svc \in full /\ Limited(flags) /\ ms >= Limit /\ ms <= Limit + Slack /\ Used(flags)
           \/ svc \in gone /\ (UNCHANGED next \/ Used(flags))
Reply(cd, r) == calls' = Put(calls, cd, r) /\ UNCHANGED <<next, lim>> /\ Rest
(* waiting for the reply to cd (or any) in state c0, with the things that happened meanwhile *)
Class(err) == IF err = "svcfail" THEN "fail" ELSE IF err = "svcerr" THEN "err" ELSE err
Wait(c0, any, want, flags, err, cd, rcode, data, ms, acts, slack) ==
  LET c1 == Apply(c0, acts)
      usable(f, x) == x \in DOMAIN f /\ f[x] # NoReply
      ready(f) == IF any THEN \E x \in DOMAIN f : usable(f, x) ELSE usable(f, want)
      (* when the reply came: 0 if it was there *)
      came(x) == IF usable(c0, x) THEN 0
                 ELSE LET S == {acts[i].ms : i \in {j \in 1..Len(acts) : acts[j].what = "reply" /\ acts[j].ok = 1 /\ acts[j].cd = x}}
                      IN  IF S = {} THEN 1000000 ELSE CHOOSE m \in S : \A n \in S : m <= n
      first == LET S == {came(x) : x \in IF any THEN DOMAIN c0 ELSE {want}} IN IF S = {} THEN 1000000 ELSE CHOOSE m \in S : \A n \in S : m <= n
  IN  \/ /\ err \in {"ok", "svcfail", "svcerr"}
         /\ (any \/ cd = want) /\ usable(c1, cd)
         /\ LET p == c1[cd][1] IN p.rval = Class(err) /\ p.rcode = rcode /\ (p.rval = "err" \/ p.data = data)
         /\ ms <= first + slack
         /\ calls' = WithoutCd(c1, cd)
      \/ /\ err = "block" /\ Has(flags, "b") /\ ~ready(c0) /\ (~any => cd = want) /\ calls' = c1
      \/ /\ err = "time" /\ Limited(flags)
         /\ ms >= Limit /\ ms <= Limit + slack
         /\ first > Limit - Tol
         /\ (~any => cd = want)
         /\ calls' = c1
Get(any, asked, flags, err, cd, rcode, data, ms, acts) ==
  /\ UNCHANGED lim /\ Rest
  /\ IF ~any /\ asked \notin Cds THEN err = "baddesc" /\ calls' = Apply(calls, acts) /\ UNCHANGED next
     ELSE Wait(calls, any, asked, flags, err, cd, rcode, data, ms, acts, Slack) /\ Used(flags)
Call(svc, want, flags, err, rcode, data, ms, req, rcd, acts) ==
  LET f2 == IF Has(flags, "t") THEN "t" ELSE "-" IN
  /\ UNCHANGED lim /\ Rest
  /\ \/ /\ req # "" /\ svc \in Services /\ svc \notin full \cup gone /\ Room
        /\ Sent(svc, want, "-", req, rcd, rcd) /\ rcd > 0 /\ rcd \notin Cds
        /\ \E c2 \in {calls @@ (rcd :> NoReply)} :
             \/ err \in {"ok", "svcfail", "svcerr"} /\ Wait(c2, FALSE, rcd, f2, err, rcd, rcode, data, ms, acts, Slack)
             \/ err = "time" /\ Limited(f2) /\ ms >= Limit /\ ms <= Limit + Slack
                /\ (\A i \in 1..Len(acts) : acts[i].what = "reply" /\ acts[i].cd = rcd => acts[i].ms > Limit - Tol)
                /\ calls' = WithoutCd(Apply(c2, acts), rcd)
        /\ Used(f2)
     \/ /\ req = "" /\ calls' = Apply(calls, acts)
        /\ \/ err = "noent" /\ svc \notin Services /\ UNCHANGED next
           \/ err = "limit" /\ lim # 0 /\ ~Room /\ UNCHANGED next
           \/ err = "block" /\ svc \in full /\ Has(flags, "b") /\ UNCHANGED next
           \/ err = "time" /\ svc \in full /\ Limited(flags) /\ ms >= Limit /\ ms <= Limit + Slack /\ Used(flags)
           \/ svc \in gone /\ err \notin {"ok", "svcfail", "svcerr"} /\ (UNCHANGED next \/ Used(flags))
Cancel(cd, err) ==
  /\ UNCHANGED <<next, lim>> /\ Rest
  /\ IF cd \in Cds THEN err = "ok" /\ calls' = WithoutCd(calls, cd) ELSE err = "baddesc" /\ UNCHANGED calls
SetLimit(v, f, err) ==
  /\ UNCHANGED <<calls, dflt, lim, full, gone>>
  /\ IF v >= 0 /\ f \in {1, 2, 17, 18}
     THEN LET t == IF f < 16 THEN v * 1000 ELSE v IN
          err = "ok" /\ (IF f % 16 = 1 THEN next' = t /\ UNCHANGED all ELSE all' = t /\ UNCHANGED next)
     ELSE err = "inval" /\ UNCHANGED <<next, all>>
ReadLimit(f, r, err) ==
  /\ UNCHANGED vars
  /\ CASE f \in {17, 18} -> err = "ok" /\ r = (IF f = 17 THEN next ELSE all)
       [] f \in {1, 2} -> err = "ok" /\ LET t == IF f = 1 THEN next ELSE all IN r = t \div 1000 \/ (t % 1000 # 0 /\ r = (t \div 1000) + 1)
       [] f \in {0, 16} -> err = "ok"
       [] OTHER -> err = "inval"
(* every free descriptor was taken and given back *)
Fill(n, err, good, sent) ==
  /\ err = "limit" /\ good = 1 /\ sent = 0 /\ n >= 1
  /\ lim # 0 => n + Cardinality(Cds) = lim
  /\ lim' = n + Cardinality(Cds)
  /\ next' = 0       \* the calls used a limit for the next call
  /\ UNCHANGED calls /\ Rest
====
