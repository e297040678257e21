---- MODULE Life ----
(* A domain as administrators see it: servers start, stop and die, system resources come and go, services are offered, and
   management queries tell about all of that (L01, A01). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Srv,       \* servers: identity -> [grp, gno, id, q, auto, log, name, svcs] (log: tells when it starts and ends its work); the first one is the one that answers queries (BBL)
          Bbl        \* its identity

VARIABLES run,       \* servers that run
          fails,     \* servers whose initialisation fails
          off,       \* server -> services it offers
          stale,     \* servers that died, perhaps unnoticed so far
          gone       \* nothing of the domain is left in the system
vars == <<run, fails, off, stale, gone>>

S == DOMAIN Srv
Sel(g, i) == {s \in S : (g = "" \/ Srv[s].grp = g) /\ (i = -1 \/ Srv[s].id = i)}
All(g, i) == g = "" /\ i = -1
Set(q) == {q[k] : k \in 1..Len(q)}
Once(q) == \A j, k \in 1..Len(q) : q[j] = q[k] => j = k
Is(q, T) == Once(q) /\ Set(q) = T

Init == run = {} /\ fails = {} /\ off = [s \in S |-> {}] /\ stale = {} /\ gone = TRUE

(* every selected server that should start and does not run is started, and no other *)
Want(g, i) == {s \in Sel(g, i) : Srv[s].auto} \ run
Boot(g, i, started, failed, dup, inits) ==
  LET w == Want(g, i)
      new == w \ fails IN
  /\ Is(started, new) /\ Is(failed, w \cap fails) /\ Is(dup, {s \in Sel(g, i) : Srv[s].auto} \cap run)
  /\ Is(inits, {s \in w : Srv[s].log})
  /\ run' = run \cup new
  /\ off' = [s \in S |-> IF s \in new THEN Srv[s].svcs ELSE IF s \in w THEN {} ELSE off[s]]
  /\ stale' = stale \ w
  /\ gone' = FALSE
  /\ UNCHANGED fails

(* every selected server that runs stops, after it has cleaned up, and no other; if all do nothing is left *)
Shut(g, i, ok, no, dones) ==
  LET t == run \cap Sel(g, i) IN
  /\ Is(ok, t) /\ Is(dones, {s \in t : Srv[s].log}) /\ Set(no) \cap t = {}
  /\ run' = run \ t
  /\ off' = [s \in S |-> IF s \in Sel(g, i) THEN {} ELSE off[s]]
  /\ stale' = stale \ Sel(g, i)
  /\ gone' = All(g, i)
  /\ UNCHANGED fails

Kill(s) ==
  /\ s \in run
  /\ run' = run \ {s} /\ stale' = stale \cup {s}
  /\ UNCHANGED <<off, fails, gone>>

(* large requests for a server that takes none of them *)
Spill(s, svc, r) == s \in run /\ (svc \in off[s] => r = 0) /\ UNCHANGED vars

(* somebody looks after the dead *)
Settle ==
  /\ IF Bbl \in run THEN stale' = {} /\ off' = [s \in S |-> IF s \in stale THEN {} ELSE off[s]] ELSE UNCHANGED <<stale, off>>
  /\ UNCHANGED <<run, fails, gone>>

(* system resources are removed: nobody can go on without *)
Rm ==
  /\ run' = {} /\ stale' = {} /\ off' = [s \in S |-> {}] /\ gone' = TRUE
  /\ UNCHANGED fails

Fail(s, on) ==
  /\ fails' = IF on THEN fails \cup {s} ELSE fails \ {s}
  /\ UNCHANGED <<run, off, stale, gone>>

(* what is there; files: large requests not taken that are kept in files *)
Obs(alive, q, shm, sem, files) ==
  /\ alive = run
  /\ IF gone THEN q = 0 /\ shm = 0 /\ sem = 0 /\ files = 0
     ELSE /\ shm <= 1 /\ sem <= 1 /\ (run # {} => shm = 1 /\ sem = 1)
          /\ Cardinality({Srv[s].q : s \in run}) <= q /\ q <= Cardinality({Srv[s].q : s \in S})
  /\ UNCHANGED vars

Offering(svc) == {s \in run : svc \in off[s]}
(* a request goes to one that offers the service; the dead are asked as long as nobody noticed *)
Call(svc, by, r, e) ==
  /\ LET dead == \E s \in stale : svc \in off[s] IN
     CASE Len(by) = 1 -> by[1] \in Offering(svc) /\ r = 0
       [] Len(by) = 0 -> r = -1 /\ (Offering(svc) = {} \/ dead) /\ e \in (IF dead THEN {"noent", "time"} ELSE {"noent"})
       [] OTHER -> FALSE
  /\ gone' = FALSE    \* clients make what they need
  /\ UNCHANGED <<run, fails, stale>>
Adv(s, op, svc, r) ==
  IF op = "adv" THEN r = 0 /\ off' = [off EXCEPT ![s] = @ \cup {svc}]
  ELSE IF svc \in off[s] THEN r = 0 /\ off' = [off EXCEPT ![s] = @ \ {svc}]
  ELSE r = -1 /\ UNCHANGED off

(* management queries: rows are what the answer lists *)
States(s) == IF s \in run THEN {"ACT"} ELSE IF s \in stale THEN {"ACT", "INA"} ELSE {"INA"}
Known(row) == {s \in S : Srv[s].gno = row.gno /\ Srv[s].id = row.id}
Rows(class, rows, dom, mach) ==
  LET n == Len(rows) IN
  CASE class = "T_SERVER" ->
         /\ n = Cardinality(S)
         /\ \A k \in 1..n : \E s \in Known(rows[k]) : rows[k].state \in States(s) /\ rows[k].name = Srv[s].name /\ (s # Bbl => rows[k].grp = Srv[s].grp)
         /\ \A j, k \in 1..n : rows[j].gno = rows[k].gno /\ rows[j].id = rows[k].id => j = k
    [] class = "T_SVCGRP" ->
         /\ \A k \in 1..n : \E s \in Known(rows[k]) : s \in run \cup stale /\ rows[k].svc \in off[s] /\ rows[k].state = "ACT" /\ rows[k].q = Srv[s].q
         /\ \A s \in run : \A v \in off[s] : \E k \in 1..n : s \in Known(rows[k]) /\ rows[k].svc = v
         /\ \A j, k \in 1..n : rows[j].gno = rows[k].gno /\ rows[j].id = rows[k].id /\ rows[j].svc = rows[k].svc => j = k
    [] class = "T_SERVICE" ->
         /\ \A k \in 1..n : LET v == rows[k].svc IN
              rows[k].state \in (IF Offering(v) # {} THEN {"ACT"} ELSE IF \E s \in stale : v \in off[s] THEN {"ACT", "INA"} ELSE {"INA"})
         /\ \A s \in run : \A v \in off[s] : \E k \in 1..n : rows[k].svc = v
         /\ \A j, k \in 1..n : rows[j].svc = rows[k].svc => j = k
    [] class = "T_QUEUE" ->
         /\ {rows[k].q : k \in 1..n} = {Srv[s].q : s \in S} /\ n = Cardinality({Srv[s].q : s \in S})
         /\ \A k \in 1..n : \E s \in S : Srv[s].q = rows[k].q /\ Srv[s].name = rows[k].name
    [] class = "T_DOMAIN" -> n = 1 /\ rows[1] = dom
    [] class = "T_MACHINE" -> n = 1 /\ rows[1] = mach
    [] OTHER -> FALSE
Classes == {"T_SERVER", "T_SVCGRP", "T_SERVICE", "T_QUEUE", "T_DOMAIN", "T_MACHINE"}
(* how: asked through the service, of the own process, or something that isn't a query was sent *)
Query(class, f, how, r, e, err, occ, rows, dom, mach) ==
  /\ IF Bbl \notin run /\ how # "own" THEN r = -1 /\ rows = <<>> /\ (e = "noent" \/ (e = "time" /\ Bbl \in stale))
     ELSE IF how \in {"str", "null"} THEN rows = <<>> /\ r = -1 /\ e = "svcfail"
     ELSE IF class \in Classes /\ f = "GET" THEN r = 0 /\ err = 0 /\ occ = Len(rows) /\ Rows(class, rows, dom, mach)
     ELSE /\ rows = <<>> /\ (r = 0 \/ e = "svcfail") /\ err < 0 /\ err # -99
  /\ gone' = FALSE
  /\ UNCHANGED <<run, fails, off, stale>>

TypeOK == /\ run \subseteq S /\ stale \subseteq S \ run /\ (gone => run = {})
          /\ \A s \in S : off[s] # {} => s \in run \cup stale
====
