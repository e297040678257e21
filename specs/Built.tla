---- MODULE Built ----
(* Programs made by buildserver, buildtms and buildclient.
   A resource manager is [name, sw]: its switch; defined: the functions and switches there are to link with.
   made: programs built so far, [table, sw, threads, init]: services with their functions in order, the switch, several threads or not,
   own initialisation or not.  up: the running servers, in the order of booting. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
VARIABLES made, up
vars == <<made, up>>
Init == made = [n \in {} |-> <<>>] /\ up = {}

Funs(t) == {t[i][2] : i \in 1..Len(t)}
Switch(rms, rm) == IF rm = "" THEN "tmnull_switch" ELSE (CHOOSE r \in rms : r.name = rm).sw
Possible(table, rms, rm, defined) ==
  /\ rm = "" \/ \E r \in rms : r.name = rm
  /\ Funs(table) \cup {Switch(rms, rm)} \subseteq defined
(* there: the program exists afterwards; left: files left behind: the generated program if it is to be kept *)
Build(n, table, rms, rm, defined, threads, init, keep, ok, there, left) ==
  /\ ok = Possible(table, rms, rm, defined)
  /\ IF keep /\ (rm = "" \/ \E r \in rms : r.name = rm) THEN Cardinality(left) = 1 ELSE left = {}
  /\ IF ok THEN /\ there
                /\ made' = [m \in DOMAIN made \cup {n} |-> IF m = n THEN [table |-> table, sw |-> Switch(rms, rm), threads |-> threads, init |-> init] ELSE made[m]]
     ELSE /\ there => n \in DOMAIN made
          /\ made' = [m \in (IF there THEN DOMAIN made ELSE DOMAIN made \ {n}) |-> made[m]]
  /\ UNCHANGED up
List(n, listing) == n \in DOMAIN made /\ listing = made[n].table /\ UNCHANGED vars

(* a domain of servers: those in ns that are built start; a server calls its own initialisation and opens its resource manager *)
(* ns: programs and the managers of their groups (none if ""); a program built for another manager does not start *)
Boot(ns, inits, opens) ==
  LET fit == {x[1] : x \in {y \in ns : y[2] \in {"", made[y[1]].sw}}} IN
  /\ up' = fit /\ UNCHANGED made
  /\ inits = {x[1] : x \in {y \in ns : made[y[1]].init}}
  /\ opens = {<<n, made[n].sw>> : n \in {m \in fit : made[m].sw # "tmnull_switch"}}
Offers(svc) == {n \in up : \E i \in 1..Len(made[n].table) : made[n].table[i][1] = svc}
(* answer: server and function that answered, none if there was no such service *)
Call(svc, server, fun) ==
  /\ IF Offers(svc) = {} THEN server = "" /\ fun = ""
     ELSE server \in Offers(svc) /\ <<svc, fun>> \in {made[server].table[i] : i \in 1..Len(made[server].table)}
  /\ UNCHANGED vars
(* two requests to a server that only get done when they are worked on together *)
Meet(server, yes) == yes = made[server].threads /\ UNCHANGED vars
(* a transaction in which the servers of ns worked is committed: the managers whose switches are told to commit *)
Committed(ns, managers, ok, commits) ==
  /\ ok /\ commits = {<<m, made[m].sw>> : m \in managers}
  /\ UNCHANGED vars
Down == up' = {} /\ UNCHANGED made
====
