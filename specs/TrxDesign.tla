---- MODULE TrxDesign ----
(* How a transaction ends: the one who began it, the transaction managers of the groups, services that join it late or
   never finish, resource managers that vote and decide on their own.  Checks that the protocol keeps what Trx asks of
   the outcome, and that no work is left behind. *)
EXTENDS Trx
CONSTANTS Grps, Reqs, RGroup,        \* requests in the transaction, and the groups of the servers they go to
          Votes, Answers,              \* of resource managers, apart from the honest ones
          Crashes                      \* participants and transaction managers that may die
MyVotes == {-3}
MyAnswers == {6}
ManyAnswers == {5, 6, 7, 8, -7}
TwoGroups == {1, 2}
ThreeGroups == {1, 2, 3}
R2 == [r \in {"a", "b"} |-> IF r = "a" THEN 1 ELSE 2]
R3 == [r \in {"a", "b", "c"} |-> IF r = "a" THEN 1 ELSE IF r = "b" THEN 2 ELSE 1]
R3b == [r \in {"a", "b", "c"} |-> IF r = "a" THEN 1 ELSE IF r = "b" THEN 2 ELSE 3]
DG(w) == 0
VARIABLES tab,      \* entry of the transaction: state and groups
          rm,       \* branch of a group: none, L, R(ollback only), P(repared), ? (the resource manager forgot or lost it)
          fate,     \* what became of branches of a group: C(ommitted), U(ndone)
          as,       \* requests whose service is associated with the branch
          rq,       \* request: state, and whether the service was done before the end began
          co,       \* coordinator: step, groups, messages, answers
          log,      \* calls of the transaction managers
          alive,    \* transaction managers
          crashes
dvars == <<tab, rm, fate, as, rq, co, log, alive, crashes>>
DInit ==
  /\ Init
  /\ tab = [st |-> "active", g |-> {}]
  /\ rm = [g \in Grps |-> "none"] /\ as = {} /\ fate = [g \in Grps |-> {}]
  /\ rq = [r \in Reqs |-> [st |-> "sent", ok |-> FALSE, before |-> FALSE]]
  /\ co = [st |-> "work", g |-> {}, todo |-> {}, res |-> <<>>, out |-> 99, must |-> {}]
  /\ log = <<>> /\ alive = Grps /\ crashes = 0
Set2(r, st) == rq' = [rq EXCEPT ![r].st = st]
(* services *)
Join(r) ==
  /\ rq[r].st = "sent"
  /\ IF tab.st = "active" THEN tab' = [tab EXCEPT !.g = @ \cup {RGroup[r]}] /\ Set2(r, "joined")
     ELSE Set2(r, "refused") /\ UNCHANGED tab
  /\ UNCHANGED <<rm, fate, as, co, log, alive, crashes>>
Start(r) ==
  LET g == RGroup[r] IN
  /\ rq[r].st = "joined"
  /\ IF rm[g] \in {"none", "L"}
     THEN rm' = [rm EXCEPT ![g] = "L"] /\ as' = as \cup {r} /\ rq' = [rq EXCEPT ![r].st = "started"] /\ co' = [co EXCEPT !.must = IF co.st = "work" THEN @ \cup {g} ELSE @]
     ELSE Set2(r, "refused") /\ UNCHANGED <<rm, fate, as, co>>
  /\ UNCHANGED <<fate, tab, log, alive, crashes>>
Over2 == tab.st \in {"rollback", "gone"}
Check(r) ==
  LET g == RGroup[r] IN
  /\ rq[r].st = "started"
  /\ IF tab.st # "active"
     THEN /\ as' = as \ {r} /\ Set2(r, "undo") /\ rm' = [rm EXCEPT ![g] = "R"]
     ELSE Set2(r, "works") /\ UNCHANGED <<as, rm>>
  /\ UNCHANGED <<fate, tab, co, log, alive, crashes>>
Leave(r, ok) ==
  LET g == RGroup[r] IN
  /\ rq[r].st = "works"
  /\ as' = as \ {r}
  /\ rm' = IF ok THEN rm ELSE [rm EXCEPT ![g] = "R"]
  /\ rq' = [rq EXCEPT ![r].st = "left", ![r].ok = ok, ![r].before = (co.st = "work")]
  /\ UNCHANGED <<fate, tab, co, log, alive, crashes>>
After(r) ==
  /\ rq[r].st = "left"
  /\ IF Over2 THEN Set2(r, "undo") ELSE Set2(r, "done")
  /\ UNCHANGED <<tab, rm, fate, as, co, log, alive, crashes>>
(* the same call of the resource manager that everybody else uses: busy branches refuse *)
Undo(r) ==
  LET g == RGroup[r] IN
  /\ rq[r].st = "undo"
  /\ IF rm[g] \in {"L", "R", "P"} /\ ~\E q \in as : RGroup[q] = g THEN rm' = [rm EXCEPT ![g] = "none"] /\ fate' = [fate EXCEPT ![g] = @ \cup {"U"}] ELSE UNCHANGED <<rm, fate>>
  /\ Set2(r, "done")
  /\ UNCHANGED <<tab, as, co, log, alive, crashes>>
Crash(r) ==
  LET g == RGroup[r] IN
  /\ crashes < Crashes /\ rq[r].st \in {"joined", "started", "works", "left", "undo"}
  /\ crashes' = crashes + 1
  /\ rm' = IF r \in as THEN [rm EXCEPT ![g] = "R"] ELSE rm
  /\ as' = as \ {r} /\ Set2(r, "dead")
  /\ UNCHANGED <<fate, tab, co, log, alive>>
CrashTm(g) == /\ crashes < Crashes /\ g \in alive /\ alive' = alive \ {g} /\ down' = down \cup {g} /\ crashes' = crashes + 1 /\ UNCHANGED <<tab, rm, fate, as, rq, co, log>>
(* coordinator *)
EndBegins(commit) ==
  /\ co.st = "work"
  /\ tab' = [tab EXCEPT !.st = IF commit THEN "preparing" ELSE "rollback"]
  /\ co' = [co EXCEPT !.st = IF commit THEN "prepare" ELSE "rollback", !.g = tab.g, !.todo = tab.g, !.out = IF commit THEN 99 ELSE 98]
  /\ UNCHANGED <<rm, fate, as, rq, log, alive, crashes>>
Called(f) == co.st = f
Busy(g) == \E q \in as : RGroup[q] = g
(* what the resource manager answers, and what it does to the branch *)
Answer(f, g) ==
  CASE f = "prepare" ->
         IF rm[g] = "none" THEN {<<-4, rm[g]>>} ELSE IF Busy(g) THEN {<<-6, rm[g]>>}
         ELSE IF rm[g] = "R" THEN {<<100, "U">>}
         ELSE {<<0, "P">>, <<3, "C">>, <<100, "U">>} \cup {<<v, "L">> : v \in Votes}
    [] f = "commit" ->
         IF rm[g] # "P" THEN {<<-6, rm[g]>>} ELSE {<<0, "C">>} \cup {<<v, IF v = 7 THEN "C" ELSE IF v = 6 THEN "U" ELSE "?">> : v \in Answers}
    [] OTHER ->
         IF rm[g] = "none" THEN {<<-4, rm[g]>>} ELSE IF Busy(g) THEN {<<-6, rm[g]>>} ELSE {<<0, "U">>}
Tm(g) ==
  /\ co.st \in {"prepare", "commit", "rollback"} /\ g \in co.todo
  /\ \/ /\ g \in alive
        /\ \E a \in Answer(co.st, g) :
             /\ rm' = [rm EXCEPT ![g] = IF a[2] \in {"C", "U"} THEN "none" ELSE a[2]]
             /\ fate' = IF a[2] \in {"C", "U"} THEN [fate EXCEPT ![g] = @ \cup {a[2]}] ELSE fate
             /\ log' = Append(log, [f |-> co.st, g |-> g, r |-> a[1]])
             /\ co' = [co EXCEPT !.todo = @ \ {g}, !.res = Put(@, g, a[1])]
     \/ /\ g \notin alive
        /\ co' = [co EXCEPT !.todo = @ \ {g}, !.res = Put(@, g, 999)]
        /\ UNCHANGED <<rm, fate, log>>
  /\ UNCHANGED <<tab, as, rq, alive, crashes>>
Voted ==
  /\ co.st = "prepare" /\ co.todo = {}
  /\ LET yes == {g \in co.g : co.res[g] # 3}
         ok == \A g \in yes : co.res[g] = 0
     IN IF ok THEN co' = [co EXCEPT !.st = "commit", !.todo = yes, !.g = yes] /\ UNCHANGED tab
        ELSE co' = [co EXCEPT !.st = "rollback", !.todo = yes, !.g = yes] /\ tab' = [tab EXCEPT !.st = "rollback"]
  /\ UNCHANGED <<rm, fate, as, rq, log, alive, crashes>>
Finish ==
  /\ co.st \in {"commit", "rollback"} /\ co.todo = {}
  /\ LET rs == {co.res[g] : g \in co.g}
         plain == IF co.st = "commit" THEN 0 ELSE IF co.out = 98 THEN 0 ELSE -2
         out == IF co.st = "commit" THEN IF rs \cap {5, 6} # {} THEN -3 ELSE IF rs \subseteq {0, 7} THEN 0 ELSE -4
                ELSE IF rs \cap {5, 7} # {} THEN -3 ELSE IF 8 \in rs THEN -4 ELSE plain
     IN co' = [co EXCEPT !.st = IF co.out = 98 THEN "back" ELSE "over", !.out = out]
  /\ tab' = [tab EXCEPT !.st = "gone"]
  /\ UNCHANGED <<rm, fate, as, rq, log, alive, crashes>>
others == <<ctx, own, ph, tx, tms, br, req, sus, seen, done, refused>>
DNext ==
  \/ /\ \/ \E r \in Reqs : Join(r) \/ Start(r) \/ Check(r) \/ Leave(r, TRUE) \/ Leave(r, FALSE) \/ After(r) \/ Undo(r) \/ Crash(r)
        \/ \E g \in Grps : Tm(g)
        \/ EndBegins(TRUE) \/ EndBegins(FALSE) \/ Voted \/ Finish
     /\ UNCHANGED down /\ UNCHANGED others
  \/ (\E g \in Grps : CrashTm(g)) /\ UNCHANGED others
DSpec == DInit /\ [][DNext]_<<vars, dvars>>
----
Ended == co.st \in {"over", "back"}
Quiet == Ended /\ \A r \in Reqs : rq[r].st \in {"refused", "done", "dead"}
(* all of the work or nothing at all, unless the caller is told *)
ReadOnly(g) == \E i \in 1..Len(log) : log[i].g = g /\ log[i].f = "prepare" /\ log[i].r = 3
Atomic == /\ (co.st = "over" /\ co.out = 0) => \A r \in Reqs : (rq[r].before /\ rq[r].ok) => "C" \in fate[RGroup[r]]
          /\ (Ended /\ (co.out = -2 \/ (co.st = "back" /\ co.out = 0))) => \A g \in Grps : "C" \in fate[g] => ReadOnly(g)
(* failures are never committed *)
NoBad == \A r \in Reqs : (rq[r].before /\ ~rq[r].ok) => "C" \notin fate[RGroup[r]]
(* nothing is left behind by resource managers and transaction managers that live and do as they are told *)
Odd(g) == g \notin alive \/ \E i \in 1..Len(log) : log[i].g = g /\ log[i].r \notin {0, 3, 100, -4, -6}
NoOrphans == (Quiet /\ crashes = 0) => \A g \in Grps : rm[g] = "none" \/ Odd(g)
(* what the specification of outcomes asks for *)
Asked == co.st = "over" => Committed(co.must, tab.g, log, co.out)
AskedBack == co.st = "back" => RolledBack(co.must, tab.g, log, co.out, 0)
====
