---- MODULE Clients ----
(* M02: clients of a domain join, leave, call and die.  There is room for Max of them; the watchdog (BBL) takes back what the dead
   have left behind, at some time while it runs. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Proc,      \* client process -> its threads; each is a client of its own
          Max,
          Leaks      \* a client killed while it joins or leaves may leave a queue behind (known finding)

VARIABLES noq,       \* the system has no message queue left
          st,        \* client -> "none" (does not run), "out", "in"
          dead,      \* places of the dead that may not be free yet
          lost,      \* message queues that may have been left behind for good
          bbl        \* somebody looks after the dead
vars == <<noq, st, dead, lost, bbl>>
C == UNION {Proc[p] : p \in DOMAIN Proc}
In == {c \in C : st[c] = "in"}
N == Cardinality(In)
Of(c) == CHOOSE p \in DOMAIN Proc : c \in Proc[p]

Init == noq = FALSE /\ st = [c \in C |-> "none"] /\ dead = 0 /\ lost = 0 /\ bbl = TRUE

Start(p) == /\ \A c \in Proc[p] : st[c] = "none"
            /\ st' = [c \in C |-> IF c \in Proc[p] THEN "out" ELSE st[c]]
            /\ UNCHANGED <<dead, lost, bbl, noq>>
(* one more finds room, perhaps that of somebody dead *)
Enter(c) == /\ N < Max
            /\ (N + dead >= Max => bbl)
            /\ st' = [st EXCEPT ![c] = "in"]
            /\ dead' = IF N + dead >= Max THEN Max - N - 1 ELSE dead
            /\ UNCHANGED <<lost, bbl, noq>>
Full == N + dead >= Max
Attach(c, r, e) ==
  IF st[c] = "in" THEN r = 0 /\ UNCHANGED vars
  ELSE /\ st[c] = "out"
       /\ \/ r = 0 /\ ~noq /\ Enter(c)
          \/ r = -1 /\ noq /\ UNCHANGED vars
          \/ r = -1 /\ e = "noent" /\ Full /\ UNCHANGED vars
Detach(c, r) == /\ r = 0 /\ st[c] # "none"
                /\ st' = [st EXCEPT ![c] = "out"]
                /\ UNCHANGED <<dead, lost, bbl, noq>>
(* whoever is in can work; who isn't joins first *)
Call(c, by, r) ==
  IF st[c] = "in" THEN r = 0 /\ by /\ UNCHANGED vars
  ELSE /\ st[c] = "out"
       /\ \/ r = 0 /\ ~noq /\ by /\ Enter(c)
          \/ r = -1 /\ noq /\ ~by /\ UNCHANGED vars
          \/ r = -1 /\ ~by /\ Full /\ UNCHANGED vars
(* m: it was about to join or leave *)
Kill(p, m) ==
  LET k == Cardinality(Proc[p] \cap In) IN
  /\ \A c \in Proc[p] : st[c] # "none"
  /\ st' = [c \in C |-> IF c \in Proc[p] THEN "none" ELSE st[c]]
  /\ dead' = dead + (IF m THEN Cardinality(Proc[p]) ELSE k)
  /\ lost' = lost + (IF m /\ Leaks THEN Cardinality(Proc[p]) ELSE 0)
  /\ UNCHANGED <<bbl, noq>>
Exit(p) == /\ st' = [c \in C |-> IF c \in Proc[p] THEN "none" ELSE st[c]]
           /\ UNCHANGED <<dead, lost, bbl, noq>>
Settle == /\ dead' = IF bbl THEN 0 ELSE dead
          /\ UNCHANGED <<st, lost, bbl, noq>>
Bbl(on) == bbl' = on /\ UNCHANGED <<st, dead, lost, noq>>
Exhaust(on) == noq' = on /\ UNCHANGED <<st, dead, lost, bbl>>
(* message queues of clients *)
Obs(q) == N <= q /\ q <= N + dead + lost /\ UNCHANGED vars
(* many join, call and leave again, all at once *)
Storm(cs, rounds) ==
  /\ \A c \in cs : st[c] = "out"
  /\ \A k \in 1..Len(rounds) : LET x == rounds[k] IN
       /\ x.i = 0 \/ (x.i = -1 /\ x.e = "noent" /\ N + dead + Cardinality(cs) > Max)
       /\ IF x.i = 0 THEN x.c = 0 /\ x.by = 1 ELSE x.c = 0 <=> x.by = 1
  /\ \A k \in 1..Len(rounds) : N >= Max => rounds[k].i = -1
  /\ UNCHANGED vars
TypeOK == N <= Max /\ dead >= 0
====
