---- MODULE Queue ----
(* Message queues: each a sequence of messages [t |-> type, m |-> everything else of the message].  *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
CONSTANTS Queues, MaxCost      \* no message takes more room in a queue than MaxCost
VARIABLES q,      \* [Queues -> sequence of messages], Gone for queues that do not exist
          out     \* messages handed out so far (history)
vars == <<q, out>>
Gone == <<[t |-> 0, m |-> "gone"]>>
Exists(k) == q[k] # Gone
Init0 == q = [k \in Queues |-> Gone] /\ out = 0

New(k) == ~Exists(k) /\ q' = [q EXCEPT ![k] = <<>>] /\ UNCHANGED out
Delete(k) == Exists(k) /\ q' = [q EXCEPT ![k] = Gone] /\ UNCHANGED out
Abs(n) == IF n < 0 THEN -n ELSE n
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
(* position of the message a receive with this selector takes: 0 any, t > 0 of type t, t < 0 of the lowest type up to -t; 0: none *)
Pick(s, sel) ==
  LET hit(i) == sel = 0 \/ s[i].t = sel \/ (sel < 0 /\ s[i].t <= Abs(sel) /\ \A j \in 1..Len(s) : s[j].t >= s[i].t)
      hits == {i \in 1..Len(s) : hit(i)}
  IN  IF hits = {} THEN 0 ELSE Min(hits)
(* sending: r is TRUE (accepted), FALSE (no room) or the queue is gone; room: bytes free before; waited: how long, limit: how long it may *)
Send(k, t, m, r, room) ==
  IF ~Exists(k) THEN r = "gone" /\ UNCHANGED vars
  ELSE \/ r = "sent" /\ q' = [q EXCEPT ![k] = Append(@, [t |-> t, m |-> m])] /\ UNCHANGED out
       \/ r = "full" /\ room < MaxCost /\ UNCHANGED vars
(* a message that could not be stored, as there was no room for it on the disk: nothing happened, nothing is kept *)
SendBad(k, r, kept, opened) == r \in {"error", "full"} \cup (IF Exists(k) THEN {} ELSE {"gone"}) /\ kept = 0 /\ opened = 0 /\ UNCHANGED vars
Recv(k, sel, r, t, m) ==
  IF ~Exists(k) THEN r = "gone" /\ UNCHANGED vars
  ELSE LET i == Pick(q[k], sel) IN
       IF i = 0 THEN r = "empty" /\ UNCHANGED vars
       ELSE /\ r = "got" /\ t = q[k][i].t /\ m = q[k][i].m
            /\ q' = [q EXCEPT ![k] = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))] /\ out' = out + 1
(* what the system says about a queue *)
Stat(k, n) == Exists(k) /\ n = Len(q[k]) /\ UNCHANGED vars
====
