---- MODULE Ulog ----
(* The user log: entries go to the file PREFIX.MMDDYY, whole, one after another, in the order of calls that did not overlap.
   An entry is the time, ".", the node, ":", the program, ".", the process, ": ", the text and an end of line.
   open: calls that have begun: id -> [pfx, ms, proc, pid, text, at, t0]; ok: completed ones still to be seen in their file,
   with the interval of their begin and end; an observation takes a whole file away. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VARIABLES node, pfx, ms, can, open, ok, now
vars == <<node, pfx, ms, can, open, ok, now>>

Empty == [x \in {} |-> 0]
Init == node = "" /\ pfx = "ULOG" /\ ms = FALSE /\ can = TRUE /\ open = Empty /\ ok = {} /\ now = 0

Node(n) == node' = n /\ UNCHANGED <<pfx, ms, can, open, ok, now>>
(* from here on calls find this prefix and setting; c: a file of that name can be written *)
SetEnv(p, m, c) == pfx' = p /\ ms' = m /\ can' = c /\ UNCHANGED <<node, open, ok, now>>

(* a call begins at t (milliseconds of the day) *)
Begin(id, proc, pid, text, t) ==
  /\ id \notin DOMAIN open
  /\ open' = [i \in DOMAIN open \cup {id} |->
                IF i = id THEN [id |-> id, pfx |-> pfx, ms |-> ms, can |-> can, proc |-> proc, pid |-> pid, text |-> text, at |-> now, t0 |-> t]
                ELSE open[i]]
  /\ now' = now + 1
  /\ UNCHANGED <<node, pfx, ms, can, ok>>
(* ... and returns r at t; d: date of both in the form of file names *)
End(id, r, t) ==
  LET o == open[id] IN
  /\ id \in DOMAIN open
  /\ (r >= 0) = o.can /\ r >= -1
  /\ open' = [i \in DOMAIN open \ {id} |-> open[i]]
  /\ ok' = IF r >= 0 THEN ok \cup {[id |-> o.id, pfx |-> o.pfx, ms |-> o.ms, proc |-> o.proc, pid |-> o.pid, text |-> o.text, at |-> o.at,
                                   t0 |-> o.t0, t1 |-> t, till |-> now]} ELSE ok
  /\ now' = now + 1
  /\ UNCHANGED <<node, pfx, ms, can>>

Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
             CHOOSE i \in 0..9 : ToString(i) = c]
IsNum(s) == \A i \in 1..Len(s) : SubSeq(s, i, i) \in DOMAIN Digits
RECURSIVE Num(_)
Num(s) == IF Len(s) = 0 THEN 0 ELSE (Num(SubSeq(s, 1, Len(s) - 1)) * 10) + Digits[SubSeq(s, Len(s), Len(s))]

Rest(e) == "." \o node \o ":" \o e.proc \o "." \o ToString(e.pid) \o ": " \o e.text \o "\n"
(* s is the time in the line of entry e *)
TimeOf(e, s) ==
  /\ Len(s) = IF e.ms THEN 10 ELSE 6
  /\ IsNum(SubSeq(s, 1, 6))
  /\ e.ms => SubSeq(s, 7, 7) = "." /\ IsNum(SubSeq(s, 8, 10))
  /\ LET h == Num(SubSeq(s, 1, 2))
         m == Num(SubSeq(s, 3, 4))
         x == Num(SubSeq(s, 5, 6))
         t == (((((h * 60) + m) * 60) + x) * 1000) + (IF e.ms THEN Num(SubSeq(s, 8, 10)) ELSE 0)
     IN  /\ m < 60 /\ x < 60
         /\ t <= e.t1 /\ (IF e.ms THEN t ELSE t + 999) >= e.t0

(* the whole file of prefix p, cut by the entries it is expected to have; of every line its time and what follows *)
See(p, lines) ==
  \E E \in {{e \in ok : e.pfx = p}} : \E R \in {TLCEval({<<Rest(e), e>> : e \in E})} :
  \E es \in {TLCEval([i \in 1..Len(lines) |-> LET c == {r \in R : r[1] = lines[i][2]}
                                             IN  IF Cardinality(c) = 1 THEN (CHOOSE r \in c : TRUE)[2] ELSE [id |-> 0]])} :
      /\ {e \in DOMAIN open : open[e].pfx = p} = {}
      /\ Len(lines) = Cardinality(E)
      /\ {es[i] : i \in 1..Len(lines)} = E
      /\ \A i \in 1..Len(lines) : TimeOf(es[i], lines[i][1])
      /\ \A i, j \in 1..Len(lines) : i < j => ~(es[j].till < es[i].at)
      /\ ok' = ok \ E
      /\ UNCHANGED <<node, pfx, ms, can, open, now>>
====
