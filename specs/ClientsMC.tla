---- MODULE ClientsMC ----
(* Every operation of a few clients in every state *)
EXTENDS Clients, Json
VARIABLES last
MCProc == [p \in {"p1", "p2", "p3"} |-> IF p = "p1" THEN {"p1.0", "p1.1"} ELSE {p \o ".0"}]
MCInit == Init /\ last = <<>>
MCNext ==
  \/ \E p \in DOMAIN Proc : Start(p) /\ last' = <<"start", p>>
  \/ \E c \in C, r \in {0, -1} : Attach(c, r, IF r = 0 THEN "ok" ELSE "noent") /\ last' = <<"init", c>>
  \/ \E c \in In : Detach(c, 0) /\ last' = <<"term", c>>
  \/ \E c \in C, r \in {0, -1} : Call(c, r = 0, r) /\ last' = <<"call", c>>
  \/ \E p \in DOMAIN Proc : Kill(p, FALSE) /\ last' = <<"kill", p>>
  \/ \E p \in DOMAIN Proc : (\A c \in Proc[p] : st[c] # "none") /\ Exit(p) /\ last' = <<"end", p>>
  \/ dead > 0 /\ Settle /\ last' = <<"settle">>
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == <<st, dead>>
Bound == dead <= 2
S2(s, d) == [s |-> s, d |-> d]
PrintEdge == PrintT("EDGE " \o ToJson([f |-> S2(st, dead), e |-> last', t |-> S2(st', dead')]))
====
