---- MODULE QueueMC ----
EXTENDS Queue, Json
CONSTANTS Ts, Sizes, Cap, Sels
VARIABLE last
MCSels5 == {0, 1, 2, -1, -2}
MCSels6 == {0, 1, 2, -1, -2, -3}
MCSels3 == {0, 1, -2}
(* a message of size "p" takes one unit of room, a large one ("f") hardly any, up to Cap units *)
Cost(s) == Cardinality({i \in 1..Len(s) : s[i].m = "p"})
MCInit == q = [k \in Queues |-> <<>>] /\ out = 0 /\ last = <<>>
L(x) == last' = x
Room(k) == IF Exists(k) /\ Cost(q[k]) >= Cap THEN 0 ELSE MaxCost
MCNext ==
  \E k \in Queues :
   \/ Exists(k) /\ Delete(k) /\ L(<<"delete", k>>)
   \/ New(k) /\ L(<<"new", k>>)
   \/ \E t \in Ts, s \in Sizes : Len(q[k]) < Cap + 1 /\
        \/ Room(k) > 0 /\ Exists(k) /\ Send(k, t, s, "sent", 0) /\ L(<<"send", k, t, s>>)
        \/ (Room(k) = 0 \/ ~Exists(k)) /\ s = "p" /\ \E r \in {"full", "gone"} : Send(k, t, s, r, Room(k)) /\ L(<<"send", k, t, s>>)
        \/ ~Exists(k) /\ s = "f" /\ Send(k, t, s, "gone", 0) /\ L(<<"send", k, t, s>>)
   \/ \E sel \in Sels, r \in {"got", "empty", "gone"}, t \in Ts, s \in Sizes : Recv(k, sel, r, t, s) /\ L(<<"recv", k, sel>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == q
(* messages of one type come out in the order they went in: nothing is picked before an older one of its type *)
Ordered == \A k \in Queues : Exists(k) => \A sel \in Sels : LET i == Pick(q[k], sel) IN i > 0 => \A j \in 1..(i - 1) : q[k][j].t # q[k][i].t
A(x) == [k \in Queues |-> x[k]]
PrintEdge == PrintT("EDGE " \o ToJson([f |-> q, e |-> last', t |-> q']))
====
