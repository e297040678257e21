---- MODULE QueueConc ----
(* Several senders and receivers of one queue, as recorded: "s" written before a message is sent, "d" after the send was accepted
   (or "n" when it was refused), "g" after it was received.  Every message is received at most once, only when sent, and with one
   receiver in the order of its sender within its type; at the end all accepted ones were received and nothing is left. *)
EXTENDS TraceBase
VARIABLES pend, one
TraceInit == l = 1 /\ pend = <<>> /\ one = 0
Idx(id) == {i \in 1..Len(pend) : pend[i].id = id}
Without(i) == SubSeq(pend, 1, i - 1) \o SubSeq(pend, i + 1, Len(pend))
Pos(id) == CHOOSE i \in Idx(id) : TRUE
TraceNext ==
  \/ IsOp("start") /\ pend' = <<>> /\ one' = Ev.one
  \/ IsOp("s") /\ Idx(Ev.id) = {} /\ pend' = Append(pend, [id |-> Ev.id, from |-> Ev.from, t |-> Ev.t, m |-> Ev.m]) /\ UNCHANGED one
  \/ IsOp("n") /\ Idx(Ev.id) # {} /\ pend' = Without(Pos(Ev.id)) /\ UNCHANGED one
  \/ /\ IsOp("g") /\ Idx(Ev.id) # {}
     /\ LET i == Pos(Ev.id) IN
        /\ pend[i].m = Ev.m /\ pend[i].t = Ev.t
        /\ one = 1 => \A j \in 1..(i - 1) : ~(pend[j].from = pend[i].from /\ pend[j].t = pend[i].t)
        /\ pend' = Without(i)
     /\ UNCHANGED one
  \/ IsOp("end") /\ pend = <<>> /\ Ev.left = 0 /\ Ev.files = 0 /\ UNCHANGED <<pend, one>>
TraceSpec == TraceInit /\ [][TraceNext]_<<pend, one, l>>
====
