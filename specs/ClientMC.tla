---- MODULE ClientMC ----
(* All small histories: K slots for calls; late holds slots whose call was cancelled and whose reply is still to come. *)
EXTENDS Client, Json
CONSTANTS K, Rvals
VARIABLES late, last
Slots == 1..K
MCInit == Init0(1000) /\ late = {} /\ last = <<>>
L(x) == last' = x
NoLate == UNCHANGED late
R(v) == [rval |-> v, rcode |-> 0, data |-> ""]
Free == {s \in Slots : s \notin Cds /\ s \notin late}
MCNext ==
  \/ \E s \in Free : (\A t \in Free : s <= t) /\ Acall("a", "", "-", s, "ok", 0, "a//mine/0/-/0", s) /\ NoLate /\ L(<<"acall", s>>)
  \/ Acall("a", "", "n", 0, "ok", 0, "a//none/0/-/0", 0) /\ NoLate /\ L(<<"noreply">>)
  \/ \E e \in {"noent", "inval"} : Acall(IF e = "noent" THEN "z" ELSE "a", IF e = "inval" THEN "X" ELSE "", "-", -1, e, 0, "", 0) /\ NoLate /\ L(<<e>>)
  \/ \E s \in Cds, v \in Rvals : calls[s] = NoReply /\ Reply(s, R(v)) /\ NoLate /\ L(<<"reply", s, v>>)
  \/ \E s \in late : Reply(s, R("ok")) /\ late' = late \ {s} /\ L(<<"late", s>>)
  \/ \E s \in Slots, f \in {"-", "b"}, e \in {"ok", "svcfail", "svcerr", "time", "block", "baddesc"} :
       s \notin late /\ Get(FALSE, s, f, e, s, 0, "", IF e = "time" THEN Limit ELSE 0, <<>>) /\ NoLate /\ L(<<"get", s, f>>)
  \/ \E s \in Slots, f \in {"-", "b"}, e \in {"ok", "svcfail", "svcerr", "time", "block"} :
       (e \in {"time", "block"} => s = 1) /\ Get(TRUE, 0, f, e, s, 0, "", IF e = "time" THEN Limit ELSE 0, <<>>) /\ NoLate /\ L(<<"any", f>>)
  \/ \E s \in Slots, e \in {"ok", "baddesc"} :
       /\ s \notin late /\ Cancel(s, e)
       /\ late' = IF e = "ok" /\ calls[s] = NoReply THEN late \cup {s} ELSE late
       /\ L(<<"cancel", s>>)
  \/ \E e \in {"ok", "svcfail", "time"}, s \in Free : (\A t \in Free : s <= t) /\
       Call("a", "", "-", e, 0, "", IF e = "time" THEN Limit ELSE 0, "a//mine/0/-/0", s,
            IF e = "time" THEN <<>> ELSE <<[what |-> "reply", ok |-> 1, cd |-> s, ms |-> 0, rval |-> Class(e), rcode |-> 0, data |-> ""]>>)
       /\ NoLate /\ L(<<"call", s, e>>)
  \/ UNCHANGED vars /\ NoLate /\ L(<<"unblock">>)
MCSpec == MCInit /\ [][MCNext]_<<vars, late, last>>
View == <<calls, late>>
(* a cancelled or answered call has no descriptor and no reply *)
Disjoint == late \cap Cds = {}
S(f) == [s \in Slots |-> IF s \in DOMAIN f THEN (IF f[s] = NoReply THEN "sent" ELSE f[s][1].rval) ELSE "free"]
PrintEdge == PrintT("EDGE " \o ToJson([f |-> <<S(calls), late>>, e |-> last', t |-> <<S(calls'), late'>>]))
====
