---- MODULE UlogMC ----
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Depth
VARIABLES node, pfx, ms, can, open, ok, now, last
INSTANCE Ulog
Pfx == {"a", "d/b", "none/c"}
Texts == {"short", "empty", "long"}
MCInit == Init /\ last = <<>>
L(x) == last' = x
(* the order of completed calls is all that the future depends on *)
E(s) == {[pfx |-> e.pfx, ms |-> e.ms, proc |-> e.proc, text |-> e.text, n |-> Cardinality({f \in s : f.at < e.at})] : e \in s}
One(proc, text) ==
  LET o == [id |-> now, pfx |-> pfx, ms |-> ms, proc |-> proc, pid |-> 1, text |-> text, at |-> now, t0 |-> 0, t1 |-> 0, till |-> now]
  IN  /\ ok' = IF can THEN ok \cup {o} ELSE ok
      /\ now' = now + 1 /\ UNCHANGED <<node, pfx, ms, can, open>>
MCNext ==
  \/ \E p \in Pfx, m \in BOOLEAN : <<p, m>> # <<pfx, ms>> /\ SetEnv(p, m, p # "none/c") /\ L(<<"env", p, IF m THEN "y" ELSE "n">>)
  \/ \E pr \in {"one", "two"}, t \in Texts, w \in {"log", "child"} : One(pr, t) /\ L(<<w, pr, t>>)
  \/ \E p \in Pfx : ok' = {e \in ok : e.pfx # p} /\ UNCHANGED <<node, pfx, ms, can, open, now>> /\ L(<<"see", p>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == <<pfx, ms, can, E(ok)>>
Small == Cardinality(ok) <= Depth
Ordered == \A e, f \in ok : e # f => e.at # f.at
PrintEdge == Cardinality(ok') <= Depth => PrintT("EDGE " \o ToJson([f |-> View, e |-> last', t |-> View']))
====
