---- MODULE ViewsTrace ----
EXTENDS TraceBase, Views
Map(s) == [p \in {s[i][1] : i \in 1..Len(s)} |-> (CHOOSE x \in {s[i] : i \in 1..Len(s)} : x[1] = p)[2]]
TraceInit == l = 1 /\ Init
TraceNext ==
  \/ IsOp("reset") /\ hdr' = [p \in {} |-> <<>>]
  \/ IsOp("gen") /\ Generate(Ev.views, Ev.ok = 1, Map(Ev.now))
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
====
