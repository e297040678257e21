---- MODULE TrxTableTrace ----
EXTENDS TraceBase
VARIABLES size, ngroups, run, last, ids, texts
T == INSTANCE TrxTable WITH XIDS <- Nat, SIZE <- 1, NGROUPS <- 1
allvars == <<size, ngroups, run, last, ids, texts, l>>
TraceInit == l = 1 /\ size = 0 /\ ngroups = 0 /\ run = <<>> /\ last = 0 /\ ids = {} /\ texts = <<>>
U == UNCHANGED <<last, ids, texts>>
TraceNext ==
  \/ IsOp("reset") /\ T!Reset(Ev.n, Ev.g) /\ last' = last /\ ids' = {} /\ texts' = <<>>
  \/ IsOp("start") /\ T!Start(Ev.x, Ev.g, Ev.r) /\ U
  \/ IsOp("find") /\ T!Find(Ev.x, Ev.r) /\ U
  \/ IsOp("join") /\ T!Join(Ev.x, Ev.g, Ev.r) /\ U
  \/ IsOp("has") /\ T!Has(Ev.x, Ev.g, Ev.r) /\ U
  \/ IsOp("at") /\ T!At(Ev.s, Ev.r) /\ U
  \/ IsOp("end") /\ T!End(Ev.x) /\ U
  \* identifiers generated: never one twice, by whichever process or thread
  \/ /\ IsOp("gen")
     /\ LET S == {Ev.ids[i] : i \in 1..Len(Ev.ids)}
        IN  Cardinality(S) = Len(Ev.ids) /\ S \cap ids = {} /\ ids' = ids \cup S
     /\ UNCHANGED <<size, ngroups, run, last, texts>>
  \* text form of identifier x: different identifiers have different texts, and the text gives the same identifier back
  \/ /\ IsOp("text")
     /\ Ev.same = 1
     /\ \A x \in DOMAIN texts : (x = Ev.x) <=> (texts[x] = Ev.r)
     /\ texts' = [x \in DOMAIN texts \cup {Ev.x} |-> IF x = Ev.x THEN Ev.r ELSE texts[x]]
     /\ UNCHANGED <<size, ngroups, run, last, ids>>
TraceSpec == TraceInit /\ [][TraceNext]_allvars
Inv == T!NeverShared /\ T!NotMoreThanFits
====
