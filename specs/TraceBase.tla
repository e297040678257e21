---- MODULE TraceBase ----
(* Common part of every trace specification: the recorded trace, the position in it, and acceptance by
   reaching its end.  The highest position reached is kept in a TLC register (single worker), so that trace
   specifications may take silent steps and branch. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l

ASSUME TLCSet(42, 1)
Track == IF TLCGet(42) < l THEN TLCSet(42, l) ELSE TRUE

Ev == Trace[l]
IsOp(o) == l <= Len(Trace) /\ Trace[l].op = o /\ l' = l + 1

TraceAccepted ==
  /\ PrintT(<<"MATCHED", TLCGet(42) - 1, Len(Trace)>>)
  /\ TLCGet(42) - 1 = Len(Trace)
====
