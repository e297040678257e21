---- MODULE BuiltMC ----
(* Building again and again: good, unknown resource manager, function that is not there *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names
VARIABLES made, up, last
INSTANCE Built
Tables == <<<<>>, <<<<"A", "A">>, <<"B", "A">>>>, <<<<"A", "B">>, <<"C", "NONE">>>>, <<<<"S1", "B">>>>>>
Rms == {[name |-> "R1", sw |-> "sw1"], [name |-> "R2", sw |-> "nosuch"]}
Defined == {"A", "B", "sw1", "tmnull_switch"}
MCInit == Init /\ last = <<>>
MCNext ==
  \/ \E n \in Names, t \in 1..4, rm \in {"", "R1", "R2", "R3"}, th \in BOOLEAN :
       LET ok == Possible(Tables[t], Rms, rm, Defined) IN
       /\ (rm = "R3" => t = 1) /\ (rm # "" => ~th)
       /\ Build(n, Tables[t], Rms, rm, Defined, th, FALSE, FALSE, ok, ok \/ n \in DOMAIN made, {}) /\ last' = <<"build", n, t, rm, th>>
  \/ \E n \in DOMAIN made : List(n, made[n].table) /\ last' = <<"list", n>>
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
VV == vars
Linked == \A n \in DOMAIN made : Funs(made[n].table) \subseteq Defined /\ made[n].sw \in Defined
PrintEdge == PrintT("EDGE " \o ToJson([f |-> made, e |-> last', t |-> made']))
====
