---- MODULE FieldsMC ----
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Many
VARIABLES files, env, nm, im, nu, iu, last
INSTANCE Fields
F(n, no, t) == [k |-> "fld", name |-> n, no |-> no, type |-> t]
Contents == <<<<F("x", 1, "short")>>,
              <<[k |-> "base", name |-> "", no |-> 1, type |-> ""], F("x", 1, "short"), F("y", 0, "short")>>,
              <<F("x", 2, "short"), [k |-> "bad", name |-> "a table", no |-> 0, type |-> ""]>>>>
Paths == {"A/t", "B/t", "B/u"}
Envs == <<[set |-> FALSE, dirs |-> <<>>, tabs |-> <<>>], [set |-> TRUE, dirs |-> <<"A", "B">>, tabs |-> <<"t">>],
          [set |-> TRUE, dirs |-> <<"B">>, tabs |-> <<"u", "t">>]>>
Of(p) == IF p = "A/t" THEN IF Many THEN {1, 2} ELSE {1} ELSE IF p = "B/t" THEN {2} ELSE IF Many THEN {1, 3} ELSE {3}
MCInit == Init /\ last = <<>>
L(x) == last' = x
MCNext ==
  \/ \E p \in Paths : \E c \in Of(p) : (p \in DOMAIN files => files[p] # Contents[c]) /\ Write(p, Contents[c]) /\ L(<<"write", p, c>>)
  \/ \E p \in Paths : p \in DOMAIN files /\ Remove(p) /\ L(<<"rm", p>>)
  \/ \E i \in 1..3 : env # Envs[i] /\ SetEnv(Envs[i].set, Envs[i].dirs, Envs[i].tabs) /\ L(<<"env", i>>)
  \/ \E n \in {"x", "y"}, id \in 0..2, e \in {0, 8} : (id = 0) = (e # 0) /\ ByName(n, id, e) /\ L(<<"id", n>>)
  \/ \E n \in {"x", "y", ""}, id \in 1..2, e \in {0, 5} : (n = "") = (e # 0) /\ ById(id, n, e) /\ L(<<"nm", id>>)
  \/ UnloadNames /\ L(<<"uln">>)
  \/ UnloadIds /\ L(<<"uli">>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == vars
Small == Cardinality(nm \cup im) <= IF Many THEN 3 ELSE 2
Safe == \A s \in nm \cup im : \A d \in s.defs : d[2] % 16777216 \in 1..MaxNo
PrintEdge == PrintT("EDGE " \o ToJson([f |-> <<files, env, nm, im, nu, iu>>, e |-> last', t |-> <<files', env', nm', im', nu', iu'>>]))
====
