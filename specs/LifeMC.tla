---- MODULE LifeMC ----
(* Every administrative operation in every state of a small domain *)
EXTENDS Life, Json
VARIABLES last
S1(grp, gno, id, q, auto) == [grp |-> grp, gno |-> gno, id |-> id, q |-> q, auto |-> auto, log |-> id # 0, name |-> "", svcs |-> {}]
MCSrv == [s \in {"0.0", "1.1", "1.2", "1.3", "1.4", "2.1"} |->
   CASE s = "0.0" -> S1("", 0, 0, ".BBL", TRUE) [] s = "1.1" -> S1("G1", 1, 1, "qa", TRUE) [] s = "1.2" -> S1("G1", 1, 2, "qa", TRUE)
     [] s = "1.3" -> S1("G1", 1, 3, "1.3", TRUE) [] s = "1.4" -> S1("G1", 1, 4, "1.4", FALSE) [] OTHER -> S1("G2", 2, 1, "qa", TRUE)]
MCInit == Init /\ last = <<>>
Sels == {<<"", -1>>, <<"G1", -1>>, <<"G2", -1>>, <<"", 0>>, <<"", 1>>, <<"G1", 1>>, <<"G2", 3>>, <<"G2", 1>>}
Seqs == {<<>>} \cup UNION {[1..n -> S] : n \in 1..1}
(* results are functions of the state: the only ones that are right *)
RECURSIVE Enum(_)
Enum(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o Enum(T \ {x})
MCNext ==
  \/ \E x \in Sels : LET w == Want(x[1], x[2]) IN
       Boot(x[1], x[2], Enum(w \ fails), Enum(w \cap fails), Enum({s \in Sel(x[1], x[2]) : Srv[s].auto} \cap run), Enum(w \ {Bbl})) /\ last' = <<"boot", x[1], x[2]>>
  \/ \E x \in Sels : LET t == run \cap Sel(x[1], x[2]) IN Shut(x[1], x[2], Enum(t), <<>>, Enum(t \ {Bbl})) /\ last' = <<"shut", x[1], x[2]>>
  \/ \E s \in S : Kill(s) /\ last' = <<"kill", s>>
  \/ Rm /\ last' = <<"rm">>
  \/ \E b \in BOOLEAN : b # ("2.1" \in fails) /\ Fail("2.1", b) /\ last' = <<"fail", "2.1", IF b THEN 1 ELSE 0>>
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == <<run, fails, gone>>
St(r, f, g) == [r |-> [s \in S |-> s \in r], f |-> [s \in S |-> s \in f], g |-> g]
PrintEdge == PrintT("EDGE " \o ToJson([f |-> St(run, fails, gone), e |-> last', t |-> St(run', fails', gone')]))
====
