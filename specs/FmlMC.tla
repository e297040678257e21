---- MODULE FmlMC ----
(* Exhaustive configurations of Fml over a few fields with few values; prints every transition for the walk generator. *)
EXTENDS Fml
CONSTANTS Fields,   \* names of fields: letter and number
          Codes,    \* value codes
          MaxOcc, Room, Whole2
VARIABLE last
(* field numbers as the driver makes them: <letter><number> with number 1 *)
Num(w) == CASE w = "S1" -> 1 [] w = "L1" -> 16777217 [] w = "C1" -> 33554433 [] w = "F1" -> 50331649 [] w = "D1" -> 67108865
            [] w = "T1" -> 83886081 [] w = "T2" -> 83886082 [] w = "R1" -> 100663297 [] w = "B1" -> 167772161
ValLen(w) == CASE w = "a" -> 2 [] w = "b" -> 9 [] OTHER -> 0
Val(f, c) == [v |-> c, n |-> CASE Type(f) = T_SHORT -> 2 [] Type(f) = T_CHAR -> 1 [] Type(f) = T_FLOAT -> 4 [] Type(f) \in {T_LONG, T_DOUBLE} -> 8
                                  [] Type(f) = T_STRING -> ValLen(c) + 1 [] Type(f) = T_CARRAY -> ValLen(c) [] OTHER -> MINSIZE]
W(c) == c \o ":" \o ToString(ValLen(c))
MCInit == cap = [b \in 0..1 |-> Room] /\ buf = [b \in 0..1 |-> <<>>] /\ last = <<>>
B == IF Whole2 THEN 0..1 ELSE {0}
L(s) == last' = s
Ocs == 0..MaxOcc
Bound == \A b \in 0..1 : \A f \in DOMAIN buf'[b] : Len(buf'[b][f]) <= MaxOcc
RE == {0, FNOSPACE, FNOTPRES}
MCNext ==
  \E b \in B : \E w \in Fields : LET f == Num(w) IN
   \/ \E c \in Codes : \E r \in {0, -1} : Chg(b, f, -1, Val(f, c), r, FNOSPACE) /\ L(<<"add", b, w, W(c)>>)
   \/ \E c \in Codes, oc \in Ocs : \E r \in {0, -1} : ~Whole2 /\ Chg(b, f, oc, Val(f, c), r, FNOSPACE) /\ L(<<"chg", b, w, oc, W(c)>>)
   \/ \E oc \in Ocs : \E r \in {0, -1} : (~Whole2 \/ oc = 0) /\ Del(b, f, oc, r, FNOTPRES) /\ L(<<"del", b, w, oc>>)
   \/ \E r \in {0, -1} : ~Whole2 /\ DelAll(b, f, r, FNOTPRES) /\ L(<<"delall", b, w>>)
   \/ \E oc \in Ocs : ~Whole2 /\ UNCHANGED vars /\ \E q \in {<<"get", b, w, oc, -1>>, <<"get", b, w, oc, 3>>, <<"find", b, w, oc>>, <<"pres", b, w, oc>>, <<"len", b, w, oc>>, <<"getalloc", b, w, oc>>} : L(q)
   \/ ~Whole2 /\ UNCHANGED vars /\ \E q \in {<<"findlast", b, w>>, <<"occur", b, w>>} \cup {<<"findocc", b, w, W(c)>> : c \in Codes} : L(q)
   \/ \E oc \in Ocs : ~Whole2 /\ UNCHANGED vars /\ \E room \in {-1, 2, 100} : L(<<"next", b, w, oc, room>>)
   \/ /\ Whole2
      /\ \E op \in {"cpy", "update", "join", "ojoin", "concat"} : \E r \in {0, -1} :
           LET m == buf[b]
               s == buf[1 - b]
               res == CASE op = "cpy" -> IF Size(s) <= cap[b] THEN [ok |-> TRUE, m |-> s] ELSE [ok |-> FALSE, m |-> m]
                        [] op = "update" -> Fold(m, cap[b], List(s), 1, "update")
                        [] op = "ojoin" -> Fold(m, cap[b], List(s), 1, "matched")
                        [] op = "join" -> Fold(Matched(m, s), cap[b], List(s), 1, "matched")
                        [] op = "concat" -> IF cap[b] - Size(m) < Size(s) + MINSIZE THEN [ok |-> FALSE, m |-> m] ELSE Fold(m, cap[b], List(s), 1, "append")
           IN Whole(op, b, r, FNOSPACE, {}, res.m) /\ L(<<op, b>>)
   \/ /\ Whole2 /\ \E F \in SUBSET Fields : F # {} /\
           LET G == {Num(x) : x \in F} IN
           \/ Whole("proj", b, 0, 0, G, Keep(buf[b], G)) /\ L(<<"proj", b, F>>)
           \/ Whole("delete", b, 0, 0, G, Keep(buf[b], DOMAIN buf[b] \ G)) /\ L(<<"delete", b, F>>)
           \/ \E r \in {0, -1} : Whole("projcpy", b, r, FNOSPACE, G, Fold(<<>>, cap[b], List(Keep(buf[1 - b], G)), 1, "append").m) /\ L(<<"projcpy", b, F>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == vars
Limit == Bound
PrintEdge == PrintT("EDGE " \o ToJson([f |-> List(buf[0]) \o <<"|">> \o List(buf[1]), e |-> last', t |-> List(buf'[0]) \o <<"|">> \o List(buf'[1])]))
====
