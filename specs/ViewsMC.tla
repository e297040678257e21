---- MODULE ViewsMC ----
(* Histories of generating and generating again, with good and bad descriptions *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Many
VARIABLES hdr, last
INSTANCE Views
L0 == [k |-> "com", type |-> "", name |-> "", count |-> 1, flag |-> <<>>, size |-> 0]
V(n) == [L0 EXCEPT !.k = "view", !.name = n]
F(t, n, c, fl, s) == [L0 EXCEPT !.k = "fld", !.type = t, !.name = n, !.count = c, !.flag = fl, !.size = s]
E == [L0 EXCEPT !.k = "end"]
Ds == <<<<V("a"), F("long", "x", 1, <<>>, 0), E>>,
        <<V("b"), F("string", "s", 3, <<"L", "C">>, 8), F("char", "c", 2, <<"C">>, 0), E>>,
        <<V("c"), F("long", "x", 1, <<>>, 4), E>>,
        <<V("d"), F("short", "y", 1, <<>>, 0)>>>>
(* some order of the members of a group *)
RECURSIVE Order(_)
Order(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Order(S \ {x})
RECURSIVE Flat(_, _)
Flat(fs, i) == IF i > Len(fs) THEN <<>> ELSE Order(Group(fs[i])) \o Flat(fs, i + 1)
Header(d) == [structs |-> <<[name |-> View(d), members |-> Flat(Select(d, "fld"), 1)]>>, raws |-> <<>>]
Hs == {"v1.h", "v2.h"}
Now(h, i) == [p \in DOMAIN hdr \cup {h} |-> IF p = h THEN Header(Ds[i]) ELSE hdr[p]]
MCInit == Init /\ last = <<>>
MCNext ==
  \/ \E h \in Hs, i \in 1..4 : LET now == IF Bad(Ds[i]) THEN hdr ELSE Now(h, i) IN
        Generate(<<[h |-> h, lines |-> Ds[i]]>>, ~Bad(Ds[i]), now) /\ last' = <<<<h, i>>>>
  \/ Many /\ \E i, j \in 1..4 :
        LET n1 == IF Bad(Ds[i]) THEN hdr ELSE Now("v1.h", i)
            n2 == IF Bad(Ds[i]) \/ Bad(Ds[j]) THEN n1 ELSE [p \in DOMAIN n1 \cup {"v2.h"} |-> IF p = "v2.h" THEN Header(Ds[j]) ELSE n1[p]]
        IN  Generate(<<[h |-> "v1.h", lines |-> Ds[i]], [h |-> "v2.h", lines |-> Ds[j]]>>, ~Bad(Ds[i]) /\ ~Bad(Ds[j]), n2) /\ last' = <<<<"v1.h", i>>, <<"v2.h", j>>>>
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
VV == vars
(* no header comes from a bad description *)
Whole == \A p \in DOMAIN hdr : \E i \in 1..4 : ~Bad(Ds[i]) /\ Right(hdr[p], Ds[i])
PrintEdge == PrintT("EDGE " \o ToJson([f |-> hdr, e |-> last', t |-> hdr']))
====
