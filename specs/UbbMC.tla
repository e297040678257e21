---- MODULE UbbMC ----
(* Histories of loads of a few files: what is stored after each *)
EXTENDS Ubb, Json
VARIABLES last
W(x) == <<"w", x>>
E == <<"=", "">>
NL == <<"n", "">>
S(x) == <<"s", x>>
Res(k) == <<S("RESOURCES"), NL, W("IPCKEY"), W(k), NL, W("MASTER"), W("m"), NL, S("MACHINES"), NL, W("host"), W("LMID"), E, W("m"), W("TUXCONFIG"), E, W("@T"),
            <<"c", "">>, W("TUXDIR"), E, W("/t"), W("APPDIR"), E, W("/a"), NL>>
Grp(n) == <<W("G"), W("GRPNO"), E, W(n), NL>>
Srv(g, n) == <<W("srv"), W("SRVGRP"), E, W(g), W("SRVID"), E, W(n), NL>>
Cat == [small |-> Res("52000"), large |-> Res("52000") \o <<S("GROUPS"), NL>> \o Grp("1") \o <<S("SERVERS"), NL>> \o Srv("G", "1") \o Srv("G", "2"),
        range |-> Res("52000") \o <<S("GROUPS"), NL>> \o Grp("30001"), refers |-> Res("52000") \o <<S("SERVERS"), NL>> \o Srv("G", "1"),
        broken |-> Res("52000") \o <<S("GROUPS"), NL, W("G"), W("GRPNO"), NL>>, empty |-> <<NL>>]
ASSUME PrintT("CAT " \o ToJson(Cat))
ASSUME /\ \A f \in {"small", "large"} : Verdict(Cat[f]) = "ok"
       /\ \A f \in DOMAIN Cat \ {"small", "large"} : Verdict(Cat[f]) = "bad"
MCInit == Init /\ last = <<>>
MCNext == \/ \E f \in DOMAIN Cat, how \in {"load", "check", "full"}, rc \in {0, 1} : Load(f, Cat[f], how, rc) /\ last' = <<"load", f, how>>
          \/ \E rc \in {0, 1}, f \in DOMAIN Cat \cup {""} : Unload(rc, f) /\ last' = <<"unload">>
          \/ UNCHANGED stored /\ last' = <<"attach">>
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == stored
PrintEdge == PrintT("EDGE " \o ToJson([f |-> stored.f, e |-> last', t |-> stored'.f]))
====
