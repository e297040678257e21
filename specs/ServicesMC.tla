---- MODULE ServicesMC ----
(* All combinations of what Servers offer, and every call, advertisement and withdrawal in each of them *)
EXTENDS Services, Json
CONSTANTS Servers, Svcs, Adm
VARIABLES last
MCAdm == [s \in {"1.1", "1.2", "1.3"} |-> "ADM" \o s]
MCQueue(s) == IF s \in {"1.1", "1.2"} THEN "qa" ELSE s
Base == {<<s, Adm[s], 1>> : s \in Servers}
MCInit == Init0(Base) /\ last = <<>>
(* a whole call, of a service that does it at once *)
Whole(svc) ==
  \E s \in Servers, f \in 1..2, e \in {"ok", "noent"} :
     IF e = "ok" THEN \E a \in tab : a[1] = s /\ a[2] = svc /\ a[3] = f ELSE ~\E a \in tab : a[2] = svc
AdvDone(s, svc, f, e) == Adv(s, svc, f, e)
UnadvDone(s, svc, e) == Unadv(s, svc, e)
Errs == {"ok", "inval", "match", "noent"}
MCNext ==
  \/ \E svc \in Svcs : Whole(svc) /\ UNCHANGED vars /\ last' = <<"call", svc>>
  \/ \E s \in Servers, svc \in Svcs, f \in 1..2, e \in Errs : AdvDone(s, svc, f, e) /\ last' = <<"adv", s, svc, f>>
  \/ \E s \in Servers, svc \in Svcs, e \in Errs : UnadvDone(s, svc, e) /\ last' = <<"unadv", s, svc>>
  \/ \E s \in Servers, e \in Errs : AdvDone(s, "", 1, e) /\ last' = <<"adv", s, "-", 1>>
  \/ \E s \in Servers, e \in Errs : AdvDone(s, "X", 0, e) /\ last' = <<"adv", s, "X", 0>>
  \/ \E s \in Servers, e \in Errs : UnadvDone(s, "", e) /\ last' = <<"unadv", s, "-">>
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == tab
OneFunction == \A a, b \in tab : a[1] = b[1] /\ a[2] = b[2] => a = b
St(t) == [s \in Servers |-> [v \in Svcs |-> LET m == {a \in t : a[1] = s /\ a[2] = v} IN IF m = {} THEN 0 ELSE (CHOOSE a \in m : TRUE)[3]]]
PrintEdge == PrintT("EDGE " \o ToJson([f |-> St(tab), e |-> last', t |-> St(tab')]))
====
