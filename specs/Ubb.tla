---- MODULE Ubb ----
(* U01: what a configuration file means, what is refused, and what is stored.

   A file is a sequence of tokens <<kind, text>>:  "w" a word (quoted or not), "=" , "n" a new line that starts at its first column (comments and blank
   lines included), "c" a new line that continues the one before (starts with blanks), "s" a section header, "x" something that
   is never allowed (a quote that is not closed, a section without name). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES stored     \* the stored configuration: [f |-> name, t |-> tokens]; no tokens: none
vars == <<stored>>
Nothing == [f |-> "", t |-> <<>>]
Init == stored = Nothing

(* ---- parsing.  v: "ok", "bad" (malformed), "gray" (not defined, e.g. parameters given twice) *)
Sections == {"RESOURCES", "MACHINES", "GROUPS", "SERVERS", "SERVICES"}
P0 == [v |-> "ok", ph |-> "line", sec |-> "", name |-> "", key |-> "", par |-> <<>>, res |-> <<>>, obj |-> <<>>]
Has(f, k) == k \in DOMAIN f
Put(f, k, x) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN x ELSE f[i]]
Worse(p, v) == [p EXCEPT !.v = IF @ = "ok" \/ v = "gray" THEN v ELSE IF @ = "either" /\ v = "bad" THEN v ELSE @]
Bad(p) == Worse(p, "bad")
Gray(p) == Worse(p, "gray")
EndObj(p) == [p EXCEPT !.obj = Append(@, [sec |-> p.sec, name |-> p.name, par |-> p.par]), !.ph = "line"]
Step(p, tok) ==
  LET k == IF tok[1] = "s" /\ p.ph # "line" THEN "w" ELSE tok[1]       \* a * inside of a line is nothing special
      w == tok[2] IN
  IF k = "x" THEN Bad(p)
  ELSE CASE p.ph = "line" ->
         (CASE k = "n" -> p
            [] k = "c" -> Gray(p)
            [] k = "s" -> LET q == [p EXCEPT !.sec = w, !.ph = "sec"] IN IF w \in Sections THEN q ELSE Gray(q)
            [] k = "=" -> Gray(p)
            [] OTHER -> IF p.sec = "RESOURCES" THEN [p EXCEPT !.key = w, !.ph = "res"]
                        ELSE LET q == [p EXCEPT !.name = w, !.ph = "par", !.par = <<>>] IN IF p.sec = "" THEN Gray(q) ELSE q)
       [] p.ph = "sec" -> (CASE k = "n" -> [p EXCEPT !.ph = "line"] [] k = "c" -> Gray([p EXCEPT !.ph = "line"]) [] OTHER -> Bad(p))
       [] p.ph = "res" -> (CASE k = "w" -> LET q == [p EXCEPT !.res = Put(@, p.key, w), !.ph = "resv"] IN IF Has(p.res, p.key) THEN Gray(q) ELSE q
                             [] k = "=" -> Gray(p) [] OTHER -> Bad(p))
       [] p.ph = "resv" -> (CASE k = "n" -> [p EXCEPT !.ph = "line"] [] k = "c" -> Gray([p EXCEPT !.ph = "line"]) [] OTHER -> Bad(p))
       [] p.ph = "par" -> (CASE k = "n" -> EndObj(p) [] k = "c" -> p [] k = "=" -> Gray(p) [] OTHER -> [p EXCEPT !.key = w, !.ph = "key"])
       [] p.ph = "key" -> (CASE k = "=" -> [p EXCEPT !.ph = "val"] [] k = "c" -> Gray(p) [] OTHER -> Bad(p))
       [] OTHER -> (CASE k = "w" -> LET q == [p EXCEPT !.par = Put(@, p.key, w), !.ph = "par"] IN IF Has(p.par, p.key) THEN Gray(q) ELSE q
                      [] k \in {"c", "="} -> Gray(p) [] OTHER -> Bad(p))
(* nothing where a time is expected may also stand for its default *)
Empty(p) == {k \in DOMAIN p.res : k \in {"BLOCKTIME", "SCANUNIT"} /\ p.res[k] = ""}
Parse(t) == LET p == FoldLeft(Step, P0, t)
                q == IF Empty(p) = {} THEN p ELSE Worse([p EXCEPT !.res = [k \in DOMAIN p.res \ Empty(p) |-> p.res[k]]], "either")
            IN IF p.ph \in {"line", "sec"} THEN q ELSE Bad(q)

(* ---- numbers *)
Digits == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |->
   CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] OTHER -> 9]
Chars(s) == [i \in 1..Len(s) |-> SubSeq(s, i, i)]
Abs(s) == IF s # "" /\ SubSeq(s, 1, 1) = "-" THEN SubSeq(s, 2, Len(s)) ELSE s
IsNum(s) == Abs(s) # "" /\ \A i \in 1..Len(Abs(s)) : SubSeq(Abs(s), i, i) \in DOMAIN Digits
Signif(s) == LET f == {i \in 1..Len(s) : SubSeq(s, i, i) # "0"} IN IF f = {} THEN "0" ELSE SubSeq(s, CHOOSE i \in f : \A j \in f : i <= j, Len(s))
Huge == 2000000000
(* a number of text that is one; those of more than 9 digits are just big *)
Num(s) == LET d == Signif(Abs(s)) m == IF Len(d) > 9 THEN Huge ELSE FoldLeft(LAMBDA n, c : n * 10 + Digits[c], 0, Chars(d)) IN IF Abs(s) = s THEN m ELSE 0 - m
IntIn(s, lo, hi) == IsNum(s) /\ lo <= Num(s) /\ Num(s) <= hi

(* ---- what is described *)
Get(f, k, d) == IF Has(f, k) THEN f[k] ELSE d
Opt(f, k, lo, hi) == Has(f, k) => IntIn(f[k], lo, hi)
NumOr(f, k, d) == IF Has(f, k) THEN Num(f[k]) ELSE d
Of(p, sec) == SelectSeq(p.obj, LAMBDA o : o.sec = sec)
Tms(g) == Get(g.par, "TMSNAME", "") # ""
SMin(s) == NumOr(s.par, "MIN", 1)
SMax(s) == NumOr(s.par, "MAX", SMin(s))
GroupNo(p, n) == Num((CHOOSE g \in ToSet(Of(p, "GROUPS")) : g.name = n).par["GRPNO"])
RqOf(p, s, id) == LET a == Get(s.par, "RQADDR", "") IN IF a = "" THEN ToString(GroupNo(p, s.par["SRVGRP"])) \o "." \o ToString(id) ELSE a
Auto(b) == IF b THEN 1 ELSE 0
SrvOf(p, s) == [k \in 1..SMax(s) |-> LET id == Num(s.par["SRVID"]) + k - 1 IN
   [g |-> GroupNo(p, s.par["SRVGRP"]), id |-> id, name |-> s.name, opt |-> Get(s.par, "CLOPT", ""), rq |-> RqOf(p, s, id), auto |-> Auto(k <= SMin(s)),
    lo |-> NumOr(s.par, "MINDISPATCHTHREADS", 1), hi |-> NumOr(s.par, "MAXDISPATCHTHREADS", 1)]]
TmsOf(g) == [k \in 1..(IF Tms(g) THEN NumOr(g.par, "TMSCOUNT", 3) ELSE 0) |->
   [g |-> Num(g.par["GRPNO"]), id |-> 30000 + k, name |-> g.par["TMSNAME"], opt |-> "-A", rq |-> ToString(Num(g.par["GRPNO"])) \o ".TM", auto |-> 1, lo |-> 0, hi |-> 0]]
Bbl == [g |-> 0, id |-> 0, name |-> "BBL", opt |-> "-A", rq |-> ".BBL", auto |-> 1, lo |-> 0, hi |-> 0]
Map(F(_), q) == [i \in 1..Len(q) |-> F(q[i])]
Servers(p) == <<Bbl>> \o FlattenSeq(Map(TmsOf, Of(p, "GROUPS"))) \o FlattenSeq(Map(LAMBDA s : SrvOf(p, s), Of(p, "SERVERS")))
Queues(p) == {s.rq : s \in ToSet(Servers(p))}
Groups(p) == Map(LAMBDA g : [no |-> Num(g.par["GRPNO"]), name |-> g.name, open |-> Get(g.par, "OPENINFO", ""), close |-> Get(g.par, "CLOSEINFO", ""), tms |-> Get(g.par, "TMSNAME", "")],
                 Of(p, "GROUPS"))
IsMs(s) == Len(s) > 2 /\ SubSeq(s, Len(s) - 1, Len(s)) \in {"MS", "ms", "Ms", "mS"}
UnitNum(s) == IF IsMs(s) THEN SubSeq(s, 1, Len(s) - 2) ELSE s
Millis(p) == LET u == Get(p.res, "SCANUNIT", "1000MS") IN NumOr(p.res, "BLOCKTIME", 15) * Num(UnitNum(u)) * (IF IsMs(u) THEN 1 ELSE 1000)
Limits == [MAXSERVERS |-> <<8192, 50>>, MAXSERVICES |-> <<1048575, 100>>, MAXQUEUES |-> <<8192, 50>>, MAXGROUPS |-> <<32768, 100>>, MAXACCESSERS |-> <<32768, 50>>]
Limit(p, k) == NumOr(p.res, k, Limits[k][2])
Domain(p) == [ipckey |-> Num(p.res["IPCKEY"]), master |-> Get(p.res, "MASTER", ""), MAXSERVERS |-> Limit(p, "MAXSERVERS"), MAXSERVICES |-> Limit(p, "MAXSERVICES"),
              MAXQUEUES |-> Limit(p, "MAXQUEUES"), MAXGROUPS |-> Limit(p, "MAXGROUPS"), MAXACCESSERS |-> Limit(p, "MAXACCESSERS")]
Machine(p) == LET m == Of(p, "MACHINES")[1] IN
  [address |-> m.name, lmid |-> m.par["LMID"], tuxconfig |-> m.par["TUXCONFIG"], tuxdir |-> m.par["TUXDIR"], appdir |-> m.par["APPDIR"],
   ulogpfx |-> Get(m.par, "ULOGPFX", ""), tlog |-> Get(m.par, "TLOGDEVICE", ""), blocktime |-> Millis(p)]

(* ---- what is refused *)
Distinct(q) == Cardinality(ToSet(q)) = Len(q)
ResOk(p) == /\ Has(p.res, "IPCKEY") /\ IntIn(p.res["IPCKEY"], 1, Huge - 1)
            /\ \A k \in DOMAIN Limits : Opt(p.res, k, 1, Limits[k][1])
            /\ Opt(p.res, "BLOCKTIME", 1, Huge - 1)
            /\ Has(p.res, "SCANUNIT") => IntIn(UnitNum(p.res["SCANUNIT"]), 1, Huge - 1)
MachOk(p) == /\ Len(Of(p, "MACHINES")) = 1
             /\ LET m == Of(p, "MACHINES")[1].par IN {"LMID", "TUXCONFIG", "TUXDIR", "APPDIR"} \subseteq DOMAIN m /\ m["TUXCONFIG"] = "@T"
GroupsOk(p) == LET gs == Of(p, "GROUPS") IN
  /\ \A i \in 1..Len(gs) : Has(gs[i].par, "GRPNO") /\ IntIn(gs[i].par["GRPNO"], 1, 30000)
                           /\ (Tms(gs[i]) => Opt(gs[i].par, "TMSCOUNT", 2, 10))
  /\ Distinct(Map(LAMBDA g : Num(g.par["GRPNO"]), gs)) /\ Distinct(Map(LAMBDA g : g.name, gs))
ServersOk(p) == LET ss == Of(p, "SERVERS") IN
  /\ \A i \in 1..Len(ss) : LET x == ss[i].par IN
       /\ Has(x, "SRVGRP") /\ Has(x, "SRVID") /\ \E g \in ToSet(Of(p, "GROUPS")) : g.name = x["SRVGRP"]
       /\ IntIn(x["SRVID"], 1, 30000) /\ \A k \in {"MIN", "MAX", "MINDISPATCHTHREADS", "MAXDISPATCHTHREADS"} : Opt(x, k, 1, 1000)
       /\ SMax(ss[i]) >= SMin(ss[i]) /\ Num(x["SRVID"]) + SMax(ss[i]) - 1 <= 30000
Fits(p) == /\ Len(Servers(p)) <= Limit(p, "MAXSERVERS")
           /\ Cardinality(Queues(p)) <= Limit(p, "MAXQUEUES")
           /\ Len(Of(p, "GROUPS")) <= Limit(p, "MAXGROUPS")
Once(p) == Distinct(Map(LAMBDA s : <<s.g, s.id>>, Servers(p)))
Valid(p) == ResOk(p) /\ MachOk(p) /\ GroupsOk(p) /\ ServersOk(p) /\ Fits(p) /\ Once(p)

(* what may be refused, but if it is not, then it is as described *)
LongP(f, lim) == \E k \in DOMAIN f : Len(f[k]) > (IF Has(lim, k) THEN lim[k] ELSE 255)
ObjLim == [LMID |-> 29, RQADDR |-> 29, CLOPT |-> 1023]
NameLim == [MACHINES |-> 30, GROUPS |-> 29, SERVERS |-> 78, SERVICES |-> 15]
Doubtful(p) == \/ LongP(p.res, [MASTER |-> 255])
               \/ \E o \in ToSet(p.obj) : LongP(o.par, ObjLim) \/ Len(o.name) > NameLim[o.sec] \/ o.name = ""
               \/ \E s \in ToSet(Of(p, "SERVERS")) : NumOr(s.par, "MINDISPATCHTHREADS", 1) > NumOr(s.par, "MAXDISPATCHTHREADS", 1)
               \/ \E g \in ToSet(Of(p, "GROUPS")) : ~Tms(g) /\ ~Opt(g.par, "TMSCOUNT", 2, 10)
               \/ ~Has(p.res, "MASTER")
               \/ Limit(p, "MAXSERVERS") * (1 + (Limit(p, "MAXSERVICES") \div 1000)) > 5000
               \/ \E s \in ToSet(Of(p, "SERVERS")) : NumOr(s.par, "MIN", 1) = 0
Verdict(t) == LET p == Parse(t) IN
  IF p.v # "ok" THEN p.v
  ELSE IF ~Valid(p) THEN "bad"
  ELSE IF Doubtful(p) THEN "either" ELSE "ok"

(* ---- operations.  how: "load", "check" (only the syntax), "full" (it can not be written) *)
Load(f, t, how, rc) ==
  LET v == Verdict(t) keeps == UNCHANGED stored
      takes == IF how = "check" THEN UNCHANGED stored ELSE stored' = [f |-> f, t |-> t] IN
  \/ v = "ok" /\ how # "full" /\ rc = 0 /\ takes
  \/ v = "bad" /\ rc # 0 /\ keeps
  \/ v \in {"either", "gray"} /\ how # "full" /\ rc = 0 /\ takes
  \/ v \in {"either", "gray"} /\ rc # 0 /\ keeps
  \/ how = "full" /\ rc # 0 /\ keeps
Unload(rc, text) == IF stored = Nothing THEN rc # 0 /\ text = "" /\ UNCHANGED stored
                    ELSE rc = 0 /\ text = stored.f /\ UNCHANGED stored

Threads(s, x) == s.lo = 0 \/ (s.lo = x.lo /\ s.hi = x.hi)
SameServer(s, x) == /\ s.g = x.g /\ s.id = x.id /\ s.name = x.name /\ s.rq = x.rq /\ s.auto = x.auto /\ x.act = 0
                    /\ (x.opt = s.opt \/ (s.opt = "" /\ x.opt = "-A")) /\ Threads(s, x)
Described(p, d) ==
  /\ d.dom = Domain(p) /\ d.mach = Machine(p)
  /\ Len(d.groups) = Len(Groups(p)) /\ ToSet(d.groups) = ToSet(Groups(p))
  /\ Len(d.queues) = Cardinality(Queues(p)) /\ ToSet(d.queues) = Queues(p)
  /\ LET w == Servers(p) IN Len(d.servers) = Len(w) /\ \A i \in 1..Len(w) : (SameServer(w[i], d.servers[i]) \/ \E j \in 1..Len(w) : SameServer(w[i], d.servers[j]))
(* what processes find that join all at once *)
Attach(n, views) ==
  /\ UNCHANGED stored
  /\ IF stored = Nothing THEN \A k \in 1..n : views[k].rc # 0
     ELSE LET p == Parse(stored.t) IN
          p.v = "gray" \/ ((\A k \in 1..n : views[k].rc = 0 /\ views[k].d = views[1].d) /\ Described(p, views[1].d))
TypeOK == stored = Nothing \/ stored.t # <<>>
====
