---- MODULE Fields ----
(* Field tables: what they define, lookups by name and by identifier, generated headers.
   A line of a table: [k, name, no, type], k one of "base", "fld", "com", "raw" (a definition for the header only), "blank",
   "bad" (anything that is none of these).
   A table is defined by the environment: for every name in tabs the first of the directories that has such a file.
   nm, im: what a lookup by name / by identifier may be answered from: tables are read at a first lookup after the start or
   an unload and possibly again later, as long as answers are consistent with one state of the tables. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

FBADFLD == 5  FTYPERR == 6  FBADNAME == 8
Types == [short |-> 0, long |-> 1, char |-> 2, float |-> 3, double |-> 4, string |-> 5, carray |-> 6, fml32 |-> 10]
TypeNumbers == {Types[t] : t \in DOMAIN Types}
MaxNo == 16777215
Id(type, no) == (type * 16777216) + no

RECURSIVE Defs_(_, _, _, _)
Defs_(lines, i, base, acc) ==
  IF i > Len(lines) THEN [bad |-> FALSE, defs |-> acc]
  ELSE LET x == lines[i] IN
       CASE x.k = "base" -> Defs_(lines, i + 1, x.no, acc)
         [] x.k = "fld" -> IF x.type \in DOMAIN Types /\ (base + x.no) \in 1..MaxNo
                           THEN Defs_(lines, i + 1, base, acc \cup {<<x.name, Id(Types[x.type], base + x.no)>>})
                           ELSE [bad |-> TRUE, defs |-> acc]
         [] x.k = "bad" -> [bad |-> TRUE, defs |-> acc]
         [] OTHER -> Defs_(lines, i + 1, base, acc)
Defs(lines) == Defs_(lines, 1, 0, {})
Raws(lines) == {<<lines[i].name, lines[i].no>> : i \in {j \in 1..Len(lines) : lines[j].k = "raw"}}

VARIABLES files, env, nm, im, nu, iu
vars == <<files, env, nm, im, nu, iu>>

Path(d, t) == d \o "/" \o t
(* the file that defines table t, or "" *)
Source(f, e, t) ==
  LET at == {i \in 1..Len(e.dirs) : Path(e.dirs[i], t) \in DOMAIN f}
  IN  IF at = {} THEN "" ELSE Path(e.dirs[CHOOSE i \in at : \A j \in at : i <= j], t)
Snap(f, e) ==
  LET src == IF e.set THEN {Source(f, e, e.tabs[i]) : i \in 1..Len(e.tabs)} \ {""} ELSE {}
      ds == {Defs(f[p]) : p \in src}
  IN  [bad |-> \E d \in ds : d.bad, defs |-> UNION {d.defs : d \in ds}]

Init == files = [p \in {} |-> <<>>] /\ env = [set |-> FALSE, dirs |-> <<>>, tabs |-> <<>>] /\ nu = FALSE /\ iu = FALSE
        /\ nm = {[bad |-> FALSE, defs |-> {}]} /\ im = {[bad |-> FALSE, defs |-> {}]}

Changed == LET s == Snap(files', env') IN
  /\ nm' = IF nu THEN nm \cup {s} ELSE {s}
  /\ im' = IF iu THEN im \cup {s} ELSE {s}
  /\ UNCHANGED <<nu, iu>>
Write(p, lines) == files' = [q \in DOMAIN files \cup {p} |-> IF q = p THEN lines ELSE files[q]] /\ UNCHANGED env /\ Changed
Remove(p) == files' = [q \in DOMAIN files \ {p} |-> files[q]] /\ UNCHANGED env /\ Changed
SetEnv(set, dirs, tabs) == env' = [set |-> set, dirs |-> dirs, tabs |-> tabs] /\ UNCHANGED files /\ Changed

NameSays(s, name, id, e) ==
  \/ id # 0 /\ <<name, id>> \in s.defs
  \/ id = 0 /\ s.bad /\ e # 0
  \/ id = 0 /\ ~s.bad /\ e = FBADNAME /\ \A d \in s.defs : d[1] # name
IdSays(s, id, name, e) ==
  \/ e = 0 /\ <<name, id>> \in s.defs
  \/ e # 0 /\ name = "" /\ s.bad
  \/ e = FBADFLD /\ name = "" /\ ~s.bad /\ \A d \in s.defs : d[2] # id
Used == nu' = (nu \/ env.set) /\ iu' = (iu \/ env.set)
ByName(name, id, e) ==
  LET ok == {s \in nm : NameSays(s, name, id, e)} IN ok # {} /\ nm' = ok /\ Used /\ UNCHANGED <<files, env, im>>
ById(id, name, e) ==
  LET ok == {s \in im : IdSays(s, id, name, e)} IN ok # {} /\ im' = ok /\ Used /\ UNCHANGED <<files, env, nm>>
(* any number of lookups at the same time: rs of <<name, id, e>>, is of <<id, name, e>> *)
Together(rs, is) ==
  LET okn == {s \in nm : \A r \in rs : NameSays(s, r[1], r[2], r[3])}
      oki == {s \in im : \A r \in is : IdSays(s, r[1], r[2], r[3])}
  IN  okn # {} /\ oki # {} /\ nm' = okn /\ im' = oki /\ Used /\ UNCHANGED <<files, env>>
UnloadNames == nm' = {Snap(files, env)} /\ nu' = FALSE /\ UNCHANGED <<files, env, im, iu>>
UnloadIds == im' = {Snap(files, env)} /\ iu' = FALSE /\ UNCHANGED <<files, env, nm, nu>>

(* headers generated from a list of files: outs[i] = [ex, d]: a file was written, with these definitions *)
Headers(paths, ok, outs) ==
  LET bad == {i \in 1..Len(paths) : IF paths[i] \in DOMAIN files THEN Defs(files[paths[i]]).bad ELSE TRUE}
      before(i) == \A j \in bad : i < j
      all(p) == Defs(files[p]).defs \cup Raws(files[p])
      names(D) == {d[1] : d \in D}
  IN  /\ ok = IF bad = {} THEN 1 ELSE 0
      /\ \A i \in 1..Len(paths) :
           /\ i \in bad => outs[i].ex = 0
           /\ before(i) => outs[i].ex = 1 /\ outs[i].d \subseteq all(paths[i]) /\ names(outs[i].d) = names(all(paths[i]))
      /\ UNCHANGED vars

(* composing and taking apart identifiers *)
Compose(type, no, id, e) ==
  LET tok == type \in TypeNumbers
      nok == no \in 1..MaxNo
  IN  /\ IF tok /\ nok THEN id = Id(type, no) /\ e = 0
         ELSE id = -1 /\ ((e = FTYPERR /\ ~tok) \/ (e = FBADFLD /\ ~nok))
      /\ UNCHANGED vars
TakeApart(type, no, t, n) == t = type /\ n = no /\ UNCHANGED vars
====
