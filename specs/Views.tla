---- MODULE Views ----
(* Headers generated from view descriptions.  A line of a description: [k, type, name, count, flag, size], k one of
   "view", "fld", "end", "raw" (copied to the header), "com", "blank", "bad" (none of these, or a field that is not well formed).
   hdr: what every generated header holds: structure name, its members in order, the raw lines. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
VARIABLE hdr
vars == <<hdr>>
Init == hdr = [p \in {} |-> <<>>]

Text(t) == t \in {"string", "carray"}
Type(t) == IF Text(t) THEN "char" ELSE t
Dims(x) == (IF x.count > 1 THEN <<x.count>> ELSE <<>>)
Has(x, f) == \E i \in 1..Len(x.flag) : x.flag[i] = f
(* the members a field brings: companions for its length and its count, and itself *)
Companions(x) ==
  (IF Has(x, "L") THEN {<<"unsigned int", "L_" \o x.name, Dims(x)>>} ELSE {}) \cup (IF Has(x, "C") THEN {<<"int", "C_" \o x.name, <<>>>>} ELSE {})
Member(x) == <<Type(x.type), x.name, Dims(x) \o (IF x.size > 0 THEN <<x.size>> ELSE <<>>)>>
Group(x) == Companions(x) \cup {Member(x)}
FieldBad(x) == (x.size > 0 /\ ~Text(x.type)) \/ \E i \in 1..Len(x.flag) : x.flag[i] \notin {"C", "L"}

At(lines, k) == {i \in 1..Len(lines) : lines[i].k = k}
Bad(lines) ==
  \/ \E i \in 1..Len(lines) : lines[i].k = "bad" \/ (lines[i].k = "fld" /\ FieldBad(lines[i]))
  \/ Cardinality(At(lines, "view")) # 1 \/ Cardinality(At(lines, "end")) # 1
  \/ \E v \in At(lines, "view"), e \in At(lines, "end") : v > e \/ \E f \in At(lines, "fld") : f < v \/ f > e
Select(lines, k) == SelectSeq(lines, LAMBDA x : x.k = k)
View(lines) == Select(lines, "view")[1].name
RECURSIVE Match(_, _, _, _)
(* members from the i-th on are the groups of the fields from the j-th on *)
Match(members, i, fields, j) ==
  IF j > Len(fields) THEN i = Len(members) + 1
  ELSE LET g == Group(fields[j])
           n == Cardinality(g)
       IN  i + n - 1 <= Len(members) /\ {members[k] : k \in i..(i + n - 1)} = g /\ Match(members, i + n, fields, j + 1)
Right(h, lines) ==
  /\ Len(h.structs) = 1 /\ h.structs[1].name = View(lines)
  /\ Match(h.structs[1].members, 1, Select(lines, "fld"), 1)
  /\ LET raws == Select(lines, "raw") IN h.raws = [i \in 1..Len(raws) |-> raws[i].name]

(* views[i] = [h |-> header, lines |-> description]; now: all headers there are afterwards *)
Generate(views, ok, now) ==
  LET bad == {i \in 1..Len(views) : Bad(views[i].lines)}
      done == {i \in 1..Len(views) : \A j \in bad : i < j}
      written == {views[i].h : i \in done}
  IN  /\ ok = (bad = {})
      \* headers of descriptions behind a bad one may or may not be written, but never from the bad one
      /\ \A i \in done : views[i].h \in DOMAIN now /\ Right(now[views[i].h], views[i].lines)
      /\ \A h \in DOMAIN hdr \ {views[i].h : i \in 1..Len(views)} : h \in DOMAIN now /\ now[h] = hdr[h]
      /\ \A h \in DOMAIN now \ DOMAIN hdr : \E i \in (1..Len(views)) \ bad : views[i].h = h
      /\ \A i \in bad : (views[i].h \in DOMAIN hdr /\ views[i].h \notin written) => now[views[i].h] = hdr[views[i].h]
      /\ hdr' = now
====
