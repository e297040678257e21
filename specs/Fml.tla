---- MODULE Fml ----
(* Fielded buffers: a map from field to the sequence of its values.  Two buffers, 0 and 1.
   A value is [v |-> its bytes (hex) or, for nested buffers, its contents, n |-> its length].
*)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json, FmlTypes

VARIABLES cap,    \* [0..1 -> room for fields, in bytes]
          buf     \* [0..1 -> [fields -> nonempty sequence of values]]
vars == <<cap, buf>>

Default(f) == CASE Type(f) = T_SHORT -> [v |-> "0000", n |-> 2]
                [] Type(f) = T_CHAR -> [v |-> "00", n |-> 1]
                [] Type(f) = T_FLOAT -> [v |-> "00000000", n |-> 4]
                [] Type(f) \in {T_LONG, T_DOUBLE} -> [v |-> "0000000000000000", n |-> 8]
                [] Type(f) = T_STRING -> [v |-> "00", n |-> 1]
                [] Type(f) = T_CARRAY -> [v |-> "", n |-> 0]
                [] OTHER -> [v |-> "{}", n |-> MINSIZE]

RECURSIVE SumSeq(_, _, _)
SumSeq(f, s, i) == IF i > Len(s) THEN 0 ELSE FieldSize(f, s[i].n) + SumSeq(f, s, i + 1)
RECURSIVE SumMap(_, _)
SumMap(m, D) == IF D = {} THEN 0 ELSE LET f == CHOOSE x \in D : TRUE IN SumSeq(f, m[f], 1) + SumMap(m, D \ {f})
Size(m) == SumMap(m, DOMAIN m)

Vals(m, f) == IF f \in DOMAIN m THEN m[f] ELSE <<>>
Occ(m, f) == Len(Vals(m, f))
Set(m, f, s) == IF s = <<>> THEN [g \in DOMAIN m \ {f} |-> m[g]] ELSE [g \in DOMAIN m \cup {f} |-> IF g = f THEN s ELSE m[g]]

(* value sequence after changing occurrence oc, missing occurrences before it get the default value *)
ChgSeq(s, f, oc, val) ==
  IF oc < Len(s) THEN [s EXCEPT ![oc + 1] = val]
  ELSE s \o [i \in 1..(oc - Len(s)) |-> Default(f)] \o <<val>>
DelSeq(s, oc) == SubSeq(s, 1, oc) \o SubSeq(s, oc + 2, Len(s))
ChgMap(m, f, oc, val) == Set(m, f, ChgSeq(Vals(m, f), f, oc, val))

Put(b, m) == buf' = [buf EXCEPT ![b] = m] /\ UNCHANGED cap

Alloc(b, c) == cap' = [cap EXCEPT ![b] = c] /\ buf' = [buf EXCEPT ![b] = <<>>]
Init0(b) == Put(b, <<>>)

(* oc = -1: add one more *)
Chg(b, f, oc, val, r, e) ==
  LET m == ChgMap(buf[b], f, IF oc = -1 THEN Occ(buf[b], f) ELSE oc, val)
  IN  IF Size(m) <= cap[b]
      THEN r = 0 /\ Put(b, m)
      ELSE r = -1 /\ e = FNOSPACE /\ UNCHANGED vars
Del(b, f, oc, r, e) ==
  IF oc >= 0 /\ oc < Occ(buf[b], f)
  THEN r = 0 /\ Put(b, Set(buf[b], f, DelSeq(buf[b][f], oc)))
  ELSE r = -1 /\ e = FNOTPRES /\ UNCHANGED vars
DelAll(b, f, r, e) ==
  IF f \in DOMAIN buf[b] THEN r = 0 /\ Put(b, Set(buf[b], f, <<>>)) ELSE r = -1 /\ e = FNOTPRES /\ UNCHANGED vars

(* reading; room = -1: no limit *)
Get(b, f, oc, room, r, e, n, v) ==
  /\ IF oc >= Occ(buf[b], f) THEN r = -1 /\ e = FNOTPRES
     ELSE LET x == buf[b][f][oc + 1]
          IN  IF room >= 0 /\ room < x.n THEN r = -1 /\ e = FNOSPACE /\ n = x.n
              ELSE r = 0 /\ n = x.n /\ v = x.v
  /\ UNCHANGED vars
Find(b, f, oc, r, e, n, v) == Get(b, f, oc, -1, r, e, n, v)
FindLast(b, f, oc, r, e, n, v) ==
  /\ IF Occ(buf[b], f) = 0 THEN r = -1 /\ e = FNOTPRES
     ELSE LET x == buf[b][f][Occ(buf[b], f)] IN r = 0 /\ oc = Occ(buf[b], f) - 1 /\ n = x.n /\ v = x.v
  /\ UNCHANGED vars
Pres(b, f, oc, r) == r = (IF oc < Occ(buf[b], f) THEN 1 ELSE 0) /\ UNCHANGED vars
Occur(b, f, r) == r = Occ(buf[b], f) /\ UNCHANGED vars
LenOf(b, f, oc, r, e) ==
  (IF oc < Occ(buf[b], f) THEN r = buf[b][f][oc + 1].n ELSE r = -1 /\ e = FNOTPRES) /\ UNCHANGED vars
FindOcc(b, f, v, r, e) ==
  /\ LET hits == {i \in 1..Occ(buf[b], f) : buf[b][f][i].v = v}
     IN  IF hits = {} \/ Type(f) = T_FML THEN r = -1 /\ e = FNOTPRES ELSE r = (CHOOSE i \in hits : \A j \in hits : i <= j) - 1
  /\ UNCHANGED vars

(* iteration order: by field number, then occurrence *)
RECURSIVE SortedFields(_)
SortedFields(D) == IF D = {} THEN <<>> ELSE LET f == CHOOSE x \in D : \A y \in D : x <= y IN <<f>> \o SortedFields(D \ {f})
RECURSIVE ListF(_, _, _)
ListF(m, fs, i) == IF i > Len(fs) THEN <<>> ELSE [k \in 1..Len(m[fs[i]]) |-> <<fs[i], k - 1, m[fs[i]][k].n, m[fs[i]][k].v>>] \o ListF(m, fs, i + 1)
List(m) == ListF(m, SortedFields(DOMAIN m), 1)

(* one step of iteration from a value, present or not (f = 0: from the beginning); room = -1: no length given *)
NextStep(b, f, oc, room, r, e, nf, noc, n, v) ==
  LET m == buf[b]
      inField == f # 0 /\ oc + 1 < Occ(m, f)
      later == {g \in DOMAIN m : g > f}
      g == IF inField THEN f ELSE CHOOSE x \in later : \A y \in later : x <= y
      k == IF inField THEN oc + 1 ELSE 0
  IN  /\ IF ~inField /\ later = {} THEN r = 0
         ELSE IF room >= 0 /\ room < m[g][k + 1].n THEN r = -1 /\ e = FNOSPACE /\ n = m[g][k + 1].n
         ELSE r = 1 /\ nf = g /\ noc = k /\ n = m[g][k + 1].n /\ v = m[g][k + 1].v
      /\ UNCHANGED vars

(* everything visible of a buffer *)
Dump(b, list, used, unused, size) ==
  /\ list = List(buf[b])
  /\ size = cap[b] + MINSIZE /\ used + unused = size /\ used = MINSIZE + Size(buf[b])
  /\ UNCHANGED vars

----
(* Whole-buffer operations.  A fold over the source's values in iteration order; lack of space anywhere on the way fails. *)
Step(step, m, f, oc, val) ==
  CASE step = "update" -> ChgMap(m, f, oc, val)
    [] step = "matched" -> IF oc < Occ(m, f) THEN ChgMap(m, f, oc, val) ELSE m
    [] step = "append" -> ChgMap(m, f, Occ(m, f), val)
RECURSIVE Fold(_, _, _, _, _)
Fold(m, c, list, i, step) ==
  IF i > Len(list) THEN [ok |-> TRUE, m |-> m]
  ELSE LET f == list[i][1]
           oc == list[i][2]
           m2 == Step(step, m, f, oc, [n |-> list[i][3], v |-> list[i][4]])
       IN  IF Size(m2) > c THEN [ok |-> FALSE, m |-> m] ELSE Fold(m2, c, list, i + 1, step)


Keep(m, F) == [f \in DOMAIN m \cap F |-> m[f]]
Min(a, b) == IF a < b THEN a ELSE b
Matched(m, s) == [f \in DOMAIN m \cap DOMAIN s |-> SubSeq(m[f], 1, Min(Len(m[f]), Len(s[f])))]

(* the values of src projected on F, or matched with the destination *)
Whole(op, d, r, e, F, m2) ==
  LET m == buf[d]
      s == buf[1 - d]
      res == CASE op = "cpy" -> IF Size(s) <= cap[d] THEN [ok |-> TRUE, m |-> s] ELSE [ok |-> FALSE, m |-> m]
               [] op = "update" -> Fold(m, cap[d], List(s), 1, "update")
               [] op = "ojoin" -> Fold(m, cap[d], List(s), 1, "matched")
               [] op = "join" -> Fold(Matched(m, s), cap[d], List(s), 1, "matched")
               [] op = "concat" -> Fold(m, cap[d], List(s), 1, "append")
               [] op = "proj" -> [ok |-> TRUE, m |-> Keep(m, F)]
               [] op = "delete" -> [ok |-> TRUE, m |-> Keep(m, DOMAIN m \ F)]
               [] op = "projcpy" -> Fold(<<>>, cap[d], List(Keep(s, F)), 1, "append")
      early == op = "concat" /\ cap[d] - Size(m) < Size(s) + MINSIZE    \* may be refused right away
  IN  \/ res.ok /\ r # -1 /\ m2 = res.m /\ Put(d, m2)
      \* refused: the destination keeps a part of the work at most; what it holds is taken from the trace
      \/ ~res.ok /\ r = -1 /\ e = FNOSPACE /\ Put(d, m2)
      \/ early /\ r = -1 /\ e = FNOSPACE /\ m2 = m /\ UNCHANGED vars

----
(* Properties of the design *)
Fits == \A b \in 0..1 : Size(buf[b]) <= cap[b]
NoEmpty == \A b \in 0..1 : \A f \in DOMAIN buf[b] : buf[b][f] # <<>>
====
