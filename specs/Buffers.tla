---- MODULE Buffers ----
(* Typed buffers: named slots that hold nothing or a buffer with type, subtype, room and contents (a sequence of values:
   one for STRING and CARRAY, the values of one field for FML32).  Register reg holds what was exported last. *)
EXTENDS Naturals, Integers, Sequences, TLC, Base

CONSTANT Slots
VARIABLES slot, reg
vars == <<slot, reg>>

TPEINVAL == 4  TPENOENT == 6  TPELIMIT == 5  TPEPROTO == 9
Nil == [type |-> ""]
Known == {"STRING", "CARRAY", "FML32", "TPINIT"}
MinSize(t) == IF t \in {"STRING", "FML32"} THEN 512 ELSE 0     \* what is given at least
NoReg == [type |-> ""]
Max(a, b) == IF a > b THEN a ELSE b

Empty(t) == IF t = "FML32" THEN <<>> ELSE <<"">>
BytesOf(t, v) == Len(v) \div 2 + (IF t = "STRING" THEN 1 ELSE 0)      \* v in hex, strings without their NUL
RECURSIVE FmlUsed(_)
FmlUsed(d) == IF d = <<>> THEN 40 ELSE 8 + ((BytesOf("STRING", Head(d)) + 7) \div 8) * 8 + FmlUsed(Tail(d))
DataLen(t, d) == IF t = "FML32" THEN FmlUsed(d) ELSE BytesOf(t, d[1])

Alloc(s, t, sub, want, r, e, size) ==
  /\ slot[s] = Nil
  /\ IF t \notin Known \/ sub \notin {"", "*"}
     THEN r = -1 /\ e = (IF t = "NULL" THEN TPEINVAL ELSE TPENOENT) /\ UNCHANGED vars
     ELSE /\ r = 0 /\ size >= Max(want, MinSize(t))
          /\ slot' = [slot EXCEPT ![s] = [type |-> t, sub |-> sub, size |-> size, data |-> Empty(t)]]
          /\ UNCHANGED reg
Free(s) == slot' = [slot EXCEPT ![s] = Nil] /\ UNCHANGED reg
(* contents fit the new size (for byte buffers what does not fit is cut) *)
Cut(t, d, size) == IF t \in {"CARRAY", "TPINIT"} /\ BytesOf(t, d[1]) > size THEN <<SubSeq(d[1], 1, 2 * size)>> ELSE d
Realloc(s, want, r, e, size) ==
  IF slot[s] = Nil THEN r = -1 /\ e = TPEINVAL /\ UNCHANGED vars
  ELSE LET b == slot[s]
       IN  /\ r = 0 /\ size >= Max(want, MinSize(b.type))
           /\ slot' = [slot EXCEPT ![s] = [b EXCEPT !.size = size, !.data = Cut(b.type, b.data, want)]]
           /\ UNCHANGED reg
Types(s, r, e, type, sub) ==
  /\ IF slot[s] = Nil THEN r = -1 /\ e = TPEINVAL
     ELSE r = slot[s].size /\ type = slot[s].type /\ sub = slot[s].sub
  /\ UNCHANGED vars
Write(s, v, r) ==
  /\ slot[s] # Nil
  /\ LET b == slot[s]
         d == IF b.type = "FML32" THEN Append(b.data, v) ELSE <<v>>
     IN  IF DataLen(b.type, d) <= b.size THEN r = 0 /\ slot' = [slot EXCEPT ![s].data = d] /\ UNCHANGED reg
         ELSE b.type = "FML32" /\ r = -1 /\ UNCHANGED vars

(* exporting: header of 24 bytes with the type, then the data *)
HEAD == 24
Needed(b, text) == LET n == HEAD + DataLen(b.type, b.data) IN IF text THEN B64Len(n) + 1 ELSE n
Export(s, text, room, r, e, len) ==
  /\ slot[s] # Nil
  /\ len = Needed(slot[s], text)
  /\ IF room < Needed(slot[s], text) THEN r = -1 /\ e = TPELIMIT /\ UNCHANGED vars
     ELSE r = 0 /\ reg' = [type |-> slot[s].type, sub |-> slot[s].sub, data |-> slot[s].data] /\ UNCHANGED slot
(* bad: what was exported was damaged (cut off, or of an unknown type) before it is imported *)
Import(s, bad, r, e, len, size) ==
  /\ slot[s] # Nil /\ reg # NoReg
  /\ IF bad # "" THEN r = -1 /\ UNCHANGED vars
     ELSE /\ r = 0 /\ len = DataLen(reg.type, reg.data) /\ size >= DataLen(reg.type, reg.data)
          /\ slot' = [slot EXCEPT ![s] = [type |-> reg.type, sub |-> reg.sub, size |-> size, data |-> reg.data]]
          /\ UNCHANGED reg
(* everything visible of a buffer; room: what a fielded buffer thinks its size is *)
Dump(s, type, sub, size, data, room) ==
  /\ slot[s] # Nil /\ type = slot[s].type /\ sub = slot[s].sub /\ size = slot[s].size /\ data = slot[s].data
  /\ type = "FML32" => room = size
  /\ UNCHANGED vars

Fits == \A s \in Slots : slot[s] # Nil => DataLen(slot[s].type, slot[s].data) <= Max(slot[s].size, MinSize(slot[s].type))
====
