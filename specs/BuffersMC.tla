---- MODULE BuffersMC ----
EXTENDS Buffers, Json
CONSTANTS Types_, Wants, Lens
VARIABLE last
MCInit == slot = [s \in Slots |-> Nil] /\ reg = NoReg /\ last = <<>>
L(x) == last' = x
RECURSIVE Hex(_)
Hex(n) == IF n = 0 THEN "" ELSE LET h == Hex(n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o "61"
HexOf == [n \in Lens |-> Hex(n)]
(* value codes of the model: a string of n bytes; long ones are written as length only *)
MCNext ==
  \E s \in Slots :
   \/ \E t \in Types_, w \in Wants : Alloc(s, t, "", w, IF t \in Known THEN 0 ELSE -1, TPENOENT, Max(w, MinSize(t))) /\ L(<<"alloc", s, t, "-", w>>)
   \/ slot[s] # Nil /\ Free(s) /\ L(<<"free", s>>)
   \/ \E w \in Wants : slot[s] # Nil /\ (slot[s].type = "CARRAY" \/ w >= DataLen(slot[s].type, slot[s].data)) /\ Realloc(s, w, 0, 0, Max(w, MinSize(slot[s].type))) /\ L(<<"realloc", s, w>>)
   \/ UNCHANGED vars /\ slot[s] = Nil /\ \E q \in {<<"realloc", s, 100>>, <<"types", s>>} : L(q)
   \/ UNCHANGED vars /\ slot[s] # Nil /\ \E q \in {<<"types", s>>, <<"export", s, 0, "short">>, <<"export", s, 1, "short">>} : L(q)
   \/ \E n \in Lens, r \in {0, -1} : (slot[s] # Nil => slot[s].type # "FML32" \/ Len(slot[s].data) < 1) /\ Write(s, HexOf[n], r) /\ L(<<"write", s, ToString(n)>>)
   \/ slot[s] # Nil /\ \E text \in {0, 1} : Export(s, text = 1, 99999, 0, 0, Needed(slot[s], text = 1)) /\ L(<<"export", s, text, "full">>)
   \/ reg # NoReg /\ slot[s] # Nil /\ \E bad \in {"", "cut", "type"} : Import(s, bad, IF bad = "" THEN 0 ELSE -1, 0, DataLen(reg.type, reg.data), Max(slot[s].size, DataLen(reg.type, reg.data))) /\ L(<<"import", s, IF bad = "" THEN "-" ELSE bad>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == vars
A(b) == IF b = Nil THEN <<>> ELSE <<b.type, IF "size" \in DOMAIN b THEN b.size ELSE 0, [i \in 1..Len(b.data) |-> Len(b.data[i])]>>
Abs(sl, rg) == <<[s \in Slots |-> A(sl[s])], A(rg)>>
PrintEdge == PrintT("EDGE " \o ToJson([f |-> Abs(slot, reg), e |-> last', t |-> Abs(slot', reg')]))
====
