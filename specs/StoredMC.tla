---- MODULE StoredMC ----
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxFile, Kinds
VARIABLES buf, size, file, pos, reg, last
Bufs == 0..1
(* contents by name; the driver builds them *)
UsedOf(x) == CASE x = "e" -> 40 [] x = "s" -> 200 [] OTHER -> 900
Sizes == <<512, 2000>>
INSTANCE Stored WITH Used <- UsedOf
MCInit == /\ buf = [b \in Bufs |-> "e"] /\ size = [b \in Bufs |-> Sizes[b + 1]]
          /\ file = [k \in 0..1 |-> <<>>] /\ pos = [k \in 0..1 |-> 0] /\ reg = <<>> /\ last = <<>>
L(x) == last' = x
MCNext ==
  \/ \E b \in Bufs, x \in {"s", "L", "e"} : Fill(b, x) /\ L(<<"fill", b, x>>)
  \/ \E k \in Kinds, b \in Bufs : Len(file[k]) < MaxFile /\ Store(k, b, 0) /\ L(<<"store", k, b>>)
  \/ \E k \in Kinds : pos[k] # 0 /\ Rewind(k) /\ L(<<"rewind", k>>)
  \/ \E k \in Kinds : file[k] # <<>> /\ Clear(k) /\ L(<<"clear", k>>)
  \/ \E k \in Kinds, n \in 0..MaxFile : n < Len(file[k]) /\ Cut(k, n) /\ L(<<"cut", k, n>>)
  \/ \E k \in Kinds, b \in Bufs, r \in {0, -1} : \E x \in {"s", "L", "e"} : Restore(k, b, r, 3, x, "e") /\ (r = -1 => x = buf[b]) /\ L(<<"restore", k, b>>)
  \/ \E b \in Bufs : Export(b, 0) /\ L(<<"export", b>>)
  \/ \E b \in Bufs : reg # <<>> /\ Import(b, 0, reg[1], size[b]) /\ UsedOf(reg[1]) <= size[b] /\ L(<<"import", b>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == vars
A(bu, fi, po, re) == <<bu[0], bu[1], fi[0], fi[1], po[0], po[1], re>>
PrintEdge == PrintT("EDGE " \o ToJson([f |-> A(buf, file, pos, reg), e |-> last', t |-> A(buf', file', pos', reg')]))
====
