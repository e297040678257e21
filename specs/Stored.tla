---- MODULE Stored ----
(* Stored forms of fielded buffers: binary file, printed file and exported text.
   Contents are opaque here; Used(x) is the number of bytes contents x take. *)
EXTENDS Naturals, Integers, Sequences, TLC
CONSTANTS Used(_), Bufs
VARIABLES buf,   \* [Bufs -> contents]
          size,  \* [Bufs -> bytes]
          file,  \* [0..1 -> sequence of contents stored]: 0 written, 1 printed
          pos,   \* [0..1 -> number of contents already read, or -1: unknown, after a failed read]
          reg    \* <<>> or <<contents exported last>>
vars == <<buf, size, file, pos, reg>>
NOSPACE == 3

New(b, sz, empty) == buf' = [buf EXCEPT ![b] = empty] /\ size' = [size EXCEPT ![b] = sz] /\ UNCHANGED <<file, pos, reg>>
Fill(b, x) == Used(x) <= size[b] /\ buf' = [buf EXCEPT ![b] = x] /\ UNCHANGED <<size, file, pos, reg>>
(* storing changes the file only *)
Store(k, b, r) == r = 0 /\ file' = [file EXCEPT ![k] = Append(@, buf[b])] /\ UNCHANGED <<buf, size, pos, reg>>
(* the file is cut so that n stored contents remain whole *)
Cut(k, n) == n <= Len(file[k]) /\ file' = [file EXCEPT ![k] = SubSeq(@, 1, n)] /\ pos' = [pos EXCEPT ![k] = 0] /\ UNCHANGED <<buf, size, reg>>
Rewind(k) == pos' = [pos EXCEPT ![k] = 0] /\ UNCHANGED <<buf, size, file, reg>>
Clear(k) == pos' = [pos EXCEPT ![k] = 0] /\ file' = [file EXCEPT ![k] = <<>>] /\ UNCHANGED <<buf, size, reg>>
(* x: contents of the buffer afterwards *)
Restore(k, b, r, e, x, empty) ==
  /\ pos[k] >= 0
  /\ IF pos[k] < Len(file[k])
     THEN LET y == file[k][pos[k] + 1] IN
          IF Used(y) <= size[b]
          THEN r = 0 /\ x = y /\ pos' = [pos EXCEPT ![k] = @ + 1]
          ELSE r = -1 /\ e = NOSPACE /\ x = buf[b] /\ pos' = [pos EXCEPT ![k] = -1]
     ELSE r = -1 /\ x \in {buf[b], empty} /\ pos' = [pos EXCEPT ![k] = -1]
  /\ buf' = [buf EXCEPT ![b] = x] /\ UNCHANGED <<size, file, reg>>
Export(b, r) == r = 0 /\ reg' = <<buf[b]>> /\ UNCHANGED <<buf, size, file, pos>>
(* importing gives the buffer the room it needs *)
Import(b, r, x, sz) == reg # <<>> /\ r = 0 /\ x = reg[1] /\ sz >= Used(reg[1]) /\ buf' = [buf EXCEPT ![b] = reg[1]] /\ size' = [size EXCEPT ![b] = sz] /\ UNCHANGED <<file, pos, reg>>
Dump(b, x, used, sz) == x = buf[b] /\ used = Used(x) /\ sz = size[b] /\ UNCHANGED vars
Fits == \A b \in Bufs : Used(buf[b]) <= size[b]
====
