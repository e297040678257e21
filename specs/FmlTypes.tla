---- MODULE FmlTypes ----
(* Field types and sizes.  Field numbers carry the type in the upper 8 bits. *)
EXTENDS Naturals, Integers, Sequences
Type(f) == f \div 16777216
T_SHORT == 0  T_LONG == 1  T_CHAR == 2  T_FLOAT == 3  T_DOUBLE == 4  T_STRING == 5  T_CARRAY == 6  T_FML == 10
FEUNIX == 7
FNOSPACE == 3
FNOTPRES == 4
MINSIZE == 40      \* bytes an empty buffer takes
Pad8(n) == ((n + 7) \div 8) * 8
FieldSize(f, n) == CASE Type(f) \in {T_SHORT, T_CHAR, T_FLOAT} -> 8 [] Type(f) \in {T_LONG, T_DOUBLE} -> 16 [] OTHER -> 8 + Pad8(n)
(* bytes taken by contents listed as <<field, occurrence, length, value>> *)
RECURSIVE ListSizeFrom(_, _)
ListSizeFrom(list, i) == IF i > Len(list) THEN MINSIZE ELSE FieldSize(list[i][1], list[i][3]) + ListSizeFrom(list, i + 1)
ListSize(list) == ListSizeFrom(list, 1)
====
