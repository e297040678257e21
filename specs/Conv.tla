---- MODULE Conv ----
(* Access to fields with conversion of types: converting a value, adding, changing, reading and searching values given or wanted in another type
   than the field's.
   Numbers are <<neg, q, m, u>> for (-1)^neg * (q * 10^6 + m + u / 10^6), texts are sequences of bytes; a character is the number of its code.
   Fields are <<type, number>>; buf maps fields to nonempty sequences of values, cap is the room of the buffer in bytes. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FmlTypes
FEINVAL == 13  FEBADOP == 20

M6 == 1000000
Numeric == {T_SHORT, T_LONG, T_CHAR, T_FLOAT, T_DOUBLE}
Ints == {T_SHORT, T_LONG, T_CHAR}
Reals == {T_FLOAT, T_DOUBLE}
Texts == {T_STRING, T_CARRAY}
All == Numeric \cup Texts
SizeOf(t) == CASE t = T_SHORT -> 2 [] t = T_CHAR -> 1 [] t = T_FLOAT -> 4 [] OTHER -> 8
Zero == <<0, 0, 0, 0>>
Norm(x) == IF x[2] = 0 /\ x[3] = 0 /\ x[4] = 0 THEN Zero ELSE x
ToInt(x) == Norm(<<x[1], x[2], x[3], 0>>)

(* the integer modulo 2^bits, as a signed number *)
Wrap(x, mod) ==
  LET r == (((x[2] % mod) * (M6 % mod)) + x[3]) % mod
      p == IF x[1] = 1 THEN (mod - r) % mod ELSE r
      neg == p >= mod \div 2
      a == IF neg THEN mod - p ELSE p
  IN  <<IF neg THEN 1 ELSE 0, a \div M6, a % M6, 0>>

RECURSIVE Dec(_), Pad(_, _)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Pad(n, k) == IF k = 0 THEN <<>> ELSE Pad(n \div 10, k - 1) \o <<48 + (n % 10)>>
Text(t, x) ==
  (IF x[1] = 1 THEN <<45>> ELSE <<>>) \o (IF x[2] = 0 THEN Dec(x[3]) ELSE Dec(x[2]) \o Pad(x[3], 6))
  \o (IF t \in Reals THEN <<46>> \o Pad(x[4], 6) ELSE <<>>)

(* the number at the beginning of a text *)
Space(c) == c = 32 \/ c \in 9..13
Digit(c) == c \in 48..57
RECURSIVE Skip(_, _), Digits(_, _), Val(_, _, _)
Skip(s, i) == IF i <= Len(s) /\ Space(s[i]) THEN Skip(s, i + 1) ELSE i
Digits(s, i) == IF i <= Len(s) /\ Digit(s[i]) THEN Digits(s, i + 1) ELSE i       \* the first place that is no digit
Val(s, i, j) == IF j <= i THEN 0 ELSE (Val(s, i, j - 1) * 10) + (s[j - 1] - 48)
Parse(s, fraction) ==
  LET a == Skip(s, 1)
      sign == a <= Len(s) /\ s[a] \in {43, 45}
      b == IF sign THEN a + 1 ELSE a
      c == Digits(s, b)
      split == IF c - b > 6 THEN c - 6 ELSE b
      dot == fraction /\ c <= Len(s) /\ s[c] = 46
      d == IF dot THEN Digits(s, c + 1) ELSE c
      e == IF d > c + 7 THEN c + 7 ELSE d
      RECURSIVE up(_, _)
      up(v, k) == IF k = 0 THEN v ELSE up(v * 10, k - 1)
      frac == IF dot /\ d > c + 1 THEN up(Val(s, c + 1, e), 6 - (e - c - 1)) ELSE 0
  IN  Norm(<<IF sign /\ s[a] = 45 THEN 1 ELSE 0, Val(s, b, split), Val(s, split, c), frac>>)

Signed(c) == IF c < 128 THEN <<0, 0, c, 0>> ELSE <<1, 0, 256 - c, 0>>
Byte(x) == IF x[1] = 1 THEN 256 - x[3] ELSE x[3]

(* a real number a float holds exactly *)
Exact(x) == \/ x[4] % 15625 = 0 /\ x[2] = 0 /\ x[3] < 262144
            \/ x[4] = 0 /\ (x[2] < 16 \/ (x[2] = 16 /\ x[3] <= 777216))
InRange(x, t) == CASE t = T_SHORT -> x[2] = 0 /\ x[3] <= 32767 [] t = T_CHAR -> x[2] = 0 /\ x[3] <= 127 [] OTHER -> TRUE

(* the value x of type ft in type tt, and whether that is defined here: not rounding to what a float holds, not numbers outside the range of the
   wanted type, not texts with a zero byte inside *)
ToNumber(x, tt) ==
  CASE tt = T_SHORT -> Wrap(ToInt(x), 65536) [] tt = T_CHAR -> Wrap(ToInt(x), 256) [] tt = T_LONG -> ToInt(x) [] OTHER -> x
Source(ft, tt, x) == IF ft \in Texts THEN Parse(x, tt \in Reals) ELSE x
Cvt(ft, tt, x) ==
  IF ft = tt THEN x
  ELSE IF tt \in Texts THEN IF ft \in Texts THEN x ELSE IF ft = T_CHAR THEN <<Byte(x)>> ELSE Text(ft, x)
  ELSE IF tt = T_CHAR /\ ft \in Texts THEN IF x = <<>> THEN Zero ELSE Signed(x[1])
  ELSE ToNumber(Source(ft, tt, x), tt)
Judged(ft, tt, x) ==
  \/ ft = tt
  \/ tt = T_CARRAY
  \/ tt = T_STRING /\ ~(ft = T_CHAR /\ x = Zero) /\ ~(ft = T_CARRAY /\ \E i \in 1..Len(x) : x[i] = 0)
  \/ tt = T_CHAR /\ ft \in Texts
  \/ tt \in Ints /\ ~(tt = T_CHAR /\ ft \in Texts) /\ (ft \in Reals => InRange(x, tt))
  \/ tt = T_DOUBLE
  \/ tt = T_FLOAT /\ Exact(Source(ft, tt, x))

(* v is what x is converted to; a text made an array of characters may bring its end *)
Is(ft, tt, x, v) ==
  LET c == Cvt(ft, tt, x)
  IN  \/ ~Judged(ft, tt, x)
      \/ v = c
      \/ tt = T_CARRAY /\ ft # T_CARRAY /\ v = c \o <<0>>
LenOf(t, v) == IF t \in Numeric THEN SizeOf(t) ELSE IF t = T_STRING THEN Len(v) + 1 ELSE Len(v)
LenOk(ft, tt, x, n, v) == n = LenOf(tt, v) \/ (tt = T_STRING /\ ~Judged(ft, tt, x))

Convert(ft, tt, x, r, e, n, v) ==
  IF ft \in All /\ tt \in All THEN r = 0 /\ Is(ft, tt, x, v) /\ LenOk(ft, tt, x, n, v) ELSE r = -1 /\ e = FEBADOP

----
VARIABLES cap, buf
vars == <<cap, buf>>
Init == cap = 0 /\ buf = [f \in {} |-> <<>>]
Alloc(c) == cap' = c /\ buf' = [f \in {} |-> <<>>]

Bytes(f, v) == CASE f[1] \in {T_SHORT, T_CHAR, T_FLOAT} -> 8 [] f[1] \in {T_LONG, T_DOUBLE} -> 16 [] OTHER -> 8 + Pad8(LenOf(f[1], v))
RECURSIVE SumSeq(_, _, _), SumMap(_, _)
SumSeq(f, s, i) == IF i > Len(s) THEN 0 ELSE Bytes(f, s[i]) + SumSeq(f, s, i + 1)
SumMap(m, D) == IF D = {} THEN 0 ELSE LET f == CHOOSE x \in D : TRUE IN SumSeq(f, m[f], 1) + SumMap(m, D \ {f})
Size(m) == SumMap(m, DOMAIN m)
Vals(f) == IF f \in DOMAIN buf THEN buf[f] ELSE <<>>
Occ(f) == Len(Vals(f))
Default(f) == IF f[1] \in Numeric THEN Zero ELSE <<>>
Changed(f, oc, v) ==
  LET s == Vals(f)
      t == IF oc < Len(s) THEN [s EXCEPT ![oc + 1] = v] ELSE s \o [i \in 1..(oc - Len(s)) |-> Default(f)] \o <<v>>
  IN  [g \in DOMAIN buf \cup {f} |-> IF g = f THEN t ELSE buf[g]]

(* oc = -1: one more.  now: the value the field has after a successful change *)
Change(f, oc, ty, x, r, e, now) ==
  LET o == IF oc = -1 THEN Occ(f) ELSE oc
      m(v) == Changed(f, o, v)
      c == Cvt(ty, f[1], x)
  IN  \/ ~(f[1] \in All /\ ty \in All) /\ r = -1 /\ e = FEBADOP /\ UNCHANGED vars
      \/ /\ f[1] \in All /\ ty \in All
         /\ \/ r = 0 /\ Is(ty, f[1], x, now) /\ Size(m(now)) <= cap /\ buf' = m(now) /\ UNCHANGED cap
            \/ r = -1 /\ e = FNOSPACE /\ UNCHANGED vars
               /\ \/ Size(m(c)) > cap
                  \/ ~Judged(ty, f[1], x)
                  \/ f[1] = T_CARRAY /\ ty # T_CARRAY /\ Size(m(c \o <<0>>)) > cap
NullValue(r, e) == r = -1 /\ e = FEINVAL /\ UNCHANGED vars

(* room = -1: no limit; over: bytes written behind the room *)
Read(f, oc, ty, room, r, e, n, v, over) ==
  /\ IF oc < 0 \/ oc >= Occ(f) THEN r = -1 /\ e = FNOTPRES
     ELSE IF ~(ty \in All /\ f[1] \in All) THEN r = -1 /\ e = FEBADOP
     ELSE LET x == buf[f][oc + 1]
              c == Cvt(f[1], ty, x)
          IN  \/ r = 0 /\ (room >= 0 => n <= room) /\ Is(f[1], ty, x, v) /\ LenOk(f[1], ty, x, n, v)
              \/ r = -1 /\ e = FNOSPACE /\ room >= 0
                 /\ (LenOf(ty, c) + (IF (ty = T_CARRAY /\ f[1] # T_CARRAY) \/ ~Judged(f[1], ty, x) THEN 1 ELSE 0)) > room
  /\ over = 0
  /\ UNCHANGED vars

First(f, P(_)) == LET hits == {i \in 1..Occ(f) : P(buf[f][i])} IN IF hits = {} THEN -1 ELSE (CHOOSE i \in hits : \A j \in hits : i <= j) - 1
Search(f, ty, x, r, e) ==
  /\ IF ~(ty \in All /\ f[1] \in All) THEN r = -1 /\ e = FEBADOP
     ELSE LET c == Cvt(ty, f[1], x)
              is(v) == v = c
              withEnd(v) == v = c \o <<0>>
              judged == Judged(ty, f[1], x) /\ (f[1] \in Reals => \A y \in {c} \cup {buf[f][i] : i \in 1..Occ(f)} : y[4] % 15625 = 0)
              agree(k) == r = k /\ (k = -1 => e = FNOTPRES)
          IN  ~judged \/ agree(First(f, is)) \/ (f[1] = T_CARRAY /\ ty # T_CARRAY /\ agree(First(f, withEnd)))
  /\ UNCHANGED vars

(* patterns: sequences of <<byte or -1 for any, 0 once, 1 any number of times, 2 at least once, 3 at most once>> *)
RECURSIVE MatchAt(_, _, _, _, _)
MatchAt(p, i, s, j, end) ==
  IF i > Len(p) THEN ~end \/ j > Len(s)
  ELSE LET fits == j <= Len(s) /\ (p[i][1] = -1 \/ p[i][1] = s[j])
       IN  IF p[i][2] \in {1, 3} /\ MatchAt(p, i + 1, s, j, end) THEN TRUE
           ELSE IF p[i][2] = 1 THEN fits /\ MatchAt(p, i, s, j + 1, end)
           ELSE IF p[i][2] = 2 THEN fits /\ (MatchAt(p, i + 1, s, j + 1, end) \/ MatchAt(p, i, s, j + 1, end))
           ELSE fits /\ MatchAt(p, i + 1, s, j + 1, end)
Matches(p, s, begin, end) == \E j \in 1..(IF begin THEN 1 ELSE Len(s) + 1) : MatchAt(p, 1, s, j, end)
Pattern(f, p, begin, end, bad, r, e) ==
  /\ IF bad THEN r = -1 /\ e = FEINVAL
     ELSE LET m(v) == Matches(p, v, begin, end) IN r = First(f, m) /\ (r = -1 => e = FNOTPRES)
  /\ UNCHANGED vars

(* all fields: list of <<type, number, occurrence, value>> in any order *)
Dump(list) ==
  /\ {list[i] : i \in 1..Len(list)} = UNION {{<<f[1], f[2], k - 1, buf[f][k]>> : k \in 1..Len(buf[f])} : f \in DOMAIN buf}
  /\ UNCHANGED vars
Fits == Size(buf) <= cap
====
