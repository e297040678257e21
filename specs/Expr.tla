---- MODULE Expr ----
(* Boolean expressions over a fielded buffer: grammar, evaluation and printed form.
   Tokens: [k |-> "l", n] integer, [k |-> "d", n, d] the number n/d, [k |-> "s", v] string, [k |-> "f", f, oc] field with
   occurrence (-1: '?'), [k |-> "o", v] operator or parenthesis.
   A buffer is a function from field names to [t |-> "l" | "d" | "s", v |-> sequence of values]; an absent field has no values.
   Values: [k |-> "l", n], [k |-> "d", n, d], [k |-> "s", v, c], [k |-> "e"] error, [k |-> "x"] not determined here
   (beyond the range of this specification). *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

FBADNAME == 8  FSYNTAX == 10  FEBADOP == 20

Prec == [o \in {"*", "/", "%", "+", "-", "<", ">", "<=", ">=", "==", "!=", "%%", "!%", "^", "&&", "||"} |->
          CASE o \in {"*", "/", "%"} -> 7 [] o \in {"+", "-"} -> 6 [] o \in {"<", ">", "<=", ">=", "==", "!="} -> 5
            [] o \in {"%%", "!%"} -> 4 [] o = "^" -> 3 [] o = "&&" -> 2 [] OTHER -> 1]
BinOps == DOMAIN Prec
Unary == {"+", "-", "!", "~"}

(* trees: leaf tokens, [k |-> "u", o, a], [k |-> "b", o, a, c] *)
Bad == [ok |-> FALSE, i |-> 0, t |-> 0]
Good(t, i) == [ok |-> TRUE, i |-> i, t |-> t]
IsO(toks, i, v) == i <= Len(toks) /\ toks[i].k = "o" /\ toks[i].v = v

RECURSIVE Primary(_, _), BinRest(_, _, _, _)
Primary(toks, i) ==
  IF i > Len(toks) THEN Bad
  ELSE LET t == toks[i] IN
    IF t.k # "o" THEN Good(t, i + 1)
    ELSE IF t.v \in Unary
         THEN LET p == Primary(toks, i + 1)
              IN  IF ~p.ok THEN Bad ELSE IF t.v = "+" THEN p ELSE Good([k |-> "u", o |-> t.v, a |-> p.t], p.i)
    ELSE IF t.v = "("
         THEN LET p == Primary(toks, i + 1)
                  e == IF p.ok THEN BinRest(toks, p.i, p.t, 0) ELSE Bad
              IN  IF e.ok /\ IsO(toks, e.i, ")") THEN Good(e.t, e.i + 1) ELSE Bad
    ELSE Bad
(* left associative; operators of at least precedence m *)
BinRest(toks, i, lhs, m) ==
  IF i > Len(toks) \/ toks[i].k # "o" \/ toks[i].v \notin BinOps \/ Prec[toks[i].v] < m THEN Good(lhs, i)
  ELSE LET o == toks[i].v
           p == Primary(toks, i + 1)
           r == IF p.ok THEN BinRest(toks, p.i, p.t, Prec[o] + 1) ELSE Bad
       IN  IF ~r.ok THEN Bad
           ELSE IF o \in {"%%", "!%"} /\ (lhs.k \notin {"s", "f"} \/ r.t.k # "s") THEN Bad
           ELSE BinRest(toks, r.i, [k |-> "b", o |-> o, a |-> lhs, c |-> r.t], m)
Parse(toks) ==
  LET p == Primary(toks, 1)
      e == IF p.ok THEN BinRest(toks, p.i, p.t, 0) ELSE Bad
  IN  IF e.ok /\ e.i = Len(toks) + 1 THEN e ELSE Bad

RECURSIVE Printed_(_)
O(v) == <<[k |-> "o", v |-> v]>>
Printed_(t) == CASE t.k = "u" -> O("(") \o O(t.o) \o Printed_(t.a) \o O(")")
              [] t.k = "b" -> O("(") \o Printed_(t.a) \o O(t.o) \o Printed_(t.c) \o O(")")
              [] OTHER -> O("(") \o <<t>> \o O(")")

----
(* numbers *)
Abs(n) == IF n < 0 THEN -n ELSE n
X == [k |-> "x"]
E == [k |-> "e"]
Lng(n) == IF Abs(n) > 100000000 THEN X ELSE [k |-> "l", n |-> n]
RECURSIVE Dbl(_, _)
Dbl(n, d) == IF d > 1 /\ n % 2 = 0 THEN Dbl(n \div 2, d \div 2)
             ELSE IF Abs(n) > 200000 \/ d > 4096 THEN X ELSE [k |-> "d", n |-> n, d |-> d]
MulOk(a, b) == a = 0 \/ Abs(b) <= 1000000000 \div Abs(a)
Trunc(n, d) == IF n < 0 THEN -((-n) \div d) ELSE n \div d
Rem(a, b) == LET r == Abs(a) % Abs(b) IN IF a < 0 THEN -r ELSE r
IsPow2(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
RECURSIVE Xor(_, _)
Xor(a, b) == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE IF a = -1 THEN -b - 1 ELSE IF b = -1 THEN -a - 1
             ELSE (2 * Xor(a \div 2, b \div 2)) + (((a % 2) + (b % 2)) % 2)

(* strings *)
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiOf == [c \in {SubSeq(Ascii, i, i) : i \in 1..Len(Ascii)} |-> CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = c]
At(s, i) == SubSeq(s, i, i)
RECURSIVE StrCmp(_, _, _)
StrCmp(a, b, i) == IF i > Len(a) /\ i > Len(b) THEN 0 ELSE IF i > Len(a) THEN -1 ELSE IF i > Len(b) THEN 1
                   ELSE IF At(a, i) = At(b, i) THEN StrCmp(a, b, i + 1)
                   ELSE IF AsciiOf[At(a, i)] < AsciiOf[At(b, i)] THEN -1 ELSE 1
DigitsS == "0123456789"
DigitVal == [c \in {At(DigitsS, i) : i \in 1..10} |-> CHOOSE i \in 0..9 : At(DigitsS, i + 1) = c]
IsDigit(s, i) == i <= Len(s) /\ At(s, i) \in DOMAIN DigitVal
RECURSIVE Run(_, _), Num(_, _, _)
Run(s, i) == IF IsDigit(s, i) THEN Run(s, i + 1) ELSE i          \* first position behind the digits at i
Num(s, i, j) == IF j <= i THEN 0 ELSE 10 * Num(s, i, j - 1) + DigitVal[At(s, j - 1)]
RECURSIVE Blank(_, _)
Blank(s, i) == IF i <= Len(s) /\ At(s, i) = " " THEN Blank(s, i + 1) ELSE i
(* the number a string starts with: as an integer, or as a number with a fraction of quarters *)
StrNum(s, real) ==
  LET b == Blank(s, 1)
      neg == b <= Len(s) /\ At(s, b) = "-"
      i == IF b <= Len(s) /\ At(s, b) \in {"+", "-"} THEN b + 1 ELSE b
      j == Run(s, i)
      n == Num(s, i, j)
      fr == j <= Len(s) /\ At(s, j) = "."
      k == IF fr THEN Run(s, j + 1) ELSE j
      q == IF ~fr \/ k = j + 1 THEN 0
           ELSE CASE SubSeq(s, j + 1, k - 1) \in {"0", "00", "000"} -> 0 [] SubSeq(s, j + 1, k - 1) = "25" -> 1
                  [] SubSeq(s, j + 1, k - 1) \in {"5", "50"} -> 2 [] SubSeq(s, j + 1, k - 1) = "75" -> 3 [] OTHER -> -1
      sg(x) == IF neg THEN -x ELSE x
  IN  IF j - i > 6 THEN X
      ELSE IF ~real THEN Lng(sg(n))
      ELSE IF q = -1 \/ (k <= Len(s) /\ At(s, k) \in {"e", "E", "x", "X"}) \/ (j = i /\ i <= Len(s) /\ At(s, i) \in {".", "i", "I", "n", "N"}) THEN X
      ELSE Dbl(sg(4 * n + q), 4)
Pad6(n) == SubSeq("000000", 1, 6 - Len(ToString(n))) \o ToString(n)
StrOf(v) == CASE v.k = "s" -> v.v
              [] v.k = "l" -> ToString(v.n)
              [] v.k = "d" -> (IF v.n < 0 THEN "-" ELSE "") \o ToString(Abs(v.n) \div v.d) \o "." \o Pad6(((Abs(v.n) % v.d) * 1000000) \div v.d)
ToL(v) == CASE v.k = "l" -> v [] v.k = "d" -> Lng(Trunc(v.n, v.d)) [] v.k = "s" -> StrNum(v.v, FALSE)
ToD(v) == CASE v.k = "l" -> Dbl(v.n, 1) [] v.k = "d" -> v [] v.k = "s" -> StrNum(v.v, TRUE)
True(v) == CASE v.k = "d" -> v.n # 0 [] v.k = "l" -> v.n # 0
Bool(b) == Lng(IF b THEN 1 ELSE 0)

(* regular expressions: letters, '.', classes, '*', '^' first and '$' last; a match is one of a beginning of the string *)
RECURSIVE Close(_, _), InClass(_, _, _, _)
Close(p, i) == IF i > Len(p) THEN 0 ELSE IF At(p, i) = "]" THEN i ELSE Close(p, i + 1)
InClass(p, i, e, c) == IF i >= e THEN FALSE
                       ELSE IF i + 2 < e /\ At(p, i + 1) = "-"
                            THEN (AsciiOf[At(p, i)] <= AsciiOf[c] /\ AsciiOf[c] <= AsciiOf[At(p, i + 2)]) \/ InClass(p, i + 3, e, c)
                            ELSE At(p, i) = c \/ InClass(p, i + 1, e, c)
RECURSIVE ReOk(_, _)
ReOk(p, i) == IF i > Len(p) THEN TRUE ELSE IF At(p, i) = "[" THEN Close(p, i + 2) > 0 /\ ReOk(p, Close(p, i + 2) + 1) ELSE ReOk(p, i + 1)
AtomEnd(p, i) == IF At(p, i) = "[" THEN Close(p, i + 2) ELSE i
AtomHas(p, i, c) == CASE At(p, i) = "." -> TRUE [] At(p, i) = "[" -> InClass(p, i + 1, Close(p, i + 2), c) [] OTHER -> At(p, i) = c
RECURSIVE Re(_, _, _, _)
Re(p, i, s, j) ==
  IF i > Len(p) THEN TRUE
  ELSE IF i = 1 /\ At(p, 1) = "^" THEN Re(p, 2, s, j)
  ELSE IF i = Len(p) /\ At(p, i) = "$" THEN j > Len(s)
  ELSE LET e == AtomEnd(p, i)
           star == e < Len(p) /\ At(p, e + 1) = "*"
           hit == j <= Len(s) /\ AtomHas(p, i, At(s, j))
       IN  IF star THEN Re(p, e + 2, s, j) \/ (hit /\ Re(p, i, s, j + 1)) ELSE hit /\ Re(p, e + 1, s, j + 1)

----
(* evaluation *)
Fields(buf, f) == IF f \in DOMAIN buf THEN buf[f].v ELSE <<>>
Val(buf, f, oc) ==
  LET t == buf[f].t IN
  IF oc + 1 <= Len(buf[f].v)
  THEN LET v == buf[f].v[oc + 1] IN CASE t = "l" -> Lng(v) [] t = "d" -> Dbl(v[1], v[2]) [] OTHER -> [k |-> "s", v |-> v, c |-> FALSE]
  ELSE CASE t = "l" -> Lng(0) [] t = "d" -> Dbl(0, 1) [] OTHER -> [k |-> "s", v |-> "", c |-> FALSE]

CmpNum(o, n) == CASE o = "<" -> n < 0 [] o = ">" -> n > 0 [] o = "<=" -> n <= 0 [] o = ">=" -> n >= 0 [] o = "==" -> n = 0 [] o = "!=" -> n # 0
CanStr(v) == v.k # "d" \/ v.d <= 64
Compare(o, a, b) ==
  IF a.k \in {"e", "x"} \/ b.k \in {"e", "x"} THEN (IF a.k = "e" \/ b.k = "e" THEN E ELSE X)
  ELSE IF o \in {"%%", "!%"}
       THEN IF ~ReOk(b.v, 1) THEN E ELSE IF ~CanStr(a) THEN X ELSE Bool(Re(b.v, 1, StrOf(a), 1) <=> o = "%%")
  ELSE IF (a.k = "s" /\ (a.c \/ b.k = "s")) \/ (b.k = "s" /\ b.c)
       THEN IF ~CanStr(a) \/ ~CanStr(b) THEN X ELSE Bool(CmpNum(o, StrCmp(StrOf(a), StrOf(b), 1)))
  ELSE IF a.k = "d" \/ b.k = "d"
       THEN LET x == ToD(a) y == ToD(b) IN IF x.k = "x" \/ y.k = "x" THEN X ELSE Bool(CmpNum(o, x.n * y.d - y.n * x.d))
  ELSE LET x == ToL(a) y == ToL(b) IN IF x.k = "x" \/ y.k = "x" THEN X ELSE Bool(CmpNum(o, x.n - y.n))

ArithL(o, a, b) ==
  CASE o = "*" -> IF MulOk(a, b) THEN Lng(a * b) ELSE X
    [] o = "/" -> IF b = 0 THEN E ELSE Lng(IF (a < 0) = (b < 0) THEN Abs(a) \div Abs(b) ELSE -(Abs(a) \div Abs(b)))
    [] o = "%" -> IF b = 0 THEN E ELSE Lng(Rem(a, b))
    [] o = "+" -> Lng(a + b) [] o = "-" -> Lng(a - b)
    [] o = "^" -> Lng(Xor(a, b))
ArithD(o, a, b) ==
  CASE o = "*" -> IF MulOk(a.n, b.n) /\ MulOk(a.d, b.d) THEN Dbl(a.n * b.n, a.d * b.d) ELSE X
    [] o = "/" -> IF b.n = 0 \/ ~IsPow2(Abs(b.n)) \/ ~MulOk(a.n, b.d) \/ ~MulOk(a.d, b.n) THEN X
                  ELSE Dbl(IF b.n < 0 THEN -(a.n * b.d) ELSE a.n * b.d, a.d * Abs(b.n))
    [] o = "+" -> Dbl(a.n * b.d + b.n * a.d, a.d * b.d) [] o = "-" -> Dbl(a.n * b.d - b.n * a.d, a.d * b.d)

RECURSIVE Eval(_, _)
Eval(t, buf) ==
  CASE t.k = "l" -> Lng(t.n)
    [] t.k = "d" -> Dbl(t.n, t.d)
    [] t.k = "s" -> [k |-> "s", v |-> t.v, c |-> TRUE]
    [] t.k = "f" -> IF t.oc = -1 THEN E ELSE Val(buf, t.f, t.oc)
    [] t.k = "u" ->
       LET a == Eval(t.a, buf) IN
       IF a.k \in {"e", "x"} THEN a
       ELSE IF t.o = "-" /\ a.k = "d" THEN Dbl(-a.n, a.d)
       ELSE IF t.o = "!" /\ a.k = "d" THEN Bool(a.n = 0)
       ELSE LET n == ToL(a) IN
            IF n.k = "x" THEN X ELSE (CASE t.o = "-" -> Lng(-n.n) [] t.o = "!" -> Bool(n.n = 0) [] t.o = "~" -> Lng(-n.n - 1))
    [] t.k = "b" /\ Prec[t.o] \in {4, 5} /\ t.a.k = "f" /\ t.a.oc = -1 ->      \* some occurrence compares true
       LET rhs == Eval(t.c, buf)
           rs == {Compare(t.o, Val(buf, t.a.f, i - 1), rhs) : i \in 1..Len(buf[t.a.f].v)}
       IN  IF rhs.k \in {"e", "x"} THEN rhs
           ELSE IF \E r \in rs : r.k \in {"e", "x"} THEN (IF \A r \in rs : r.k = "e" THEN E ELSE X)
           ELSE Bool(\E r \in rs : r.n = 1)
    [] t.k = "b" ->
       LET a == Eval(t.a, buf)
           b == Eval(t.c, buf)
       IN  IF Prec[t.o] \in {4, 5} THEN Compare(t.o, a, b)
           ELSE IF t.o \in {"&&", "||"} /\ (a.k = "e" \/ b.k = "e") THEN (IF a.k = "e" THEN E ELSE X)
           ELSE IF a.k = "e" \/ b.k = "e" THEN E
           ELSE IF a.k = "x" \/ b.k = "x" THEN X
           ELSE IF t.o \in {"%", "^"} \/ (a.k # "d" /\ b.k # "d")
                THEN LET x == ToL(a) y == ToL(b)
                     IN  IF x.k = "x" \/ y.k = "x" THEN X
                         ELSE CASE t.o = "&&" -> Bool(x.n # 0 /\ y.n # 0) [] t.o = "||" -> Bool(x.n # 0 \/ y.n # 0) [] OTHER -> ArithL(t.o, x.n, y.n)
           ELSE LET x == ToD(a) y == ToD(b)
                IN  IF x.k = "x" \/ y.k = "x" THEN X
                    ELSE CASE t.o = "&&" -> Bool(x.n # 0 /\ y.n # 0) [] t.o = "||" -> Bool(x.n # 0 \/ y.n # 0) [] OTHER -> ArithD(t.o, x, y)
(* the truth of an expression and its number, 4096-fold *)
Truth(v) == CASE v.k = "s" -> (LET n == ToL(v) IN IF n.k = "x" THEN X ELSE Bool(n.n # 0)) [] v.k \in {"e", "x"} -> v [] OTHER -> Bool(True(v))
Number(v) == CASE v.k \in {"e", "x"} -> v [] OTHER -> ToD(v)
====
