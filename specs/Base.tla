---- MODULE Base ----
(* base64 of bytes written in hex *)
EXTENDS Naturals, Sequences
Alphabet == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
HexDigits == "0123456789abcdef"
HexVal == [c \in {SubSeq(HexDigits, i, i) : i \in 1..16} |-> CHOOSE i \in 0..15 : SubSeq(HexDigits, i + 1, i + 1) = c]
Byte(h, k) == 16 * HexVal[SubSeq(h, 2 * k - 1, 2 * k - 1)] + HexVal[SubSeq(h, 2 * k, 2 * k)]      \* k-th byte
Ch(i) == SubSeq(Alphabet, i + 1, i + 1)
B64Len(n) == 4 * ((n + 2) \div 3)
B64Group(h, g) ==      \* g-th group of three bytes
  LET n == Len(h) \div 2
      left == n - 3 * (g - 1)
      a == Byte(h, 3 * g - 2)
      b == IF left >= 2 THEN Byte(h, 3 * g - 1) ELSE 0
      c == IF left >= 3 THEN Byte(h, 3 * g) ELSE 0
      w == 65536 * a + 256 * b + c
  IN  Ch(w \div 262144) \o Ch((w \div 4096) % 64) \o (IF left >= 2 THEN Ch((w \div 64) % 64) ELSE "=") \o (IF left >= 3 THEN Ch(w % 64) ELSE "=")
IsB64(s, h) ==
  /\ Len(s) = B64Len(Len(h) \div 2)
  /\ \A g \in 1..(Len(s) \div 4) : SubSeq(s, 4 * g - 3, 4 * g) = B64Group(h, g)
====
