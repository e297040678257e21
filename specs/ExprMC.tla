---- MODULE ExprMC ----
(* All token sequences up to a length over a small alphabet: the printed form of every well-formed one parses to the same tree. *)
EXTENDS Expr, Json
CONSTANTS Alpha, MaxLen
VARIABLE toks
Tok(w) == CASE w = "1" -> [k |-> "l", n |-> 1] [] w = "2" -> [k |-> "l", n |-> 2] [] w = "3" -> [k |-> "l", n |-> 3] [] w = "0.5" -> [k |-> "d", n |-> 1, d |-> 2]
            [] w = "'1'" -> [k |-> "s", v |-> "1"] [] w = "AGE" -> [k |-> "f", f |-> "AGE", oc |-> 0] [] w = "NAME" -> [k |-> "f", f |-> "NAME", oc |-> 0]
            [] w = "NAME[?]" -> [k |-> "f", f |-> "NAME", oc |-> -1] [] OTHER -> [k |-> "o", v |-> w]
MCInit == toks = <<>>
(* nothing can follow that makes a sequence well-formed: it is not extended (but still executed) *)
Dead(s) == LET n == Len(s) IN n >= 2 /\ s[n].k # "o" /\ s[n - 1].k # "o"
Depth(s) == LET p == [i \in 0..Len(s) |-> Cardinality({j \in 1..i : IsO(s, j, "(")}) - Cardinality({j \in 1..i : IsO(s, j, ")")})] IN \E i \in 0..Len(s) : p[i] < 0
MCNext == Len(toks) < MaxLen /\ ~Dead(toks) /\ ~Depth(toks) /\ \E w \in Alpha : toks' = Append(toks, Tok(w))
MCSpec == MCInit /\ [][MCNext]_toks
RoundTrip == LET p == Parse(toks) IN p.ok => Parse(Printed_(p.t)) = Good(p.t, Len(Printed_(p.t)) + 1)
PrintState == toks = <<>> \/ PrintT("EDGE " \o ToJson([t |-> toks]))
====
