---- MODULE ExprTrace ----
EXTENDS TraceBase, Expr
VARIABLE buf
TraceInit == l = 1 /\ buf = [f \in {} |-> 0]
Known(toks) == \A i \in 1..Len(toks) : toks[i].k = "f" => toks[i].f \in DOMAIN buf
Nested(toks) == \E i \in 1..Len(toks) : toks[i].k = "f" /\ toks[i].f = "NESTED"
(* compiling *)
Compiled(ok, e, toks) ==
  LET p == Parse(toks) IN
  IF p.ok /\ Known(toks) THEN ok = 1
  ELSE ok = 0 /\ CASE Known(toks) -> e = FSYNTAX
                   [] p.ok -> e \in {FBADNAME, FEBADOP} /\ (~Nested(toks) => e = FBADNAME)
                   [] OTHER -> e \in {FSYNTAX, FBADNAME, FEBADOP}
(* b: truth, num: number 4096-fold (exact = 1), or error *)
Evaluated(b, num, exact, toks) ==
  LET v == Eval(Parse(toks).t, buf)
      t == Truth(v)
      n == Number(v)
  IN  /\ t.k = "e" => b = -1
      /\ t.k = "l" => b = t.n
      /\ n.k = "d" => exact = 1 /\ num = n.n * (4096 \div n.d)
(* what is printed compiles again and evaluates to the same *)
Printed(rok, rb, rsame, b) == rok = 1 /\ rb = b /\ rsame = 1
TraceNext ==
  \/ IsOp("buf") /\ Ev.ok = 1 /\ buf' = Ev.fields
  \/ /\ IsOp("expr") /\ UNCHANGED buf /\ Ev.same = 1
     /\ Compiled(Ev.ok, Ev.e, Ev.toks)
     /\ Ev.ok = 1 => Evaluated(Ev.b, Ev.num, Ev.exact, Ev.toks) /\ Printed(Ev.rok, Ev.rb, Ev.rsame, Ev.b)
TraceSpec == TraceInit /\ [][TraceNext]_<<buf, l>>
====
