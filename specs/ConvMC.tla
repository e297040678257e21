---- MODULE ConvMC ----
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Cap, Many
VARIABLES cap, buf, last
INSTANCE Conv
Fs == IF Many THEN {<<0, 1>>, <<5, 1>>, <<6, 1>>, <<4, 1>>} ELSE {<<0, 1>>, <<5, 1>>}
(* values: an index, type and value *)
Values == <<<<1, <<0, 0, 7, 0>>>>, <<4, <<1, 0, 70007, 500000>>>>, <<5, <<55>>>>, <<5, <<32, 45, 49, 46, 53, 120, 49, 50, 51>>>>, <<6, <<55, 56>>>>>>
MCInit == cap = Cap /\ buf = [f \in {} |-> <<>>] /\ last = <<>>
L(x) == last' = x
Add(f, oc, i) == LET x == Values[i][2] ty == Values[i][1] c == Cvt(ty, f[1], x) IN
  \E r \in {0, -1} : oc <= Occ(f) + 1 /\ Judged(ty, f[1], x) /\ (r = 0 <=> Size(Changed(f, IF oc = -1 THEN Occ(f) ELSE oc, c)) <= cap)
                     /\ Change(f, oc, ty, x, r, IF r = 0 THEN 0 ELSE FNOSPACE, c)
MCNext ==
  \/ \E f \in Fs, oc \in -1..1, i \in 1..Len(Values) : (~Many => i <= 4) /\ Add(f, oc, i) /\ L(<<"chg", f, oc, i>>)
  \/ \E f \in Fs, oc \in 0..1, ty \in IF Many THEN All ELSE {0, 5} : UNCHANGED <<cap, buf>> /\ L(<<"read", f, oc, ty>>)
  \/ \E f \in Fs, i \in 1..Len(Values) : (~Many => i <= 4) /\ UNCHANGED <<cap, buf>> /\ L(<<"occ", f, i>>)
MCSpec == MCInit /\ [][MCNext]_<<vars, last>>
View == vars
Small == \A f \in DOMAIN buf : Len(buf[f]) <= 2

(* numbers written as texts are read back as they were; converting twice is converting once; no type changes its own values *)
Num == {Norm(<<n, q, m, u>>) : n \in {0, 1}, q \in {0, 1, 4000}, m \in {0, 9, 127, 32768, 999999}, u \in {0, 15625, 500000, 984375}}
TextBack == \A x \in Num : Parse(Text(T_DOUBLE, x), TRUE) = x /\ Parse(Text(T_LONG, ToInt(x)), FALSE) = ToInt(x)
Stable == \A x \in Num : \A t \in Numeric : \A s \in Numeric :
  (s \in Ints => x[4] = 0) /\ Judged(s, t, x) => Cvt(t, t, Cvt(s, t, x)) = Cvt(s, t, x)
                                             /\ (t \in Ints => Cvt(T_STRING, T_LONG, Cvt(T_LONG, T_STRING, Cvt(s, t, x))) = Cvt(s, t, x))
Ranges == \A x \in Num : InRange(Wrap(ToInt(x), 256), T_CHAR) \/ Wrap(ToInt(x), 256) = <<1, 0, 128, 0>>
ASSUME TextBack /\ Stable /\ Ranges
Fits2 == Fits
PrintEdge == PrintT("EDGE " \o ToJson([f |-> buf, e |-> last', t |-> buf']))
====
