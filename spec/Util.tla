-------------------------------- MODULE Util --------------------------------
(* Helpers shared by every module: rationals, sequences, total accessors.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

RECURSIVE GcdR(_, _)
GcdR(a, b) == IF b = 0 THEN a ELSE GcdR(b, a % b)
Gcd(a, b) == GcdR(Abs(a), Abs(b))

(* Rationals are <<num, den>>, den > 0, reduced.  <<0,0>> is NaN, <<1,0>> and   *)
(* <<-1,0>> are infinities (never operands of the arithmetic below).           *)
RatN(n, d) == IF d = 0 THEN <<n, 0>>
              ELSE LET g == Gcd(n, d) s == IF d < 0 THEN -1 ELSE 1
                   IN IF n = 0 THEN <<0, 1>> ELSE <<s * (n \div g), s * (d \div g)>>
RatI(n) == <<n, 1>>
RNaN == <<0, 0>>
RInf == <<1, 0>>
IsFin(a) == a[2] # 0
\* addition over the lcm of the denominators, to stay inside 32 bits
RAdd(a, b) == IF ~IsFin(a) \/ ~IsFin(b) THEN RNaN
              ELSE LET g == Gcd(a[2], b[2])
                   IN RatN(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2])
RNeg(a) == <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF ~IsFin(a) \/ ~IsFin(b) THEN RNaN
              ELSE LET g1 == Gcd(a[1], b[2]) g2 == Gcd(b[1], a[2])
                       p == IF g1 = 0 THEN 1 ELSE g1
                       q == IF g2 = 0 THEN 1 ELSE g2
                   IN RatN((a[1] \div p) * (b[1] \div q), (a[2] \div q) * (b[2] \div p))
RInv(a) == RatN(a[2], a[1])
RDiv(a, b) == IF b[1] = 0 THEN RNaN ELSE RMul(a, RInv(b))
RLt(a, b) == RSub(a, b)[1] < 0
RLe(a, b) == RSub(a, b)[1] <= 0
REq(a, b) == a = b

RECURSIVE SumSeqR(_)
SumSeqR(s) == IF s = <<>> THEN RatI(0) ELSE RAdd(s[1], SumSeqR(Tail(s)))

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE s[1] + SumSeq(Tail(s))

Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == \A i, j \in DOMAIN s : s[i] = s[j] => i = j
Map(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Filter(s, P(_)) == SelectSeq(s, P)
IsPre(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE SetToSeqU(_)
SetToSeqU(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeqU(S \ {x})
RECURSIVE ProdSeq(_)
ProdSeq(s) == IF s = <<>> THEN 1 ELSE s[1] * ProdSeq(Tail(s))

\* IF c holds the clause named n fails
Cl(n, ok) == IF ok THEN {} ELSE {n}
=============================================================================
