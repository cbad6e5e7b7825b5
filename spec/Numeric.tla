------------------------------ MODULE Numeric -------------------------------
(* Moment functions, allocation of samples to levels, level parameters, domain   *)
(* estimate, variance regression: what each answer has to be, exactly.           *)
EXTENDS Quantity

\* ---- moment functions
RefLo(m) == IF m.ref # <<>> THEN m.ref[1] ELSE IF m.kind = "legendre" THEN RatI(-1) ELSE RatI(0)
RefHi(m) == IF m.ref # <<>> THEN m.ref[2] ELSE RatI(1)
\* position of x in the domain, 0 at its lower and 1 at its upper end. A logarithmic domain and its
\* points are given by their binary exponents. A Fourier position is counted in periods.
Pos01(m, x) == QDiv(QSub(x, m.a), QSub(m.b, m.a))
Out01(m, x) == LET u == Pos01(m, x) IN RLt(u, RatI(0)) \/ RLt(RatI(1), u)
Edge01(m, x) == LET u == Pos01(m, x) IN u = RatI(0) \/ u = RatI(1)
RefPos(m, x) == QAdd(RefLo(m), QMul(Pos01(m, x), QSub(RefHi(m), RefLo(m))))
Cos4(k) == <<RatI(1), RatI(0), RatI(-1), RatI(0)>>[(k % 4) + 1]
Sin4(k) == <<RatI(0), RatI(1), RatI(0), RatI(-1)>>[(k % 4) + 1]
FourierAt(u, i) == IF i = 0 THEN RatI(1)
                   ELSE LET q == QMul(RatI(4), u) IN
                        IF q[2] # 1 THEN RUnk
                        ELSE IF i % 2 = 1 THEN Cos4(q[1] * ((i + 1) \div 2)) ELSE Sin4(q[1] * (i \div 2))
BasisAt(m, x, i) == CASE m.kind = "legendre" -> LegAt(RefPos(m, x), i)
                      [] m.kind = "monomial" -> PowAt(RefPos(m, x), i)
                      [] m.kind = "fourier" -> FourierAt(Pos01(m, x), i)
\* moment i of x
Mo(m, x, i) ==
    IF m.log /\ Edge01(m, x) THEN RUnk          \* the logarithm of the end itself is rounded
    ELSE IF m.safe /\ Out01(m, x) THEN (IF m.kind = "fourier" /\ i = 0 THEN RUnk ELSE RNaN)
    ELSE BasisAt(m, x, i)
\* derivatives of the Legendre polynomials: P'_n = sum of (2k+1) P_k over k = n-1, n-3, ...
RECURSIVE LegDer(_, _, _)
LegDer(x, n, d) == IF d = 0 THEN LegAt(x, n)
                   ELSE QSum([j \in 1..((n + 1) \div 2) |-> LET k == n + 1 - 2 * j IN QMul(RatI(2 * k + 1), LegDer(x, k, d - 1))])
MoDer(m, x, i, d) == IF m.log /\ Edge01(m, x) THEN RUnk
                     ELSE IF m.safe /\ Out01(m, x) THEN (IF i < d THEN RUnk ELSE RNaN)
                     ELSE LegDer(RefPos(m, x), i, d)
\* linear combinations
Combine(mat, row) == [r \in DOMAIN mat |-> LET s == [c \in DOMAIN row |-> IF mat[r][c] = RatI(0) /\ row[c] # RNaN THEN RatI(0) ELSE QMul(mat[r][c], row[c])]
                                           IN IF \E c \in DOMAIN row : row[c] = RUnk THEN RUnk ELSE QSum(s)]

\* ---- optimal numbers of samples (roots of the variances v and the costs c are given)
\* n_l = sqrt(V_l / C_l) * sum_k sqrt(V_k C_k) / target, rounded, at most V_l L / target, at least 2, over all moments
RoundSet(x) == LET f == RFloor(x) r == RSub(x, RatI(f)) IN
               IF r = <<1, 2>> THEN {f, f + 1} ELSE IF RLt(r, <<1, 2>>) THEN {f} ELSE {f + 1}
NOne(sv, sc, tgt, l) ==
    LET L == Len(sv)
        tot == QSum([k \in 1..L |-> QMul(sv[k], sc[k])])
        opt == QDiv(QMul(QDiv(sv[l], sc[l]), tot), tgt)
        cap == QDiv(QMul(RatI(L), QMul(sv[l], sv[l])), tgt)
    IN IF opt = RUnk \/ cap = RUnk THEN {RUnk}
       ELSE {RMax(RatI(2), RMin(RatI(n), cap)) : n \in RoundSet(opt)}
\* svs[m][l]; the possible answers of level l
NSamples(svs, sc, tgt, l) ==
    LET per == [m \in DOMAIN svs |-> NOne(svs[m], sc, tgt, l)]
        RECURSIVE All(_)
        All(k) == IF k = 0 THEN {0} ELSE {Max2(a, RFloor(b)) : a \in All(k - 1), b \in per[k]}
    IN IF \E m \in DOMAIN svs : RUnk \in per[m] THEN {} ELSE All(Len(svs))

\* ---- geometric sequences from exponents: base^(e0), ..., base^(eL)
RECURSIVE PowB1(_, _)
PowB(b, e) == IF Abs(e) > 18 THEN RUnk ELSE PowB1(b, e)
PowB1(b, e) == IF e = 0 THEN RatI(1) ELSE IF e > 0 THEN RMul(RatI(b), PowB1(b, e - 1)) ELSE RDiv(PowB1(b, e + 1), RatI(b))
Geo(b, e0, e1, n, i) == IF n = 1 THEN PowB(b, e1) ELSE PowB(b, e0 + ((e1 - e0) * i) \div (n - 1))

\* ---- quantiles: linear between the order statistics
SortR(s) == SortSeq(s, RLt)
Quantile(s, p) == LET t == SortR(s) h == QMul(p, RatI(Len(s) - 1)) k == RFloor(h) f == RSub(h, RatI(k)) IN
                  IF k + 1 >= Len(s) THEN t[Len(s)] ELSE QAdd(t[k + 1], QMul(f, QSub(t[k + 2], t[k + 1])))
RECURSIVE MinR(_)
MinR(s) == IF Len(s) = 1 THEN s[1] ELSE RMin(s[1], MinR(Tail(s)))
RECURSIVE MaxR(_)
MaxR(s) == IF Len(s) = 1 THEN s[1] ELSE RMax(s[1], MaxR(Tail(s)))
Domain(ls, p) == <<MinR([l \in DOMAIN ls |-> Quantile(ls[l], p)]), MaxR([l \in DOMAIN ls |-> Quantile(ls[l], RSub(RatI(1), p))])>>
=============================================================================
