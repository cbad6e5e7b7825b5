------------------------------ MODULE Density ------------------------------
(* Densities and their moments (mlmc.tool.simple_distribution, Estimate.construct_density).  *)
(* The reference densities are polynomials of the reference variable t of [-1, 1],           *)
(* (1 + c P1 + q P2) / 2, and mixtures with an atom: their Legendre moments and covariances are rational.   *)
EXTENDS Util

\* polynomials: sequences of rational coefficients
PCoef(p, k) == IF k \in DOMAIN p THEN p[k] ELSE RatI(0)
PAdd(p, q) == [k \in 1..Max2(Len(p), Len(q)) |-> RAdd(PCoef(p, k), PCoef(q, k))]
PScale(a, p) == [k \in DOMAIN p |-> RMul(a, p[k])]
PShift(p) == <<RatI(0)>> \o p
RECURSIVE PMul(_, _)
PMul(p, q) == IF p = <<>> THEN <<>> ELSE PAdd(PScale(p[1], q), IF Len(p) = 1 THEN <<>> ELSE PShift(PMul(Tail(p), q)))
RECURSIVE LegP(_)
LegP(n) == IF n = 0 THEN <<RatI(1)>> ELSE IF n = 1 THEN <<RatI(0), RatI(1)>>
           ELSE PAdd(PScale(RatN(2 * n - 1, n), PShift(LegP(n - 1))), PScale(RatN(1 - n, n), LegP(n - 2)))
RECURSIVE PEval(_, _)
PEval(p, t) == IF p = <<>> THEN RatI(0) ELSE RAdd(p[1], RMul(t, PEval(Tail(p), t)))
\* the mean of t^k over [-1, 1]
PMean(p) == SumSeqR([k \in DOMAIN p |-> IF k % 2 = 1 THEN RMul(p[k], RatN(1, k)) ELSE RatI(0)])
\* the weight 1 + c P1 + q P2
Wt(c, q) == PAdd(<<RatI(1), c>>, PScale(q, LegP(2)))
Mom(i, c, q) == PMean(PMul(LegP(i), Wt(c, q)))
Cov(i, j, c, q) == PMean(PMul(PMul(LegP(i), LegP(j)), Wt(c, q)))
\* share s of the mass in the atom t0
MixMom(i, c, s, t0) == RAdd(RMul(RSub(RatI(1), s), Mom(i, c, RatI(0))), RMul(s, PEval(LegP(i), t0)))
L2sq(c1, c2, w) == LET d == RSub(c1, c2) IN RDiv(RMul(d, d), RatI(3 * w))
\* Kullback-Leibler divergence of the constant density from (1 + c t)/2, in millionths
KL6(c) == LET a == <<Abs(c[1]), c[2]>> IN CASE a = <<0, 1>> -> 0 [] a = <<1, 4>> -> 10618 [] a = <<1, 3>> -> 19171 [] a = <<1, 2>> -> 45229 [] a = <<3, 4>> -> 116066
=============================================================================
