------------------------------- MODULE Synth -------------------------------
(* The synthetic simulation (mlmc.sim.synth_simulation) and the statistical tests          *)
(* (mlmc.tool.stats_tests).  Reals are integers in millionths; steps are rationals.         *)
EXTENDS Util

\* ---- failures on purpose: len samples so far, n of them failed, wanted share f = <<num, den>>
\* the share of failed samples is never under the wanted one and at most one sample over it
Band(n, len, f) == IF f[1] = 0 THEN n = 0 ELSE /\ f[1] * len <= n * f[2] /\ n * f[2] <= f[1] * len + f[2]
Fails(n, len, f) == f[1] > 0 /\ n * f[2] <= f[1] * (len + 1)        \* the rule: sample len + 1 fails

\* ---- one result: the draws x_c (and the roots s_c of 1e-4 + |x_c|) of one seed on both levels
\* the flat result: quantities, times, locations, components
NResults(fm) == fm.nq * fm.nt * fm.nl * fm.nc
CompOf(fm, i) == ((i - 1) % fm.nc) + 1
LocOf(fm, i) == (((i - 1) \div fm.nc) % fm.nl) + 1
Value(fm, x, s, h, off, i) == LET c == CompOf(fm, i) IN x[c] + (h[1] * s[c]) \div h[2] + off * (LocOf(fm, i) - 1) * 1000000
FineOf(fm, x, s, hf, hc) == [i \in 1..NResults(fm) |-> Value(fm, x, s, hf, IF hc[1] = 0 THEN 0 ELSE 1, i)]
CoarseOf(fm, x, s, hc) == [i \in 1..NResults(fm) |-> IF hc[1] = 0 THEN 0 ELSE Value(fm, x, s, hc, 1, i)]
Near(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Abs(a[i] - b[i]) <= tol

\* ---- cost: (1/h)^c log(max(1/h, 2)); the observation is divided by the logarithm
RECURSIVE RPow(_, _)
RPow(a, k) == IF k = 0 THEN RatI(1) ELSE RMul(a, RPow(a, k - 1))
Ops(h, c) == RPow(RInv(h), c)

\* ---- statistical tests: the decisions are rational for even degrees of freedom
SMean(s) == RDiv(SumSeqR(s), RatI(Len(s)))
SS(s) == LET m == SMean(s) IN SumSeqR([i \in DOMAIN s |-> LET d == RSub(s[i], m) IN RMul(d, d)])
\* squared probability of |T| below the value, T2 = T^2, in ten-thousandths: degrees of freedom 2 and 4
\* (the decision is p > m; it is judged when the margin is not small)
Frac4(a, b) == (a * 10000) \div b
Inner4(T2, df) == LET sn == Frac4(T2[1], T2[1] + df * T2[2]) k == 10000 + (10000 - sn) \div 2
                  IN IF df = 2 THEN sn ELSE (((sn * k) \div 10000) * k) \div 10000
TMargin(T2, df, m) == LET q == 10000 - (10000 * m[1]) \div m[2] IN (q * q) \div 10000 - Inner4(T2, df)
Judged(margin) == Abs(margin) > 12
T2Of(s, mu) == LET d == RSub(SMean(s), mu) IN RDiv(RMul(RMul(d, d), RatI(Len(s) * (Len(s) - 1))), SS(s))
\* chi2 with df 2 and 4: the bounds of the statistic in ten-thousandths
ChiLow(df, m) == IF df = 2 THEN CASE m = <<1, 100>> -> 100 [] m = <<1, 20>> -> 506 [] m = <<1, 5>> -> 2107
                 ELSE CASE m = <<1, 100>> -> 2070 [] m = <<1, 20>> -> 4844 [] m = <<1, 5>> -> 10636
ChiHigh(df, m) == IF df = 2 THEN CASE m = <<1, 100>> -> 105966 [] m = <<1, 20>> -> 73778 [] m = <<1, 5>> -> 46052
                  ELSE CASE m = <<1, 100>> -> 148603 [] m = <<1, 20>> -> 111433 [] m = <<1, 5>> -> 77794
ChiStat(s, v) == RDiv(SS(s), v)
\* groups: F statistic; two groups as T^2, three groups by (1 + 2F/nu)^(-nu/2)
FStat(g) == LET all == Flat(g) k == Len(g) n == Len(all) m == SMean(all)
                B == SumSeqR([i \in 1..k |-> LET d == RSub(SMean(g[i]), m) IN RMul(RatI(Len(g[i])), RMul(d, d))])
                W == SumSeqR([i \in 1..k |-> SS(g[i])])
            IN RDiv(RMul(B, RatI(n - k)), RMul(W, RatI(k - 1)))
RECURSIVE Pow4(_, _)
Pow4(a, k) == IF k = 0 THEN 10000 ELSE (a * Pow4(a, k - 1)) \div 10000
FMargin(g, m) == LET nu == Len(Flat(g)) - Len(g) F == FStat(g)
                 IN IF Len(g) = 2 THEN TMargin(F, nu, m)
                    ELSE Pow4(Frac4(nu * F[2], nu * F[2] + 2 * F[1]), nu \div 2) - (10000 * m[1]) \div m[2]
=============================================================================
