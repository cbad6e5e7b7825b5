--------------------------- MODULE DensityTrace ---------------------------
EXTENDS Density, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l
Ag(e, o) == e = o \/ e[2] > 20000
Tolm(t) == CASE t = 3 -> 30000 [] t = 5 -> 300 [] t = 8 -> 20       \* in millionths
ExactBad(e) ==
    LET want == IF e.fn \in {"moments", "semimoments"} THEN [i \in 1..e.n |-> Mom(i - 1, e.c, e.q)]
                ELSE Flat([i \in 1..e.n |-> [j \in 1..e.n |-> Cov(i - 1, j - 1, e.c, e.q)]])
    IN Cl("ExactMoments", Len(e.r) = Len(want) /\ \A i \in DOMAIN want : Ag(want[i], e.r[i]))
\* "auto": the number of functions is left to the code (which needs four of them for its estimate)
OrthoBad(e) == Cl("OrthogonalSize", IF e.auto THEN e.size \in 1..e.n ELSE e.size = e.want) \cup Cl("Orthogonal", e.res <= 10)
DensBad(e) ==
    Cl("DensityPositive", e.pos) \cup Cl("DensityIntegral", Abs(e.int - 1000000) <= 50)
    \cup Cl("DensitySolved", e.ok \/ e.tol = 8)
    \cup Cl("DensityMoments", \A i \in DOMAIN e.res : Abs(e.res[i]) <= IF e.ok THEN Tolm(e.tol) ELSE Tolm(5))
    \* the distribution function at the asked points, in their order
    \cup Cl("Cdf", Len(e.cdf) = Len(e.at) /\ \A i \in DOMAIN e.at :
              IF RLe(e.at[i], RatI(-1)) THEN e.cdf[i] = 0 ELSE IF RLe(RatI(1), e.at[i]) THEN e.cdf[i] = 1000000 ELSE Abs(e.cdf[i] - e.ref[i]) <= 2000)
    \cup Cl("CdfMonotone", \A i, j \in DOMAIN e.at : RLt(e.at[i], e.at[j]) => e.cdf[i] <= e.cdf[j] + 100)
DistBad(e) ==
    Cl("L2Distance", Ag(L2sq(e.c1, e.c2, e.dom[2] - e.dom[1]), e.l2))
    \cup Cl("KLDivergence", e.klself <= 1 /\ e.kl >= 0 /\ Abs(e.klu - KL6(e.c2)) <= 5)
\* the moments of the density are the estimated ones: sum over levels of mean differences
MeanSeq(s) == RDiv(SumSeqR(s), RatI(Len(s)))
EstMom(e, i) == SumSeqR([k \in DOMAIN e.ls |-> MeanSeq([j \in DOMAIN e.ls[k] |->
                   LET s == e.ls[k][j] IN IF k = 1 THEN PEval(LegP(i), s.f) ELSE RSub(PEval(LegP(i), s.f), PEval(LegP(i), RSub(s.f, s.d)))])])
EstBad(e) == IF ~e.ok THEN {} ELSE
    Cl("EstimatedDensity", Len(e.mom) = e.n /\ \A i \in 1..e.n : LET w == EstMom(e, i - 1) IN w[2] > 20000 \/ Abs(e.mom[i] - (w[1] * 1000) \div w[2]) <= 3)
    \cup Cl("DensityIntegral", Abs(e.int - 1000000) <= 50)
Judge(e) ==
    IF e.op = "begin" THEN {} ELSE IF e.raised # "" THEN {"Answers"} ELSE
    CASE e.op = "exact" -> ExactBad(e) [] e.op = "ortho" -> OrthoBad(e) [] e.op = "dens" -> DensBad(e) [] e.op = "dist" -> DistBad(e) [] e.op = "est" -> EstBad(e) [] OTHER -> {}
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ LET bad == Judge(Trace[l + 1]) IN
       IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
