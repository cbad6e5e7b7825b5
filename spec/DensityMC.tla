----------------------------- MODULE DensityMC ------------------------------
(* Laws of the exact moments over every reference density and order of a grid.               *)
EXTENDS Density
CONSTANTS MaxN
VARIABLES c, q, i, j
vars == <<c, q, i, j>>
Cs == {RatN(a, 4) : a \in -3..3} \cup {RatN(1, 3)}
Init == c \in Cs /\ q \in {RatI(0), RatN(1, 4), RatN(-1, 2)} /\ i \in 0..MaxN /\ j \in 0..MaxN
Spec == Init /\ [][FALSE /\ UNCHANGED vars]_vars
Unit == Mom(0, c, q) = RatI(1)
Symmetric == Cov(i, j, c, q) = Cov(j, i, c, q)
FirstRow == Cov(0, j, c, q) = Mom(j, c, q)
\* orthogonality of the basis, and the moments of the density are its coefficients
Orthogonal == Cov(i, j, RatI(0), RatI(0)) = IF i = j THEN RatN(1, 2 * i + 1) ELSE RatI(0)
Coefficients == /\ Mom(1, c, q) = RDiv(c, RatI(3)) /\ Mom(2, c, q) = RDiv(q, RatI(5)) /\ \A k \in 3..MaxN : Mom(k, c, q) = RatI(0)
\* the diagonal of a covariance is not negative for a density that is not negative
Positive == (RLe(RMul(c, c), RatI(1)) /\ q = RatI(0)) => RLe(RatI(0), Cov(i, i, c, q))
Atom == /\ MixMom(i, c, RatI(0), RatN(1, 2)) = Mom(i, c, RatI(0)) /\ MixMom(i, c, RatI(1), RatN(1, 2)) = PEval(LegP(i), RatN(1, 2)) /\ MixMom(0, c, RatN(1, 3), RatN(1, 2)) = RatI(1)
Ends == PEval(LegP(i), RatI(1)) = RatI(1) /\ PEval(LegP(i), RatI(-1)) = RatI(IF i % 2 = 0 THEN 1 ELSE -1)
Distance == L2sq(c, c, 2) = RatI(0) /\ L2sq(c, q, 2) = L2sq(q, c, 2)
=============================================================================
