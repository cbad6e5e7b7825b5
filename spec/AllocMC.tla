------------------------------ MODULE AllocMC -------------------------------
(* The allocation formula over every small table of variances and costs: what the *)
(* allocated numbers of samples guarantee.                                        *)
EXTENDS Numeric
CONSTANTS MaxV
VARIABLES sv, sc, tgt
vars == <<sv, sc, tgt>>
Init == /\ sv \in UNION {[1..L -> 0..MaxV] : L \in 1..3}
        /\ sc \in [DOMAIN sv -> {1, 2, 4}]
        /\ tgt \in {RatI(1), RatN(1, 2), RatN(1, 10)}
Spec == Init /\ [][FALSE /\ UNCHANGED vars]_vars
V == <<[l \in DOMAIN sv |-> RatI(sv[l])]>>
C == [l \in DOMAIN sc |-> RatI(sc[l])]
N(l, t) == NSamples(V, C, t, l)
Lo(l, t) == LET S == N(l, t) IN CHOOSE n \in S : \A m \in S : n <= m
\* the variance of the estimate stays within rounding and the cap (each at most V L / target samples)
ReachesTarget == RLe(QSum([l \in DOMAIN sv |-> RatN(sv[l] * sv[l], Lo(l, tgt))]), RMul(RatI(3), tgt))
AtLeastTwo == \A l \in DOMAIN sv : Lo(l, tgt) >= 2
Monotone == \A l \in DOMAIN sv : Lo(l, tgt) <= Lo(l, RMul(tgt, <<1, 2>>))
=============================================================================
