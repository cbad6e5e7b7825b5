---------------------------- MODULE DensityGen ----------------------------
EXTENDS Density, Json, Randomization
CONSTANTS Depth, Ops
VARIABLES hist, step
RE(S) == RandomElement(S)
Odds(k) == RE(1..k) = 1
Cs == {RatI(0), RatN(1, 2), RatN(-1, 2), RatN(1, 3), RatN(-1, 4), RatN(3, 4)}
Doms == {<<-1, 1>>, <<0, 4>>, <<-3, 5>>, <<2, 3>>, <<100, 120>>}
GExact(z) == \E fn \in {RE({"moments", "semimoments", "cov", "semicov"})}, n \in {RE(1..6)}, c \in {RE(Cs)}, dom \in {RE(Doms)}, q \in {RE({RatI(0), RatN(1, 2), RatN(-1, 2)})} :
    hist' = Append(hist, [op |-> "exact", fn |-> fn, n |-> n, c |-> c, q |-> q, dom |-> dom])
GOrtho(z) == \E n \in {RE(1..6)}, c \in {RE(Cs)}, q \in {RE({RatI(0), RatN(1, 2)})}, dom \in {RE(Doms)} :
    hist' = Append(hist, [op |-> "ortho", n |-> n, c |-> c, dom |-> dom, cov |-> [i \in 1..n |-> [j \in 1..n |-> Cov(i - 1, j - 1, c, q)]], cut |-> Odds(3), repeat |-> n > 2 /\ Odds(3), auto |-> n >= 4 /\ Odds(3)])
GDens(z) == \E n \in {RE(2..6)}, c \in {RE(Cs)}, dom \in {RE(Doms)}, s \in {RE({RatI(0), RatI(0), RatN(1, 4), RatN(1, 10), RatN(1, 3)})}, t0 \in {RE({RatN(1, 2), RatI(0), RatN(-1, 4), RatN(-3, 4)})} :
    \E err \in {[i \in 1..n |-> IF Odds(2) THEN RatI(1) ELSE RE({RatN(1, 4), RatI(4)})]}, same \in {~Odds(3)} :
    hist' = Append(hist, [op |-> "dens", n |-> n, dom |-> dom, mom |-> [i \in 1..n |-> MixMom(i - 1, c, s, t0)], vars |-> IF same THEN [i \in 1..n |-> RatI(1)] ELSE err,
                          tol |-> RE({3, 5, 8}), at |-> [i \in 1..RE(3..6) |-> RatN(RE(-5..5), 4)]])
GDist(z) == \E c1 \in {RE(Cs)}, c2 \in {RE(Cs)}, dom \in {RE(Doms)} : hist' = Append(hist, [op |-> "dist", c1 |-> c1, c2 |-> c2, dom |-> dom])
\* samples -> density
GEst(z) == \E n \in {RE(2..4)}, dom \in {RE({<<-1, 1>>, <<0, 4>>, <<-3, 5>>})}, L \in {RE(1..3)}, kind \in {RE({"mem", "chunk", "hdf"})} :
    \E ls \in {[l \in 1..L |-> LET k == RE(4..7) IN [i \in 1..k |-> [f |-> RatN(RE(-3..3), 4), d |-> IF l = 1 THEN RatI(0) ELSE RatN(RE(-1..1), 16)]]]} :
    hist' = Append(hist, [op |-> "est", n |-> n, dom |-> dom, ls |-> [ls EXCEPT ![1] = [i \in 1..7 |-> [f |-> RatN(i - 4, 4), d |-> RatI(0)]] \o @], kind |-> kind])
Init == hist = <<>> /\ step = 0
Next == /\ step < Depth /\ step' = step + 1
        /\ \E o \in {RE(Ops)} : CASE o = "exact" -> GExact(step) [] o = "ortho" -> GOrtho(step) [] o = "dens" -> GDens(step) [] o = "dist" -> GDist(step) [] o = "est" -> GEst(step)
GSpec == Init /\ [][Next]_<<hist, step>>
Emit == step = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
