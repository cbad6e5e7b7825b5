----------------------------- MODULE NumericGen -----------------------------
EXTENDS Numeric, Json, Randomization
CONSTANTS Depth, Ops
VARIABLES hist, step
RE(S) == RandomElement(S)
Odds(k) == RE(1..k) = 1
H(n) == RatN(n, 2)
RMat(n, m) == [r \in 1..n |-> [c \in 1..m |-> IF r = 1 THEN (IF c = 1 THEN RatI(1) ELSE RatI(0)) ELSE RatI(RE(-2..2))]]
RMomF(z) ==
    LET kind == RE({"legendre", "legendre", "monomial", "fourier"}) log == Odds(4)
        dom == IF log THEN RE({<<-2, 2>>, <<0, 4>>, <<-1, 3>>}) ELSE RE({<<-2, 2>>, <<-1, 1>>, <<0, 4>>, <<-4, 4>>, <<-3, 1>>, <<0, 1>>, <<-7, 1>>})
    IN [kind |-> kind, size |-> RE(1..5), a |-> RatI(dom[1]), b |-> RatI(dom[2]), safe |-> ~Odds(3), log |-> log, q |-> IF log THEN 0 ELSE RE({0, 4, 12, -7}),
        ref |-> IF kind = "monomial" /\ Odds(3) THEN <<RatI(-1), RatI(1)>> ELSE IF kind = "legendre" /\ Odds(6) THEN <<RatI(0), RatI(1)>> ELSE <<>>]
\* points: mostly in the domain, at its ends, and outside
RPt(m) == LET w == m.b[1] - m.a[1] IN
          IF Odds(6) THEN RatI(m.b[1] + RE(1..2)) ELSE IF Odds(8) THEN RatI(m.a[1] - 1)
          ELSE IF m.kind = "fourier" \/ Odds(2) THEN RAdd(m.a, RatN(w * RE(0..4), 4)) ELSE RAdd(m.a, RatN(w * RE(0..8), 8))
Shapes == {<<>>, <<3>>, <<1>>, <<4>>, <<2, 3>>, <<1, 2, 2>>, <<3, 2, 1>>}
GMom(z) ==
    \E m \in {RMomF(z)}, shp \in {RE(Shapes)} :
    \E x \in {[i \in 1..ProdSeq(shp) |-> RPt(m)]}, sz \in {RE(1..5)} :
    \E call \in {RE(IF m.kind = "legendre" THEN {"all", "all", "size", "single", "eval", "der", "diff", "resize", "trans", "tder", "tdiff", "inv"}
                    ELSE {"all", "all", "size", "single", "eval", "resize", "trans", "inv"})} :
    \E mat \in {RMat(RE(1..m.size), m.size)}, d \in {RE(1..2)}, i \in {RE(0..(m.size - 1))} :
       \* the derivative and single-moment calls are defined for vectors of points
       LET y == IF call \in {"eval"} THEN <<x[1]>> ELSE x
           sh == IF call \in {"eval"} THEN <<1>> ELSE shp
       IN hist' = Append(hist, [op |-> "mom", m |-> m, shape |-> sh, x |-> y, call |-> call, size |-> sz, mat |-> mat, d |-> d, i |-> i])
GEq(z) == \E m \in {RMomF(z)} : \E w \in {RE({"same", "size", "dom", "log", "safe", "kind", "ref", "mat"})} :
            hist' = Append(hist, [op |-> "eq", m |-> m, w |-> w])
GAlloc(z) ==
    \E L \in {RE(1..4)}, M \in {RE(1..3)} :
    \E sv \in {[k \in 1..M |-> [l \in 1..L |-> RatN(RE(0..6), RE({1, 2, 4}))]]}, sc \in {[l \in 1..L |-> RatN(RE(1..6), RE({1, 2}))]} :
    \E tgt \in {RatN(1, RE({1, 2, 4, 8, 10, 20, 50}))} :
       hist' = Append(hist, [op |-> "alloc", sv |-> sv, sc |-> sc, tgt |-> tgt])
GLevels(z) == \E n \in {RE(1..5)}, b \in {RE({2, 3})}, e1 \in {RE(-2..0)}, k \in {RE(1..2)}, f \in {RE({"calc", "determine"})} :
       LET e0 == IF n = 1 THEN e1 + k ELSE e1 + k * (n - 1) IN
       hist' = Append(hist, [op |-> "levels", n |-> n, b |-> b, e0 |-> e0, e1 |-> e1, f |-> f])
GNs(z) == \E n \in {RE(1..6)}, k \in {RE(0..3)}, e1 \in {RE(0..3)}, how \in {RE({"geo", "one", "none", "full", "any"})} :
       \E full \in {[i \in 1..RE(3..6) |-> RE(1..50)]}, x0 \in {RE(1..200)}, x1 \in {RE(1..20)} :
       hist' = Append(hist, [op |-> "ns", n |-> n, e0 |-> e1 + k * (n - 1), e1 |-> e1, how |-> how, full |-> full, x0 |-> x0, x1 |-> x1])
GVec(z) == \E n \in {RE(1..4)} : \E coll \in {[i \in 1..n |-> RE(0..9)]}, v \in {[i \in 1..(n + RE(0..2)) |-> RE(0..9)]}, g \in {Odds(2)} :
       hist' = Append(hist, [op |-> "vec", n |-> n, coll |-> coll, v |-> v, given |-> g])
GDom(z) == \E L \in {RE(1..3)}, p \in {RE({<<0, 1>>, <<1, 4>>, <<1, 8>>, <<1, 2>>, <<1, 16>>, <<1, 20>>})}, kind \in {RE({"mem", "chunk", "hdf"})} :
       \E ls \in {[l \in 1..L |-> [i \in 1..RE(1..9) |-> IF Odds(9) /\ i > 1 THEN RNaN ELSE H(RE((-8 - 4 * l)..(8 + 4 * l)))]]}, how \in {RE({"static", "module"})} :
       hist' = Append(hist, [op |-> "dom", ls |-> ls, p |-> p, kind |-> kind, how |-> how])
GReg(z) == \E L \in {RE(1..6)}, M \in {RE(1..3)}, s \in {RE(1..2)}, e0 \in {RE(0..2)} :
       \E co \in {[k \in 1..M |-> [A |-> RE(-3..3), B |-> RE(-2..2), C |-> RE(0..1), v0 |-> RE(1..9)]]}, free \in {Odds(3)} :
       \E raw \in {[k \in 1..M |-> [l \in 1..L |-> RatN(RE(1..9), RE({1, 2, 4, 8}))]]} :
       hist' = Append(hist, [op |-> "reg", L |-> L, s |-> s, e0 |-> e0, co |-> co, free |-> free /\ L <= 4, raw |-> raw])
Init == hist = <<>> /\ step = 0
Next == /\ step < Depth /\ step' = step + 1
        /\ \E o \in {RE(Ops)} :
             CASE o = "mom" -> GMom(step) [] o = "eq" -> GEq(step) [] o = "alloc" -> GAlloc(step) [] o = "levels" -> GLevels(step)
               [] o = "ns" -> GNs(step) [] o = "vec" -> GVec(step) [] o = "dom" -> GDom(step) [] o = "reg" -> GReg(step)
GSpec == Init /\ [][Next]_<<hist, step>>
Emit == step = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
