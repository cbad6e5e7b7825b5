------------------------------ MODULE SynthGen -----------------------------
EXTENDS Synth, Json, Randomization
CONSTANTS Depth, Mode
VARIABLES hist, step, nlev, fr
RE(S) == RandomElement(S)
Odds(k) == RE(1..k) = 1
Steps == {<<1, 1>>, <<1, 2>>, <<1, 4>>, <<1, 8>>, <<1, 5>>, <<1, 10>>, <<3, 2>>, <<2, 1>>}
Kind(z) == IF Mode = "ws" THEN RE({"ws", "ws", "base"}) ELSE "base"
GNew(z) == \E kind \in {Kind(z)}, d \in {RE({"norm", "norm13", "uniform", "lognorm"} \cup IF Odds(3) THEN {"nan"} ELSE {})}, f \in {RE({<<0, 1>>, <<1, 10>>, <<1, 4>>, <<1, 2>>, <<3, 4>>, <<1, 1>>, <<1, 3>>})} :
    \E noconf \in {kind = "base" /\ Odds(6)}, fmt \in {RE({"own", "own", "default"})} :
    /\ hist' = Append(hist, [op |-> "new", kind |-> kind, distr |-> IF noconf \/ kind = "ws" THEN "norm" ELSE d, f |-> IF noconf \/ d = "nan" THEN <<0, 1>> ELSE f, nof |-> Odds(2),
                             noconf |-> noconf, c |-> IF noconf THEN 2 ELSE RE(1..3), fmt |-> fmt,
                             fm |-> IF fmt = "default" THEN [nq |-> 2, nt |-> 3, nl |-> 2, nc |-> 2] ELSE [nq |-> RE(1..3), nt |-> RE(1..3), nl |-> RE(1..3), nc |-> RE(1..4)]])
    /\ nlev' = [nlev EXCEPT ![kind] = 1] /\ fr' = fr
GLevel(z) == \E kind \in {RE({k \in {"base", "ws"} : nlev[k] > 0})}, h \in {RE(Steps)}, hc \in {IF Odds(3) THEN <<0, 1>> ELSE RE(Steps)} :
    /\ hist' = Append(hist, [op |-> "level", kind |-> kind, hf |-> h, hc |-> hc])
    /\ nlev' = [nlev EXCEPT ![kind] = @ + 1] /\ fr' = fr
GCalc(z) == \E kind \in {RE({k \in {"base", "ws"} : nlev[k] > 1})}, cnt \in {RE({1, 1, 2, 7})} :
    /\ hist' = Append(hist, [op |-> "calc", kind |-> kind, lev |-> RE(1..(nlev[kind] - 1)), seed |-> RE({RE(0..5), RE(0..100000)}), cnt |-> cnt, pickled |-> Odds(3)])
    /\ UNCHANGED <<nlev, fr>>
GFn(z) == hist' = Append(hist, [op |-> "fn", kind |-> RE({"base", "ws"}), x |-> RE(-30..30), h |-> RE(Steps)]) /\ UNCHANGED <<nlev, fr>>
Sm(k) == [i \in 1..k |-> RatI(RE(-3..3))]
GStat(z) == \E t \in {RE({"t", "chi2", "anova"})}, n \in {RE({3, 5})}, m \in {RE({<<1, 100>>, <<1, 20>>, <<1, 5>>})}, k \in {RE(2..3)} :
    \E s \in {Sm(n)}, sh \in {RE({0, 0, 1, 3, 12})} :
    \E mu \in {RatI(RE(-3..3) + sh)}, v \in {RatI(RE({1, 2, 3, 10, 40}))}, g \in {[i \in 1..k |-> LET gs == Sm(IF k = 2 THEN RE({2, 3}) ELSE RE({2, 4})) sh2 == IF i = k THEN sh ELSE 0 IN [j \in DOMAIN gs |-> RAdd(gs[j], RatI(sh2))]]} :
    /\ hist' = Append(hist, [op |-> t, s |-> s, mu |-> mu, v |-> v, m |-> m, dflt |-> m = <<1, 100>> /\ Odds(2), g |-> g])
    /\ UNCHANGED <<nlev, fr>>
Init == hist = <<>> /\ step = 0 /\ nlev = [base |-> 0, ws |-> 0] /\ fr = 0
Next == /\ step < Depth /\ step' = step + 1
        /\ IF Mode = "stat" THEN GStat(step)
           ELSE \E w \in {RE(1..12)} :
              IF (nlev["base"] = 0 /\ nlev["ws"] = 0) \/ w = 1 THEN GNew(step)
              ELSE IF (nlev["base"] < 2 /\ nlev["ws"] < 2) \/ w \in {2, 3} THEN GLevel(step)
              ELSE IF w = 4 THEN GFn(step) ELSE GCalc(step)
GSpec == Init /\ [][Next]_<<hist, step, nlev, fr>>
Emit == step = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
