------------------------------ MODULE FieldsMC ------------------------------
(* Design model of sets of fields: two sets made of shared random field objects, points and  *)
(* outer fields set in any order and again, samples of both interleaved.                     *)
EXTENDS Fields
CONSTANTS MaxOps
VARIABLES sets, clock, out, ops
vars == <<sets, clock, out, ops>>
B(n, kind, regs, fn, par) == [n |-> n, kind |-> kind, regs |-> regs, c |-> RatI(5), mu |-> RatI(1), sg |-> RatI(2), rf |-> 1, log |-> FALSE, fn |-> fn, par |-> par]
P(n) == [n |-> n, c |-> RatI(0)]
Defs == <<B("k", "const", <<"ra">>, "sum", <<>>), B("u", "rand", <<"ra", "rb">>, "sum", <<>>), B("v", "rand", <<"rb", "ra">>, "sum", <<>>), B("w", "rand", <<>>, "sum", <<>>),
          B("g", "func", <<"rb", "ra">>, "lin", <<P("u"), P("v")>>), B("h", "func", <<"ra", "rb">>, "sum", <<P("g"), [n |-> "", c |-> RatI(3)], P("u")>>)>>
Names == {Defs[k].n : k \in DOMAIN Defs}
PtSets == {<<<<<<0, 0>>, "ra">>, <<<<1, 0>>, "rb">>>>, <<<<<<1, 0>>, "rc">>, <<<<0, 1>>, "ra">>, <<<<1, 0>>, "rb">>>>}
Outers == {<<"u">>, <<"h", "k">>}
None == <<>>
Init == sets = [s \in 1..2 |-> [pts |-> None, outer |-> Names]] /\ clock = 0 /\ out = None /\ ops = 0
Tick == ops < MaxOps /\ ops' = ops + 1
SetPoints(s) == Tick /\ \E p \in PtSets : sets' = [sets EXCEPT ![s].pts = p] /\ UNCHANGED <<clock, out>>
SetOuter(s) == Tick /\ \E o \in Outers : sets' = [sets EXCEPT ![s].outer = Rng(o)] /\ UNCHANGED <<clock, out>>
\* three random fields: three fresh draws per sample, in any order
Sample(s) == /\ Tick /\ sets[s].pts # None
             /\ \E D \in Draws(Defs, clock, clock + 3) :
                  out' = Append(out, [s |-> s, pts |-> sets[s].pts, D |-> D,
                                      v |-> [n \in sets[s].outer |-> [i \in DOMAIN sets[s].pts |->
                                               IF Inside(Def(Defs, n), sets[s].pts[i][2]) THEN Val(Defs, Def(Defs, n), sets[s].pts[i][1], D) ELSE RatI(0)]]])
             /\ clock' = clock + 3 /\ UNCHANGED sets
Next == \E s \in 1..2 : SetPoints(s) \/ SetOuter(s) \/ Sample(s)
Spec == Init /\ [][Next]_vars
\* a realization is used once: no two samples and no two fields share a draw
FreshDraws == \A a, b \in DOMAIN out : \A m, n \in RandNames(Defs) : out[a].D[m] = out[b].D[n] => a = b /\ m = n
Outside == \A a \in DOMAIN out : \A n \in DOMAIN out[a].v : \A i \in DOMAIN out[a].pts : ~Inside(Def(Defs, n), out[a].pts[i][2]) => out[a].v[n][i] = RatI(0)
\* the value in a point names the point and the realization, so nothing else explains a sample
Named == \A a \in DOMAIN out : "u" \in DOMAIN out[a].v =>
           \A i \in DOMAIN out[a].pts : Inside(Def(Defs, "u"), out[a].pts[i][2]) =>
              \E d \in clock - (3 * Len(out))..clock : out[a].v["u"][i] = RatI(1 + 2 * (16 * W(out[a].pts[i][1]) + d)) /\ d = out[a].D["u"]
Dependent == \A a \in DOMAIN out : {"h", "u"} \subseteq DOMAIN out[a].v =>
           \A i \in DOMAIN out[a].pts : Inside(Def(Defs, "h"), out[a].pts[i][2]) =>
              out[a].v["h"][i] = RAdd(RAdd(out[a].v["g"][i], RatI(3)), out[a].v["u"][i]) /\ out[a].v["g"][i] = RSub(RMul(RatI(3), out[a].v["u"][i]), out[a].v["v"][i])
OnlyOuter == \A a \in DOMAIN out : DOMAIN out[a].v \in {Names} \cup {Rng(o) : o \in Outers}
=============================================================================
