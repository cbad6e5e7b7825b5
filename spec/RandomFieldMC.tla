---------------------------- MODULE RandomFieldMC ---------------------------
(* Design model of one random field object: points (with or without means and deviations)    *)
(* set again and again, the generator seeded, realizations asked for, in any order.          *)
EXTENDS Util
CONSTANTS MaxOps
VARIABLES pts, mu, sg, seed, n, out, ops, given
vars == <<pts, mu, sg, seed, n, out, ops, given>>
PtSets == {<<0>>, <<1, 0>>, <<2, 2>>}
Opt(k) == {<<>>, <<3>>, [i \in 1..k |-> i]}
At(a, i) == IF Len(a) = 1 THEN a[1] ELSE a[i]
Fits(a, k) == Len(a) = 1 \/ Len(a) = k
Init == pts = <<>> /\ mu = <<0>> /\ sg = <<1>> /\ seed = 0 /\ n = 0 /\ out = <<>> /\ ops = 0 /\ given = <<>>
Tick == ops < MaxOps /\ ops' = ops + 1
SetPoints == Tick /\ \E p \in PtSets : \E a \in Opt(Len(p)), b \in Opt(Len(p)) :
               /\ pts' = p /\ mu' = (IF a = <<>> THEN mu ELSE a) /\ sg' = (IF b = <<>> THEN sg ELSE b)
               /\ Fits(mu', Len(p)) /\ Fits(sg', Len(p))
               /\ given' = Append(given, [a |-> a, b |-> b]) /\ UNCHANGED <<seed, n, out>>
Seed == Tick /\ \E s \in 1..2 : seed' = s /\ n' = 0 /\ UNCHANGED <<pts, mu, sg, out, given>>
\* the k-th unit realization after seeding with s, in the point x: named by (s, k, x)
Unit(s, k, x) == 100 * s + 10 * k + x
Sample == Tick /\ pts # <<>> /\ n' = n + 1
          /\ out' = Append(out, [s |-> seed, k |-> n, p |-> pts, g |-> Len(given), v |-> [i \in DOMAIN pts |-> At(mu, i) + At(sg, i) * Unit(seed, n, pts[i])]])
          /\ UNCHANGED <<pts, mu, sg, seed, given>>
Next == SetPoints \/ Seed \/ Sample
Spec == Init /\ [][Next]_vars
RECURSIVE LastGiven(_, _, _)
LastGiven(g, f, dflt) == IF g = 0 THEN dflt ELSE IF given[g][f] # <<>> THEN given[g][f] ELSE LastGiven(g - 1, f, dflt)
Belongs == \A a \in DOMAIN out : Len(out[a].v) = Len(out[a].p) /\
             \A i \in DOMAIN out[a].v : out[a].v[i] = At(LastGiven(out[a].g, "a", <<0>>), i) + At(LastGiven(out[a].g, "b", <<1>>), i) * Unit(out[a].s, out[a].k, out[a].p[i])
Repeats == \A a, b \in DOMAIN out : out[a].s = out[b].s /\ out[a].k = out[b].k /\ out[a].g = out[b].g => out[a].v = out[b].v
NewOnes == \A a, b \in DOMAIN out : a # b /\ out[a].g = out[b].g /\ (out[a].s # out[b].s \/ out[a].k # out[b].k) => \A i \in DOMAIN out[a].v : out[a].v[i] # out[b].v[i]
=============================================================================
