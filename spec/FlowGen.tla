------------------------------ MODULE FlowGen ------------------------------
EXTENDS Flow, Json, Randomization
CONSTANTS Depth, Ops
VARIABLES hist, step
RE(S) == RandomElement(S)
Odds(k) == RE(1..k) = 1
Phys == <<[n |-> "bulk", id |-> 10, bc |-> FALSE], [n |-> "rock 2", id |-> 7, bc |-> FALSE], [n |-> ".bc_outflow", id |-> 3, bc |-> TRUE], [n |-> ".bc_in", id |-> 25, bc |-> TRUE]>>
\* axis = 0: a mesh in space, otherwise a plane mesh with that coordinate constant
Pt(axis, z, x) == [c \in 1..3 |-> IF c = axis THEN z ELSE x[c]]
RMesh(axis, z) ==
    LET nn == RE(3..6) ne == RE(1..5)
        nids == [i \in 1..(nn + 2) |-> 3 * i + ((i * i) % 3)]
        nodes == [i \in 1..(nn + 2) |-> [id |-> nids[i], x |-> Pt(axis, z, IF i = 1 THEN <<0, 0, 0>> ELSE IF i = 2 THEN <<3, 5, 7>> ELSE [c \in 1..3 |-> RE(0..2)])]]
        body == [i \in 1..ne |-> LET t == RE({1, 2, 2, 2, 4, 15}) k == CASE t = 1 -> 2 [] t = 2 -> 3 [] t = 4 -> 4 [] t = 15 -> 1
                 IN [id |-> 10 * i + RE(0..9), t |-> t, tags |-> <<RE({10, 10, 7, 3, 25}), RE(1..9)>>, nodes |-> [j \in 1..k |-> RE(Rng(nids))]]]
        \* two point elements, so that the mesh has its extent in the other directions
        ends == <<[id |-> 200 + RE(0..9), t |-> 15, tags |-> <<10, 1>>, nodes |-> <<nids[1]>>], [id |-> 3, t |-> 15, tags |-> <<7, 1>>, nodes |-> <<nids[2]>>]>>
    IN [nodes |-> nodes, elems |-> IF Odds(2) THEN ends \o body ELSE body \o ends, phys |-> Phys]
RRows(z) ==
    LET n == RE(1..4)
        t0 == RE(0..n)
    IN [k \in 1..n |-> [t |-> IF k <= t0 \/ Odds(40) THEN 0 ELSE k - t0, reg |-> RE({".bc_outflow", ".bc_outflow", ".bc_in", "bulk", ".bc_outflow_2"}),
                        f |-> RatN(RE(-9..9), RE({1, 2, 4})), fin |-> IF Odds(9) THEN 1 ELSE 0]]
GoodRows(z) == <<[t |-> 0, reg |-> RE({".bc_in", "bulk"}), f |-> RatI(RE(1..9)), fin |-> 1], [t |-> 0, reg |-> ".bc_outflow", f |-> RatN(RE(-9..9), 2), fin |-> 0],
                 [t |-> 1, reg |-> ".bc_outflow", f |-> RatI(100), fin |-> RE(0..1)]>>
RPlan(z) == [out |-> ~Odds(10), rows |-> IF Odds(2) THEN GoodRows(z) ELSE RRows(z)]
GExtract(z) == \E axis \in {RE(0..3)}, zz \in {RE(-1..1)} : \E m \in {RMesh(axis, zz)} : hist' = Append(hist, [op |-> "extract", m |-> m])
GFlow(z) ==
    \E axis \in {RE({0, 3, 3, 1})}, zz \in {RE(-1..1)}, L \in {RE(1..3)} :
    \E ms \in {[l \in 1..L |-> RMesh(axis, zz)]}, lev \in {RE(1..L)}, model \in {RE(IF axis = 0 THEN {"svd", "exp", "gauss"} ELSE {"svd", "exp", "gauss", "fourier", "TPLgauss"})} :
       hist' = Append(hist, [op |-> "flow", ms |-> ms, lev |-> lev, model |-> model, dim |-> IF axis = 0 THEN 3 ELSE 2, sg |-> RE({0, 1, 1, 2}), log |-> Odds(2),
                             plan |-> <<RPlan(1), RPlan(2)>>, seed |-> RE(1..100000), attach |-> Odds(3), gv |-> RE(1..2), time |-> RE({1, 2})])
Lits == {"a: ", "b <x", "\n  - ", "> ", "<unknown>", "value"}
GSubst(z) ==
    \E names \in {RandomSubset(RE(1..3), {"mesh_file", "conductivity", "porosity", "timestep_h1"})} :
    \E toks \in {[i \in 1..RE(1..6) |-> IF Odds(2) THEN [p |-> FALSE, s |-> RE(Lits)] ELSE [p |-> TRUE, s |-> RE({"mesh_file", "conductivity", "porosity", "timestep_h1"})]]} :
       hist' = Append(hist, [op |-> "subst", toks |-> toks, params |-> [i \in DOMAIN SetToSeqU(names) |-> [n |-> SetToSeqU(names)[i], v |-> RE({"7", "some/path", "!F {a: b, c: d}"})]]])
Init == hist = <<>> /\ step = 0
Next == /\ step < Depth /\ step' = step + 1
        /\ \E o \in {RE(Ops)} : CASE o = "extract" -> GExtract(step) [] o = "flow" -> GFlow(step) [] o = "subst" -> GSubst(step)
GSpec == Init /\ [][Next]_<<hist, step>>
Emit == step = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
