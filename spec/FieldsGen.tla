----------------------------- MODULE FieldsGen -----------------------------
EXTENDS Fields, MeshFile, Json, Randomization
CONSTANTS Depth, Ops
VARIABLES hist, step, defs, sets
RE(S) == RandomElement(S)
Odds(k) == RE(1..k) = 1
\* k different elements of S in a random order
RECURSIVE Draw(_, _)
Draw(k, S) == IF k = 0 THEN <<>> ELSE LET x == CHOOSE x \in {RE(S)} : TRUE IN <<x>> \o Draw(k - 1, S \ {x})
Names == <<"f1", "f2", "f3", "f4", "f5", "f6">>
RegNames == <<"ra", "rb", "rc">>
\* region lists: everywhere, one region, several in any order
RRegs(z) == RE({<<>>, <<>>, <<"ra">>, <<"rb">>, <<"rc">>, <<"ra", "rb">>, <<"rb", "ra">>, <<"rc", "ra">>, <<"rc", "rb", "ra">>})
SameRegs(a, b) == Rng(a) = Rng(b)
Shuffle(s) == IF Len(s) >= 2 /\ Odds(2) THEN [i \in DOMAIN s |-> s[Len(s) + 1 - i]] ELSE s
Base(n, r) == [n |-> n, kind |-> "const", regs |-> r, c |-> RatI(RE(-3..5)), mu |-> RatI(0), sg |-> RatI(1), rf |-> 1, log |-> FALSE, fn |-> "sum", par |-> <<>>]
RFs == <<[mu |-> RatI(0), sg |-> RatI(1), log |-> FALSE], [mu |-> RatI(3), sg |-> RatN(1, 2), log |-> FALSE], [mu |-> RatI(-2), sg |-> RatI(2), log |-> FALSE]>>
RECURSIVE Squared(_, _)
Squared(ds, n) == LET d == Def(ds, n) IN d.kind = "func" /\ (d.fn = "prod" \/ \E j \in DOMAIN d.par : d.par[j].n # "" /\ Squared(ds, d.par[j].n))
RDef(ds, n) ==
    LET kind == RE(IF Cardinality(RandNames(ds)) >= 3 THEN {"const", "func"} ELSE {"const", "rand", "rand", "func", "func"})
        reg == RRegs(n)
        rfi == RE(1..3)
        b == Base(n, reg)
        \* a function may use fields defined before it on the same regions, in any order of the list
        usable(r) == {k \in DOMAIN ds : SameRegs(ds[k].regs, r)}
        host == IF DOMAIN ds = {} THEN 0 ELSE RE(DOMAIN ds)
    IN CASE kind = "const" -> b
         [] kind = "rand" -> [b EXCEPT !.kind = "rand", !.rf = rfi, !.mu = RFs[rfi].mu, !.sg = RFs[rfi].sg]
         [] kind = "func" ->
              IF host = 0 THEN b
              ELSE LET r == Shuffle(ds[host].regs)
                       np == RE(1..3)
                       pick(j) == IF j = 1 THEN [n |-> ds[host].n, c |-> RatI(0)]
                                  ELSE IF Odds(3) THEN [n |-> "", c |-> RatI(RE(1..4))]
                                  ELSE [n |-> ds[RE(usable(r))].n, c |-> RatI(0)]
                   IN \* one product at most on a way to a random field: the numbers stay small
                      LET par == SubSeq(<<pick(1), pick(2), pick(3)>>, 1, np) IN
                      [b EXCEPT !.kind = "func", !.regs = r, !.fn = RE(IF \E j \in 1..np : par[j].n # "" /\ Squared(ds, par[j].n) THEN {"sum", "lin"} ELSE {"sum", "lin", "prod"}), !.par = par]
RECURSIVE RDefs(_, _)
RDefs(ds, k) == IF k = 0 THEN ds ELSE RDefs(Append(ds, RDef(ds, Names[Len(ds) + 1])), k - 1)
RPoints(z) == LET n == RE(1..7) IN [i \in 1..n |-> <<RE(0..7), RE(0..4)>>]
\* the regions of the points, or none given ("none"): then no point is in a region
PRegs(pts, z) == IF Odds(6) THEN [i \in DOMAIN pts |-> "none"] ELSE [i \in DOMAIN pts |-> RE({"ra", "ra", "rb", "rb", "rc", "other"})]
GDefs(z) ==
    \E k \in {RE(2..6)} : \E ds \in {RDefs(<<>>, k)} :
       /\ defs' = ds /\ sets' = 0
       /\ hist' = Append(hist, [op |-> "defs", defs |-> ds])
GNew(z) == /\ sets < 2 /\ sets' = sets + 1 /\ UNCHANGED defs
           /\ \E pts \in {RPoints(z)} : \E regs \in {PRegs(pts, sets)} :
              hist' = hist \o <<[op |-> "new", s |-> sets + 1], [op |-> "points", s |-> sets + 1, pts |-> pts, regs |-> regs]>>
GPoints(z) == /\ sets > 0 /\ UNCHANGED <<defs, sets>>
              /\ \E s \in {RE(1..sets)}, pts \in {RPoints(z)} : \E regs \in {PRegs(pts, z)} :
                 hist' = Append(hist, [op |-> "points", s |-> s, pts |-> pts, regs |-> regs])
GOuter(z) == /\ sets > 0 /\ UNCHANGED <<defs, sets>>
             /\ \E s \in {RE(1..sets)}, o \in {RE(SUBSET {defs[k].n : k \in DOMAIN defs})} :
                hist' = Append(hist, [op |-> "outer", s |-> s, names |-> SetToSeqU(o)])
GSample(z) == /\ sets > 0 /\ UNCHANGED <<defs, sets>>
              /\ \E s \in {RE(1..sets)} : hist' = Append(hist, [op |-> "sample", s |-> s])
SetOp(z) == IF defs = <<>> THEN GDefs(z)
            ELSE IF sets = 0 \/ (sets = 1 /\ Odds(5)) THEN GNew(z)
            ELSE \E k \in {RE({"sample", "sample", "sample", "points", "outer"})} :
                   CASE k = "sample" -> GSample(z) [] k = "points" -> GPoints(z) [] k = "outer" -> GOuter(z)
\* ---- one random field by itself
Kinds == {"svd", "fourier", "gs"}
GReal(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E kind \in {RE(Kinds)}, dim \in {RE(1..3)}, log \in {Odds(3)}, zero \in {Odds(3)}, mu \in {RE(-2..3)}, seed \in {RE(1..1000)} :
       \E d \in {IF kind = "fourier" THEN Min2(dim, 2) ELSE dim} :
       \E n \in {RE(2..14)}, n2 \in {RE(2..14)} :
       \* few distinct coordinates: coincident points
       \E pts \in {[i \in 1..n |-> [c \in 1..d |-> RE(0..2)]]}, pts2 \in {[i \in 1..n2 |-> [c \in 1..d |-> RE(0..3)]]} :
       \* "flow": the field the flow simulation makes for a model; its mean is 0
       \E flow \in {Odds(3)} :
       hist' = Append(hist, [op |-> "real", kind |-> kind, dim |-> d, log |-> log, sg |-> IF zero THEN 0 ELSE RE(1..3), mu |-> IF kind = "gs" \/ flow THEN 0 ELSE mu,
                             seed |-> seed, pts |-> pts, pts2 |-> pts2, L |-> RE(1..2), flow |-> flow,
                             exp |-> IF flow /\ kind = "gs" THEN RE({"exp", "gauss", "TPLgauss", "TPLexp", "TPLStable"}) ELSE RE({"exp", "gauss"})])
\* ---- statistics of a random field: points on a line, distances k * L
GStat(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E kind \in {RE({"svd", "svd", "fourier", "gs"})}, ex \in {RE({"exp", "gauss", "1.5"})}, dim \in {RE(1..3)}, L \in {RE({1, 2, 4})}, mu \in {RE(-2..2)}, arr \in {Odds(3)}, n \in {RE({3, 4, 5, 7, 14})} :
       \* "flow": the field the flow simulation makes for a model, with mean 0 and one deviation
       \E flow \in {Odds(3)} :
       \E sg \in {[i \in 1..n |-> IF arr /\ kind = "svd" /\ ~flow THEN RE(1..3) ELSE 2]}, d \in {IF kind = "svd" THEN dim ELSE Min2(dim, 2)} :
       hist' = Append(hist, [op |-> "stat", kind |-> kind, exp |-> IF kind = "gs" \/ (flow /\ kind = "svd") THEN "exp" ELSE IF kind = "fourier" /\ (flow \/ ex = "1.5") THEN "gauss" ELSE ex, dim |-> d, L |-> L,
                             mu |-> IF kind = "gs" \/ flow THEN 0 ELSE mu, arr |-> arr /\ kind = "svd" /\ ~flow, flow |-> flow,
                             \* deviations and mean are sg / den, mu / den: the number of terms of a decomposition depends on the deviation
                             sg |-> sg, den |-> IF kind = "gs" THEN 1 ELSE RE({1, 1, 50, 50, 1000}), n |-> n, seed |-> RE(1..1000), axis |-> RE(1..d),
                             \* the tensor of correlation: none, in the axes, with other directions
                             aniso |-> IF kind = "svd" /\ ~flow THEN RE({0, 1, 2}) ELSE 0])
\* ---- the correlations of the decomposed field and its factors
GCov(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E dim \in {RE(1..3)}, n \in {RE(2..12)} :
       hist' = Append(hist, [op |-> "cov", kind |-> "svd", exp |-> RE({"exp", "gauss", "1.5"}), dim |-> dim, L |-> RE({1, 2, 4}), mu |-> RE(-2..2), sg |-> RE({1, 2}), den |-> RE({1, 50, 1000}),
                             n |-> n, axis |-> RE(1..dim), aniso |-> RE({0, 1, 2}), min |-> RE({1, 3, 10, 20}), max |-> RE({100, 1000})])
\* ---- porosity and conductivity: functions of a field, written down in full
GLaw(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E n \in {RE(1..5)} : \E b \in {RatN(RE(1..8), 8)}, x \in {[i \in 1..n |-> RatN(RE(0..12), RE({1, 2, 4}))]} :
       \E a \in {RatN(RE(0..(8 * b[1]) \div b[2]), 8)}, por \in {[i \in 1..n |-> RatN(RE(1..3), 4)]} :
       hist' = Append(hist, [op |-> "law", a |-> IF RLt(a, b) THEN a ELSE RatI(0), b |-> b, x |-> x, por |-> por, m |-> RE(1..3), f |-> RatN(RE(1..5), RE({1, 2})), visc |-> RatN(RE(1..4), RE({1, 2, 4})),
                             one |-> Odds(3)])
\* ---- the common base: mean and standard deviation per point or common
GBase(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E n \in {RE(1..5)}, n2 \in {RE(1..5)} :
       \E calls \in {[k \in 1..RE(1..3) |-> LET m == RE(1..5) IN
                       [pts |-> [i \in 1..m |-> <<RE(0..7), RE(0..4)>>],
                        mu |-> RE({<<>>, <<RE(-2..2)>>, [i \in 1..m |-> RE(-2..2)]}), sg |-> RE({<<>>, <<RE(1..3)>>, [i \in 1..m |-> RE(1..3)]})]]} :
       hist' = Append(hist, [op |-> "base", calls |-> calls, how |-> RE({"array", "list"})])
\* ---- mesh files
Toks == 1..12
PhysNames == {"bulk", "left side", ".bc_outflow", ".bc left", "r_1", "a-b"}
RMesh(z) ==
    LET nn == RE(1..6)
        nids == Draw(nn, {1, 2, 3, 5, 8, 13, 21, 34})
        ne == RE(0..5)
        eids == Draw(ne, {1, 2, 4, 7, 11, 100, 12345})
        phys == Draw(RE(0..4), PhysNames)
    IN [nodes |-> [i \in 1..nn |-> [id |-> nids[i], x |-> [c \in 1..3 |-> RE(Toks)]]],
        elems |-> [i \in 1..ne |-> LET t == RE({1, 2, 4, 15}) k == CASE t = 1 -> 2 [] t = 2 -> 3 [] t = 4 -> 4 [] t = 15 -> 1
                                   IN [id |-> eids[i], t |-> t, tags |-> [j \in 1..RE({1, 2, 2, 2, 3, 4}) |-> RE(1..99)], nodes |-> [j \in 1..k |-> RE({nids[q] : q \in 1..nn})]]],
        phys |-> [i \in DOMAIN phys |-> [n |-> phys[i], id |-> RE(1..9), dim |-> RE(0..3)]]]
GMesh(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E m \in {RMesh(z)}, how \in {RE({"self", "self", "own", "text2", "text1", "mixed"})}, again \in {Odds(2)} :
       hist' = Append(hist, [op |-> "mesh", m |-> IF how # "text1" THEN m ELSE [m EXCEPT !.phys = <<>>, !.elems = [i \in DOMAIN m.elems |-> [m.elems[i] EXCEPT !.tags = <<RE(1..9), RE(1..9)>>]]],
                             how |-> how, again |-> again])
FNames3 == <<"conductivity", "porosity", "flux 2">>
FNames == {"conductivity", "porosity", "flux 2"}
GData(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E ne \in {RE(1..5)}, fs \in {Draw(RE(1..3), FNames)} :
       \E ids \in {Draw(ne, {1, 2, 4, 7, 11, 100, 12345})} :
       \E fld \in {[k \in DOMAIN fs |-> LET nc == RE({1, 1, 3, 5, 9}) IN [n |-> fs[k], v |-> [i \in 1..ne |-> [c \in 1..nc |-> RE(Toks)]]]]} :
       hist' = Append(hist, [op |-> "data", ids |-> ids, fields |-> fld, how |-> RE({"path", "path", "own"}), m |-> RMesh(z)])
\* a file of another program: mesh and data of several times in one file
GDtime(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E ne \in {RE(1..4)}, fs \in {Draw(RE(1..2), FNames)} :
       \E ids \in {Draw(ne, {1, 2, 4, 7, 11, 100, 12345})} :
       \E fld \in {[k \in DOMAIN fs |-> LET nc == RE({1, 1, 3, 9}) ts == Draw(RE(1..3), 0..5) IN
                     [n |-> fs[k], s |-> [j \in DOMAIN ts |-> [i |-> ts[j], t |-> RE(Toks), v |-> [i \in 1..ne |-> [c \in 1..nc |-> RE(Toks)]]]]]]} :
       hist' = Append(hist, [op |-> "dtime", ids |-> ids, fields |-> fld, first |-> Odds(2), m |-> RMesh(z)])
\* a file of another program, in the words of the specification: sections in any order
GFile(z) == /\ UNCHANGED <<defs, sets>>
    /\ \E m \in {RMesh(z)}, nd \in {RE(0..3)}, sfx \in {Odds(2)} :
       \E data \in {[k \in 1..nd |-> LET nc == RE({1, 1, 3}) ids == Draw(RE(0..4), {1, 2, 4, 7, 11, 100, 12345}) IN
                       [n |-> IF sfx THEN "u" ELSE FNames3[k], i |-> k, t |-> RE(Toks), nc |-> nc, v |-> [j \in DOMAIN ids |-> [id |-> ids[j], v |-> [c \in 1..nc |-> RE(Toks)]]]]]} :
       \E parts \in {<<WNodes(m), WElems(m), WPhys(m), Other>> \o [k \in DOMAIN data |-> WData(data[k])]} :
       \E perm \in {Draw(Len(parts), 1..Len(parts))} :
       hist' = Append(hist, [op |-> "file", m |-> m, data |-> data, file |-> WHead \o Flat([k \in DOMAIN perm |-> parts[perm[k]]])])
Init == hist = <<>> /\ step = 0 /\ defs = <<>> /\ sets = 0
Next == /\ step < Depth /\ step' = step + 1
        /\ \E o \in {RE(Ops)} :
             CASE o = "set" -> SetOp(step) [] o = "real" -> GReal(step) [] o = "stat" -> GStat(step) [] o = "base" -> GBase(step) [] o = "cov" -> GCov(step) [] o = "law" -> GLaw(step)
               [] o = "mesh" -> GMesh(step) [] o = "data" -> GData(step) [] o = "dtime" -> GDtime(step) [] o = "file" -> GFile(step)
GSpec == Init /\ [][Next]_<<hist, step, defs, sets>>
Emit == step = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
