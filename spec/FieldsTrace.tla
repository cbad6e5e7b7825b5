---------------------------- MODULE FieldsTrace ----------------------------
EXTENDS Fields, MeshFile, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st
\* st: defs and, per set of fields, [on, outer, pts, regs]
Ev == Trace[l + 1]
NoSet == [on |-> FALSE, outer |-> <<>>, pts |-> <<>>, regs |-> <<>>]
Fresh == [defs |-> <<>>, sets |-> <<NoSet, NoSet>>]
AllNames(defs) == [k \in DOMAIN defs |-> defs[k].n]

SampleBad(e, s) ==
    LET set == st.sets[e.s]
        n == Len(set.pts)
        keys == {e.r[k].n : k \in DOMAIN e.r}
        shapes == \A k \in DOMAIN e.r : Len(e.r[k].v) = n
        known == {k \in DOMAIN e.r : \E j \in DOMAIN st.defs : st.defs[j].n = e.r[k].n}
        ok(D) == \A k \in known : LET d == Def(st.defs, e.r[k].n) IN
                    \A i \in 1..n : Inside(d, set.regs[i]) => e.r[k].v[i] = Val(st.defs, d, set.pts[i], D)
    IN Cl("OuterFields", keys = Rng(set.outer)) \cup
       (IF ~shapes THEN {"FieldShape"}
        ELSE Cl("OutsideRegions", \A k \in known : LET d == Def(st.defs, e.r[k].n) IN \A i \in 1..n : Inside(d, set.regs[i]) \/ e.r[k].v[i] = RatI(0))
             \cup Cl("FieldValues", \E D \in Draws(st.defs, e.lo, e.hi) : ok(D)))

\* one random field: values only up to equality classes, signs and degenerate cases
Coin(p, c) == \A i, j \in DOMAIN p : p[i] = p[j] => c[i] = c[j]
RealBad(e) ==
    Cl("RealLength", Len(e.c1) = Len(e.pts) /\ Len(e.c2) = Len(e.pts2))
    \cup Cl("CoincidentPoints", (Len(e.c1) = Len(e.pts) => Coin(e.pts, e.c1)) /\ (Len(e.c2) = Len(e.pts2) => Coin(e.pts2, e.c2)))
    \cup Cl("LogPositive", e.log => e.pos)
    \cup Cl("SeedDetermines", e.again)
    \cup Cl("NewRealization", e.sg = 0 \/ e.fresh)
    \cup Cl("NoVariance", e.sg # 0 \/ \A i \in DOMAIN e.v0 : e.v0[i] = RatI(e.mu))
\* statistics, in thousandths: n points on a line, neighbours at the distance of the correlation length
ExpT(k) == CASE k = 0 -> 1000 [] k = 1 -> 368 [] k = 2 -> 135 [] k = 3 -> 50 [] k = 4 -> 18 [] k = 5 -> 7 [] OTHER -> 0
Corr(ex, d) == IF ex = "1.5" THEN (CASE d = 0 -> 1000 [] d = 1 -> 368 [] d = 2 -> 59 [] d = 3 -> 6 [] OTHER -> 0) ELSE ExpT(IF ex = "exp" THEN d ELSE d * d)
StatBad(e) ==
    Cl("FieldMean", \A i \in 1..e.n : Abs(e.mean[i] - 1000 * e.mu) <= 130 * e.sg[i])
    \cup Cl("FieldDeviation", \A i \in 1..e.n : Abs(e.sd[i] - 1000 * e.sg[i]) <= 100 * e.sg[i])
    \cup Cl("FieldCorrelation", \A i, j \in 1..e.n : Abs(e.cor[i][j] - Corr(e.exp, Abs(i - j))) <= 130)
\* porosity: grows from a at 0 towards b; conductivity: the law of Kozeny and Carman
Ag(e, o) == e = o \/ e[2] > 20000
RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN RatI(1) ELSE RMul(x, RPow(x, k - 1))
LawBad(e) ==
    LET n == IF e.one THEN 1 ELSE Len(e.x) w == RSub(e.b, e.a) IN
    Cl("RangeOfPositive", Len(e.r) = n /\ \A i \in 1..n : Ag(RMul(e.b, RSub(RatI(1), RDiv(w, RAdd(e.b, RMul(w, e.x[i]))))), e.r[i]))
    \cup Cl("KozenyCarman", Len(e.k) = n /\ \A i \in 1..n : LET p == e.por[i] q == RSub(RatI(1), p) IN
              Ag(RDiv(RMul(e.f, RPow(p, 2 + e.m)), RMul(RMul(q, q), e.visc)), e.k[i]))
CovBad(e) ==
    Cl("CovarianceMatrix", Len(e.cov) = e.n /\ \A i, j \in 1..e.n : Abs(e.cov[i][j] - Corr(e.exp, Abs(i - j))) <= 1 + (IF Abs(i - j) > 5 THEN 2 ELSE 0))
    \* eigenvalues under a hundredth of the largest one may be left out
    \cup Cl("Decomposition", e.res <= e.eps)
\* the base class: means and deviations given with the points, or kept from before
Pick(a, i) == IF Len(a) = 1 THEN a[1] ELSE a[i]
RECURSIVE Last(_, _, _, _)
Last(calls, k, f, dflt) == IF k = 0 THEN dflt ELSE IF calls[k][f] # <<>> THEN calls[k][f] ELSE Last(calls, k - 1, f, dflt)
Fits(a, n) == Len(a) = 1 \/ Len(a) = n
BaseBad(e) ==
    UNION {LET c == e.calls[k] n == Len(c.pts) mu == Last(e.calls, k, "mu", <<0>>) sg == Last(e.calls, k, "sg", <<1>>) IN
           \* an array kept from before fits only as many points as it has
           IF ~(Fits(mu, n) /\ Fits(sg, n)) THEN (IF e.r[k].raised = "" /\ FALSE THEN {"BaseRefuses"} ELSE {})
           ELSE IF e.r[k].raised # "" THEN {"BaseAnswers"}
           ELSE Cl("BaseValues", Len(e.r[k].v) = n /\ \A i \in 1..n :
                      e.r[k].v[i] = RatI(Pick(mu, i) + Pick(sg, i) * (16 * W(c.pts[i]) + e.r[k].lo)))
           : k \in {k \in DOMAIN e.calls : \A j \in 1..(k - 1) : e.r[j].raised = ""}}
\* meshes
NodeF(m) == {<<m.nodes[i].id, m.nodes[i].x>> : i \in DOMAIN m.nodes}
ElemF(m) == {<<m.elems[i].id, m.elems[i].t, m.elems[i].tags, m.elems[i].nodes>> : i \in DOMAIN m.elems}
PhysF(m) == {<<m.phys[i].n, m.phys[i].id, m.phys[i].dim>> : i \in DOMAIN m.phys}
\* the text of the file, when the code wrote it, is a legal file of the same mesh
MeshFileBad(e) == IF e.file = <<>> THEN {} ELSE
    Cl("FileText", HeadOk(e.file) /\ ReadNodes(e.file) = NodeF(e.m) /\ ReadElems(e.file) = ElemF(e.m) /\ ReadPhys(e.file) = PhysF(e.m))
MeshBad(e) == Cl("Nodes", NodeF(e.r) = NodeF(e.m)) \cup Cl("Elements", ElemF(e.r) = ElemF(e.m)) \cup Cl("PhysicalNames", PhysF(e.r) = PhysF(e.m))
DataBad(e) ==
    LET want == {<<e.fields[k].n, {<<e.ids[i], e.fields[k].v[i]>> : i \in DOMAIN e.ids}>> : k \in DOMAIN e.fields}
        got == {<<e.r[k].n, {<<e.r[k].v[i].id, e.r[k].v[i].v>> : i \in DOMAIN e.r[k].v}>> : k \in DOMAIN e.r}
        text == {<<e.fields[k].n, 0, 1, {<<e.ids[i], e.fields[k].v[i]>> : i \in DOMAIN e.ids}>> : k \in DOMAIN e.fields}
    IN Cl("FileText", HeadOk(e.file) /\ ReadData(e.file) = text) \cup
       Cl("ElementData", got = want /\ Len(e.r) = Len(e.fields) /\ \A k \in DOMAIN e.r : Len(e.r[k].v) = Len(e.ids))
\* data of several times: every step under its index, with its time
DtimeBad(e) ==
    LET want == UNION {{<<e.fields[k].n, e.fields[k].s[j].i, e.fields[k].s[j].t, {<<e.ids[i], e.fields[k].s[j].v[i]>> : i \in DOMAIN e.ids}>> : j \in DOMAIN e.fields[k].s} : k \in DOMAIN e.fields}
        got == {<<e.d[k].n, e.d[k].i, e.d[k].t, {<<e.d[k].v[i].id, e.d[k].v[i].v>> : i \in DOMAIN e.d[k].v}>> : k \in DOMAIN e.d}
    IN Cl("ElementData", got = want /\ Len(e.d) = Cardinality(want)) \cup MeshBad(e)
\* a file of another program
FileBad(e) ==
    LET want == ReadData(e.file)
        got == {<<e.d[k].n, e.d[k].i, e.d[k].t, {<<e.d[k].v[i].id, e.d[k].v[i].v>> : i \in DOMAIN e.d[k].v}>> : k \in DOMAIN e.d}
    IN Cl("ElementData", got = want /\ Len(e.d) = Cardinality(want)) \cup MeshBad(e)
Judge(e) ==
    IF e.op = "begin" THEN {} ELSE IF e.raised # "" THEN {"Answers"} ELSE
    CASE e.op = "sample" -> SampleBad(e, st) [] e.op = "real" -> RealBad(e) [] e.op = "stat" -> StatBad(e)
      [] e.op = "base" -> BaseBad(e) [] e.op = "cov" -> CovBad(e) [] e.op = "law" -> LawBad(e) [] e.op = "mesh" -> MeshBad(e) \cup MeshFileBad(e) [] e.op = "data" -> DataBad(e) [] e.op = "dtime" -> DtimeBad(e) [] e.op = "file" -> FileBad(e) [] OTHER -> {}
Step(e) ==
    CASE e.op = "begin" -> Fresh
      [] e.op = "defs" -> [st EXCEPT !.defs = e.defs]
      [] e.op = "new" -> [st EXCEPT !.sets[e.s] = [NoSet EXCEPT !.on = TRUE, !.outer = AllNames(st.defs)]]
      [] e.op = "points" -> [st EXCEPT !.sets[e.s].pts = e.pts, !.sets[e.s].regs = e.regs]
      [] e.op = "outer" -> [st EXCEPT !.sets[e.s].outer = e.names]
      [] OTHER -> st
TraceInit == l = 0 /\ st = Fresh
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ st' = Step(Ev)
    /\ LET bad == Judge(Ev) IN
       IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
TraceSpec == TraceInit /\ [][TraceNext]_<<l, st>>
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
