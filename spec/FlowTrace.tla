----------------------------- MODULE FlowTrace -----------------------------
EXTENDS Flow, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l
Want(m) == {<<m.elems[k].id, Point(m, k), m.elems[k].tags[1]>> : k \in Bulk(m)}
Uniq(m) == \A j, k \in DOMAIN m.elems : m.elems[j].id = m.elems[k].id => j = k
ExtractBad(e) ==
    Cl("ExtractedElements", {<<e.r[i].id, e.r[i].p, e.r[i].reg>> : i \in DOMAIN e.r} = Want(e.m) /\ Len(e.r) = Cardinality(Want(e.m)))
    \cup Cl("RegionMap", {<<e.map[i].n, e.map[i].id>> : i \in DOMAIN e.map} = {<<e.m.phys[i].n, e.m.phys[i].id>> : i \in DOMAIN e.m.phys})
\* the k-th run works on the mesh of its own level (fine) or of the level below (coarse)
MeshOf(e, k) == e.ms[IF k = 1 THEN e.lev ELSE e.lev - 1]
PointOf(m, id) == Point(m, CHOOSE k \in DOMAIN m.elems : m.elems[k].id = id)
RunIds(e, k) == {e.runs[k].v[i].id : i \in DOMAIN e.runs[k].v}
Entries(e) == UNION {{<<k, i>> : i \in DOMAIN e.runs[k].v} : k \in DOMAIN e.runs}
FlowBad(e) ==
    LET ids == \A k \in DOMAIN e.runs : RunIds(e, k) = {MeshOf(e, k).elems[j].id : j \in Bulk(MeshOf(e, k))} /\ Len(e.runs[k].v) = Cardinality(RunIds(e, k))
        val(x) == e.runs[x[1]].v[x[2]]
    IN Cl("Runs", Len(e.runs) = NRuns(e.lev, e.plan))
       \cup Cl("RunInput", \A k \in DOMAIN e.runs : e.runs[k].mesh = (IF k = 1 THEN e.lev ELSE e.lev - 1) /\ e.runs[k].names = <<"conductivity">> /\ e.runs[k].tmpl)
       \cup (IF ~ids THEN {"FieldsOfElements"}
             ELSE Cl("OneRealization", \A x, y \in Entries(e) : PointOf(MeshOf(e, x[1]), val(x).id) = PointOf(MeshOf(e, y[1]), val(y).id) => val(x).c = val(y).c)
                  \cup Cl("NoVariance", e.sg # 0 \/ \A x \in Entries(e) : val(x).r = RatI(IF e.log THEN 1 ELSE 0)))
       \cup Cl("SeedDetermines", e.again)
       \cup Cl("SeedMatters", e.sg = 0 \/ e.other)
       \cup Cl("FailureShown", (e.failed # "") = Fails(e.lev, e.plan))
       \cup Cl("FlowResults", Fails(e.lev, e.plan) \/ e.failed # "" \/ e.res = Results(e.lev, e.plan))
       \cup Cl("LevelDescription", e.desc)
RECURSIVE Cat(_, _)
Val(e, n) == e.params[CHOOSE k \in DOMAIN e.params : e.params[k].n = n].v
Has(e, n) == \E k \in DOMAIN e.params : e.params[k].n = n
Cat(e, k) == IF k = 0 THEN "" ELSE Cat(e, k - 1) \o (LET t == e.toks[k] IN IF ~t.p THEN t.s ELSE IF Has(e, t.s) THEN Val(e, t.s) ELSE "<" \o t.s \o ">")
SubstBad(e) == Cl("Substituted", e.r = Cat(e, Len(e.toks)))
               \cup Cl("UsedParameters", {e.used[i] : i \in DOMAIN e.used} = {e.toks[k].s : k \in {k \in DOMAIN e.toks : e.toks[k].p /\ Has(e, e.toks[k].s)}})
Judge(e) ==
    IF e.op = "begin" THEN {} ELSE IF e.raised # "" THEN {"Answers"} ELSE
    CASE e.op = "extract" -> (IF Uniq(e.m) THEN ExtractBad(e) ELSE {})
      [] e.op = "flow" -> (IF \A k \in DOMAIN e.ms : Uniq(e.ms[k]) THEN FlowBad(e) ELSE {})
      [] e.op = "subst" -> SubstBad(e) [] OTHER -> {}
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ LET bad == Judge(Trace[l + 1]) IN
       IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
