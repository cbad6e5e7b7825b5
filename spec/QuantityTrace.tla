--------------------------- MODULE QuantityTrace ----------------------------
(* Recorded evaluations of quantities and estimates checked against Quantity.    *)
EXTENDS Quantity, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, defs, qs, data
tv == <<l, defs, qs, data>>
DefOps == {"idx", "bin", "cbin", "uf1", "uf2", "ufc", "red", "cmp", "ccmp", "lg", "sel", "cat", "interp", "moments", "moment", "cov"}

\* an observed number agrees with an expected one (unknown, or out of the reach of the observation: anything)
Ag(e, o) == e = o \/ e = RUnk \/ (e[2] > 20000) \/ (e[2] # 0 /\ Abs(e[1]) > 100000000)
AgVec(e, o) == Len(e) = Len(o) /\ \A i \in DOMAIN e : Ag(e[i], o[i])
AgV(e, o) == Len(e) = Len(o) /\ \A i \in DOMAIN e : AgVec(e[i], o[i])
AgSamples(e, o) == Len(e) = Len(o) /\ \A i \in DOMAIN e : AgV(e[i], o[i])

SeeOk(q, e) == Len(e.v) = Len(q.v) /\ \A k \in DOMAIN q.v :
                 IF q.mk THEN e.v[k] = q.v[k] ELSE AgSamples(q.v[k], e.v[k])
\* the estimate x of a quantity restricted to the component positions pos
EstClauses(x, pos, ty, e, lost) ==
    LET P(s) == [i \in DOMAIN pos |-> s[pos[i] + 1]] IN
      Cl("SampleCounts", e.ns = x.ns)
 \cup Cl("RemovedCounts", e.rm = x.rm)
 \cup Cl("LevelMeans", Len(e.lm) = Len(x.lm) /\ \A k \in DOMAIN x.lm : AgVec(P(x.lm[k]), e.lm[k]))
 \cup Cl("LevelVariances", Len(e.lv) = Len(x.lv) /\ \A k \in DOMAIN x.lv : AgVec(P(x.lv[k]), e.lv[k]))
 \cup Cl("Mean", AgVec(P(x.mean), e.mean))
 \cup Cl("Variance", AgVec(P(x.var), e.var))
 \cup Cl("MeanShape", ty.k = "array" => e.shape = MeanShape(ty))

Walk(t, keys) == LET RECURSIVE G(_, _, _)
                     G(k, ty, pos) == IF k > Len(keys) THEN [ok |-> TRUE, ty |-> ty, pos |-> pos]
                                      ELSE LET r == IndexType(ty, keys[k]) IN
                                           IF ~r.ok THEN [ok |-> FALSE, ty |-> ty, pos |-> <<>>]
                                           ELSE G(k + 1, r.ty, [i \in DOMAIN r.pos |-> pos[r.pos[i] + 1]])
                 IN G(1, t, Range(0, Size(t)))
\* subsampling: the recorded draws of one subsampled quantity
SubClauses(q, e) ==
    LET L == DOMAIN q.v IN
      Cl("SubsampleAccepted", e.raised = "")
 \cup (IF e.raised # "" THEN {} ELSE
      Cl("SubsampleSize", \A r \in DOMAIN e.draws : \A k \in L : Len(e.draws[r][k]) = e.vec[k])
 \cup Cl("SubsampleOfCollected", \A r \in DOMAIN e.draws : \A k \in L : \A i \in DOMAIN e.draws[r][k] : e.draws[r][k][i] \in Rng(q.v[k]))
 \cup Cl("SubsampleEstimated", \A r \in DOMAIN e.counts : \A k \in L : e.counts[r][k] = e.vec[k])
 \cup Cl("SubsampleEstimated", e.estraised = "" \/ SumSeq(e.vec) = 0 \/ \E k \in L : \E i \in DOMAIN q.v[k] : ~Usable(q.v[k][i]))
 \cup Cl("EverySampleReachable", e.many => \A k \in L : e.vec[k] > 0 =>
          \A i \in DOMAIN q.v[k] : \E r \in DOMAIN e.draws : \E j \in DOMAIN e.draws[r][k] : e.draws[r][k][j] = q.v[k][i]))
\* bootstrap of moments: every statistic lies between the extremes over the samples of its level
\* (recorded to three digits)
Close == <<1, 200>>
InBetween(x, S) == x[2] # 0 /\ (\E a \in S : RLe(a, RAdd(x, Close))) /\ (\E b \in S : RLe(x, RAdd(b, Close)))
Near(x, y) == x[2] # 0 /\ RLe(x, RAdd(y, Close)) /\ RLe(y, RAdd(x, Close))
BsClauses(q, m, e) ==
    LET L == DOMAIN q.v
        mq == [q EXCEPT !.v = MapQ(q, LAMBDA x : MomTop(m, x))]
        ds == [k \in L |-> LevelDiffs(mq, k)]
        vals(k, c) == {ds[k][i][c] : i \in DOMAIN ds[k]}
        const(k, c) == Cardinality(vals(k, c)) = 1
    IN Cl("BootstrapAccepted", e.raised = "")
 \cup (IF e.raised # "" THEN {} ELSE
      Cl("BootstrapMeans", e.own = m.size /\ Len(e.lm) = Len(q.v) /\ \A k \in L : Len(e.lm[k]) = m.size /\ \A c \in 1..m.size : InBetween(e.lm[k][c], vals(k, c)))
 \cup Cl("BootstrapConstant", \A k \in L : \A c \in 1..m.size : const(k, c) => ((\E y \in vals(k, c) : Near(e.lm[k][c], y)) /\ (e.vec[k] > 1 => Near(e.lv[k][c], RatI(0))) /\ Near(e.vm[k][c], RatI(0))))
 \cup Cl("BootstrapSpread", \A k \in L : \A c \in 1..m.size : (~const(k, c) /\ e.vec[k] > 1 /\ e.vec[k] < Len(ds[k])) => e.pos[k][c]))

Judge(e, x) ==
    CASE e.op = "begin" -> Cl("StorageUsable", e.raised = "")
      [] e.op \in DefOps ->
           (IF x.st = "ok" THEN Cl("Accepted", e.raised = "")
            ELSE IF x.st = "refuse" THEN Cl("Refused", e.raised # "") ELSE {})
      [] e.op = "grow" -> Cl("Accepted", e.raised = "")
      [] e.op = "see" -> (IF e.raised # "" THEN {"Evaluates"} ELSE Cl("Values", SeeOk(qs[e.q], e)))
      [] e.op = "est" ->
           (IF NothingLeft(qs[e.q]) THEN Cl("NothingToEstimate", e.raised # "")
            ELSE IF e.raised # "" THEN {"Estimates"}
            ELSE EstClauses(Estimate(qs[e.q]), Range(0, Size(qs[e.q].ty)), qs[e.q].ty, e, 0))
      [] e.op = "midx" ->
           (IF NothingLeft(qs[e.q]) THEN {}
            ELSE LET w == Walk(qs[e.q].ty, e.keys) IN
                 IF ~w.ok THEN Cl("MeanKeyRefused", e.raised # "")
                 ELSE IF e.raised # "" THEN {"MeanIndexes"}
                 ELSE {"Mean" \o "Index" : c \in EstClauses(Estimate(qs[e.q]), w.pos, w.ty, e, 0)})
      [] e.op = "sub" -> SubClauses(qs[e.q], e)
      [] e.op = "foreign" -> Cl("ForeignRefused", e.raised # "")
      [] e.op = "first" ->
           (IF e.raised # "" THEN {"FirstSamples"}
            ELSE LET v == qs[e.q].v[e.l] IN
                 IF e.n = 0 THEN Cl("FirstSamples", e.v # <<>> /\ Len(e.v) <= Len(v) /\ AgSamples(SubSeq(v, 1, Min2(Len(e.v), Len(v))), e.v))
                 ELSE Cl("FirstSamples", AgSamples(SubSeq(v, 1, Min2(e.n, Len(v))), e.v)))
      [] e.op = "estm" ->
           (LET q == Eval(EstmDef(e), qs, data, Len(qs) + 1) IN
            IF NothingLeft(q) THEN Cl("NothingToEstimate", e.raised # "")
            ELSE IF e.raised # "" THEN {"Estimates"}
            ELSE LET es == Estimate(q) IN
                 IF e.what = "reg" THEN Cl("LevelVariances", e.own = e.m.size /\ Len(e.lv) = Len(es.lv) /\ \A k \in DOMAIN es.lv : AgVec(es.lv[k], e.lv[k])) ELSE
                 IF e.what = "vars" THEN Cl("SampleCounts", e.ns = es.ns) \cup Cl("LevelVariances", Len(e.lv) = Len(es.lv) /\ \A k \in DOMAIN es.lv : AgVec(es.lv[k], e.lv[k]))
                 ELSE Cl("Mean", AgVec(es.mean, e.mean)) \cup Cl("Variance", AgVec(es.var, e.var)))
      [] e.op = "boot" -> BsClauses(qs[e.q], e.m, e)
      [] OTHER -> {}

TraceInit == l = 0 /\ defs = <<>> /\ qs = <<>> /\ data = <<>>
TraceNext ==
    /\ l < Len(Trace)
    /\ LET e == Trace[l + 1] IN
       /\ CASE e.op = "begin" -> /\ data' = e.data /\ defs' = <<[op |-> "root", specs |-> e.specs]>> /\ qs' = EvalAll(defs', e.data)
            [] e.op \in DefOps -> /\ defs' = Append(defs, e) /\ UNCHANGED data /\ qs' = Append(qs, Eval(e, qs, data, Len(qs) + 1))
            [] e.op = "grow" -> /\ data' = [data EXCEPT ![e.l] = @ \o e.more] /\ UNCHANGED defs /\ qs' = EvalAll(defs, data')
            [] OTHER -> UNCHANGED <<data, defs, qs>>
       /\ l' = l + 1
       /\ LET bad == Judge(e, IF e.op \in DefOps THEN qs'[Len(qs')] ELSE [st |-> "-"]) IN
          IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
TraceSpec == TraceInit /\ [][TraceNext]_tv
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
