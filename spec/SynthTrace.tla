----------------------------- MODULE SynthTrace ----------------------------
EXTENDS Synth, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, cur, lev, n, len
\* cur[kind]: the newest simulation of the class; lev[kind]: its levels; n, len: failures and samples since it was made
Zero == [base |-> 0, ws |-> 0]
None == [base |-> <<>>, ws |-> <<>>]
Ag(e, o) == e = o \/ e[2] > 20000
NewBad(e) == Cl("Usable", e.raised = "") \cup (IF e.raised # "" THEN {} ELSE
    Cl("Workspace", e.needs = (e.kind = "ws"))
    \cup Cl("DefaultFormat", e.fmt = "own" \/ e.format = <<[name |-> "length", unit |-> "m", shape |-> <<2, 1>>, times |-> <<1, 2, 3>>, locs |-> <<"10", "20">>],
                                                          [name |-> "width", unit |-> "mm", shape |-> <<2, 1>>, times |-> <<1, 2, 3>>, locs |-> <<"30", "40">>]>>))
LevelBad(e) == Cl("Usable", e.raised = "") \cup (IF e.raised # "" THEN {} ELSE
    Cl("Cost", IF e.kind = "ws" THEN Ag(RatN(1, 20000), e.task) ELSE Ag(Ops(e.hf, cur[e.kind].c), e.task))
    \cup Cl("CostEstimate", Ag(Ops(e.hf, IF e.kind = "ws" THEN 2 ELSE cur[e.kind].c), e.nops))
    \cup Cl("Workspace", e.needs = (e.kind = "ws") /\ e.common = (e.kind = "ws")))
\* one calculation: k-th of the event
RECURSIVE CalcBad(_, _, _, _)
CalcBad(e, k, nn, ll) ==
    IF k > Len(e.r) THEN {}
    ELSE LET c == cur[e.kind] L == lev[e.kind][e.lev] r == e.r[k] failed == r.raised # ""
             tol == 3
         IN (IF c.distr = "nan" THEN Cl("NanIsFailure", failed = r.isnan)
             ELSE Cl("FailingShare", Band(IF failed THEN nn + 1 ELSE nn, ll + 1, c.f)))
            \cup (IF failed THEN Cl("NoHalfResult", r.fine = <<>>)
                  ELSE IF r.isnan THEN {} ELSE Cl("Fine", Near(r.fine, FineOf(c.fm, r.x, r.s, L.hf, L.hc), tol))
                       \cup Cl("Coarse", Near(r.coarse, CoarseOf(c.fm, r.x, r.s, L.hc), tol)))
            \cup CalcBad(e, k + 1, IF failed /\ c.distr # "nan" THEN nn + 1 ELSE nn, ll + 1)
FnBad(e) == Cl("SampleFunction", Abs(e.y - (e.x * 1000000 + (e.h[1] * e.s) \div e.h[2])) <= 3 /\ e.y0 = e.x * 1000000)
Flatn(s) == SS(s)[1] = 0
TBad(e) == IF Flatn(e.s) THEN {} ELSE LET g == TMargin(T2Of(e.s, e.mu), Len(e.s) - 1, e.m) IN IF ~Judged(g) THEN {} ELSE Cl("TTest", e.pass = (g > 0))
ChiBad(e) == IF Flatn(e.s) THEN {} ELSE
    LET c == ChiStat(e.s, e.v) t == (c[1] * 10000) \div c[2] lo == ChiLow(Len(e.s) - 1, e.m) hi == ChiHigh(Len(e.s) - 1, e.m)
    IN IF Abs(t - lo) <= 20 \/ Abs(t - hi) <= 20 THEN {} ELSE Cl("Chi2Test", e.pass = (t > lo /\ t < hi))
\* (with equal means of the groups the statistic is rounding noise of either sign: not judged)
AnovaBad(e) ==
    LET nu == Len(Flat(e.g)) - Len(e.g) IN
    IF SumSeqR([i \in DOMAIN e.g |-> SS(e.g[i])])[1] = 0 \/ FStat(e.g)[1] = 0 \/ (IF Len(e.g) = 2 THEN nu \notin {2, 4} ELSE nu % 2 = 1) THEN {}
    ELSE LET g == FMargin(e.g, <<1, 20>>) IN IF ~Judged(g) THEN {} ELSE Cl("Anova", e.answer = (g > 0))
Judge(e) == CASE e.op = "begin" -> {} [] e.op = "new" -> NewBad(e) [] e.op = "level" -> LevelBad(e)
              [] e.op = "calc" -> CalcBad(e, 1, n[e.kind], len[e.kind]) [] e.op = "fn" -> FnBad(e)
              [] e.op = "t" -> Cl("Usable", e.raised = "") \cup TBad(e) [] e.op = "chi2" -> Cl("Usable", e.raised = "") \cup ChiBad(e)
              [] e.op = "anova" -> Cl("Usable", e.raised = "") \cup AnovaBad(e)
NFailed(r) == Len(SelectSeq(r, LAMBDA x : x.raised # ""))
TraceInit == l = 0 /\ cur = None /\ lev = None /\ n = Zero /\ len = Zero
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ LET e == Trace[l + 1] bad == Judge(e) IN
       /\ IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
       /\ CASE e.op = "begin" -> cur' = None /\ lev' = None /\ n' = Zero /\ len' = Zero
            [] e.op = "new" -> /\ cur' = [cur EXCEPT ![e.kind] = e] /\ lev' = [lev EXCEPT ![e.kind] = <<>>]
                               /\ n' = [n EXCEPT ![e.kind] = 0] /\ len' = [len EXCEPT ![e.kind] = 0]
            [] e.op = "level" -> lev' = [lev EXCEPT ![e.kind] = Append(@, e)] /\ UNCHANGED <<cur, n, len>>
            [] e.op = "calc" -> /\ n' = [n EXCEPT ![e.kind] = @ + NFailed(e.r)]
                                /\ len' = [len EXCEPT ![e.kind] = @ + Len(e.r)] /\ UNCHANGED <<cur, lev>>
            [] OTHER -> UNCHANGED <<cur, lev, n, len>>
TraceSpec == TraceInit /\ [][TraceNext]_<<l, cur, lev, n, len>>
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
