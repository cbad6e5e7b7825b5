---------------------------- MODULE NumericTrace ----------------------------
EXTENDS Numeric, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l
Ag(e, o) == e = o \/ e = RUnk \/ (e[2] > 20000) \/ (e[2] # 0 /\ Abs(e[1]) > 100000000)
AgVec(e, o) == Len(e) = Len(o) /\ \A i \in DOMAIN e : Ag(e[i], o[i])

Rows(m, x, n) == [j \in DOMAIN x |-> [i \in 1..n |-> Mo(m, x[j], i - 1)]]
DerRows(m, x, d) == [j \in DOMAIN x |-> [i \in 1..m.size |-> MoDer(m, x[j], i - 1, d)]]
OutShape(e) == IF e.shape = <<>> THEN <<1>> ELSE e.shape
MomExpect(e) ==
    LET m == e.m x == e.x IN
    CASE e.call = "all" -> [sh |-> Append(OutShape(e), m.size), v |-> Flat(Rows(m, x, m.size))]
      [] e.call = "size" -> [sh |-> Append(OutShape(e), e.size), v |-> Flat(Rows(m, x, e.size))]
      [] e.call = "resize" -> [sh |-> Append(OutShape(e), e.size), v |-> Flat(Rows(m, x, e.size))]
      [] e.call = "single" -> [sh |-> OutShape(e), v |-> [j \in DOMAIN x |-> Mo(m, x[j], e.i)]]
      \* (the zeroth monomial of a point outside: a power of nothing, or one)
      [] e.call = "eval" -> [sh |-> OutShape(e), v |-> [j \in DOMAIN x |-> IF m.kind = "monomial" /\ e.i = 0 /\ m.safe /\ Out01(m, x[j]) THEN RUnk ELSE Mo(m, x[j], e.i)]]
      [] e.call = "der" -> [sh |-> Append(OutShape(e), m.size), v |-> Flat(DerRows(m, x, e.d))]
      [] e.call = "diff" -> [sh |-> Append(OutShape(e), m.size), v |-> Flat(DerRows(m, x, e.d))]
      [] e.call = "trans" -> [sh |-> Append(OutShape(e), Len(e.mat)), v |-> Flat([j \in DOMAIN x |-> Combine(e.mat, Rows(m, x, m.size)[j])])]
      [] e.call \in {"tder", "tdiff"} -> [sh |-> Append(OutShape(e), Len(e.mat)), v |-> Flat([j \in DOMAIN x |-> Combine(e.mat, DerRows(m, x, e.d)[j])])]
      [] e.call = "inv" -> [sh |-> OutShape(e), v |-> [j \in DOMAIN x |-> IF m.log /\ Edge01(m, x[j]) THEN RUnk ELSE IF m.safe /\ Out01(m, x[j]) THEN RNaN ELSE x[j]]]
Floats(ns) == [i \in DOMAIN ns |-> ns[i]]
EqExpect(e) == CASE e.w = "same" -> TRUE [] e.w = "ref" -> e.m.ref = <<>> [] OTHER -> FALSE
\* variance regression: powers of two on steps that are powers of two
RegVar(c, s, e0, k) == IF k = 0 THEN RatI(c.v0) ELSE LET h == -(e0 + s * k) IN PowB(2, c.A + c.B * h + (IF s = 1 THEN c.C * h * h ELSE 0))
Judge(e) ==
    IF e.raised # "" /\ e.op # "begin" THEN {"Answers"} ELSE
    CASE e.op = "mom" -> LET x == MomExpect(e) IN Cl("MomentShape", e.rsh = x.sh) \cup Cl("MomentValues", AgVec(x.v, e.r))
      [] e.op = "eq" -> Cl("MomentEquality", e.r = EqExpect(e))
      [] e.op = "alloc" ->
           Cl("OptimalCounts", Len(e.r) = Len(e.sc) /\ \A k \in DOMAIN e.sc :
                LET S == NSamples(e.sv, e.sc, e.tgt, k) IN S = {} \/ e.r[k] \in S)
      [] e.op = "levels" -> Cl("LevelParameters", e.r = [i \in 1..e.n |-> Geo(e.b, e.e0, e.e1, e.n, i - 1)])
      [] e.op = "ns" ->
           Cl("InitialCounts",
              CASE e.how = "geo" -> e.r = [i \in 1..e.n |-> PowB(2, IF e.n = 1 THEN e.e0 ELSE e.e0 + ((e.e1 - e.e0) * (i - 1)) \div (e.n - 1))[1]]
                [] e.how = "full" -> e.r = e.full
                [] OTHER ->
                     LET a == IF e.how = "none" THEN 100 ELSE e.x0
                         b == IF e.how = "any" THEN e.x1 ELSE 3 IN
                     /\ Len(e.r) = e.n /\ e.r[1] = a /\ (e.n > 1 => e.r[e.n] = b)
                     /\ \A i \in 1..(e.n - 1) : IF a >= b THEN e.r[i] >= e.r[i + 1] ELSE e.r[i] <= e.r[i + 1]
                     \* geometric: neighbours differ from the geometric mean by rounding only
                     /\ \A i \in 2..(e.n - 1) : LET p == e.r[i - 1] q == e.r[i + 1] c == e.r[i] IN
                           (2 * c + 1) * (2 * c + 1) >= (2 * p - 1) * (2 * q - 1) /\ (2 * c - 1) * (2 * c - 1) <= (2 * p + 1) * (2 * q + 1))
      [] e.op = "vec" -> Cl("SampleVector", e.r = IF e.given THEN SubSeq(e.v, 1, e.n) ELSE e.coll)
      [] e.op = "dom" ->
           LET ls == [k \in DOMAIN e.ls |-> SelectSeq(e.ls[k], LAMBDA x : x # RNaN)] IN
           Cl("DomainEstimate", AgVec(Domain(ls, e.p), e.r))
      [] e.op = "reg" ->
           Cl("RegressedVariances", Len(e.r) = e.L /\ \A k \in 1..e.L :
                /\ e.r[k][1] = RatI(0)
                /\ \A c \in DOMAIN e.co : Ag(IF e.free THEN e.raw[c][k] ELSE RegVar(e.co[c], e.s, e.e0, k - 1), e.r[k][c + 1]))
      [] OTHER -> {}
TraceInit == l = 0
TraceNext ==
    /\ l < Len(Trace) /\ l' = l + 1
    /\ LET bad == Judge(Trace[l + 1]) IN
       IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
TraceSpec == TraceInit /\ [][TraceNext]_l
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
