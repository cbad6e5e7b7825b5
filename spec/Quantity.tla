------------------------------ MODULE Quantity ------------------------------
(* Quantities: what every expression over the collected samples denotes, and    *)
(* the MLMC estimator of its mean.                                              *)
(*                                                                              *)
(* data : sequence (levels) of sequences (samples) of <<fine, coarse>> vectors, *)
(*        level 1 (the code's level 0) only <<fine>>; components are rationals. *)
(* A quantity is                                                                *)
(*   [st, ty, tid, sel, mk, v]   st "ok" | "refuse" | "either"                  *)
(*   v[l] sequence of samples, a sample is a sequence of 1 or 2 vectors         *)
(*   a mask (mk) has BOOLEAN samples.                                           *)
EXTENDS Util

\* ---- arithmetic that gives up (RUnk) before leaving 32 bits
RUnk == <<5, 0>>
Fits(a) == a[2] # 0 /\ Abs(a[1]) <= 30000 /\ a[2] <= 30000
Num2(a, b, f(_, _)) == IF a = RNaN \/ b = RNaN THEN RNaN
                       ELSE IF ~Fits(a) \/ ~Fits(b) THEN RUnk ELSE f(a, b)
QAdd(a, b) == Num2(a, b, RAdd)
QSub(a, b) == Num2(a, b, RSub)
QMul(a, b) == Num2(a, b, RMul)
QDiv0(a, b) == IF b[1] = 0 THEN RUnk ELSE RDiv(a, b)
QDiv(a, b) == Num2(a, b, QDiv0)
RFloor(a) == a[1] \div a[2]
QMod0(a, b) == IF b[1] = 0 THEN RUnk
               ELSE LET k == RFloor(RDiv(a, b)) IN IF Abs(k) > 30000 THEN RUnk ELSE RSub(a, RMul(RatI(k), b))
QMod(a, b) == Num2(a, b, QMod0)
RMax(a, b) == IF RLt(a, b) THEN b ELSE a
RMin(a, b) == IF RLt(b, a) THEN b ELSE a
QMax(a, b) == Num2(a, b, RMax)
QMin(a, b) == Num2(a, b, RMin)
Bin(op, a, b) == CASE op = "+" -> QAdd(a, b) [] op = "-" -> QSub(a, b) [] op = "*" -> QMul(a, b)
                   [] op = "/" -> QDiv(a, b) [] op = "%" -> QMod(a, b)
                   [] op = "maximum" -> QMax(a, b) [] op = "minimum" -> QMin(a, b)
Un(op, a) == CASE op = "absolute" -> QMax(a, QSub(RatI(0), a)) [] op = "negative" -> QSub(RatI(0), a)
               [] op = "square" -> QMul(a, a)
               [] op = "floor" -> (IF a[2] = 0 THEN a ELSE RatI(RFloor(a)))
CmpR(op, a, b) == CASE op = "<" -> RLt(a, b) [] op = "<=" -> RLe(a, b) [] op = ">" -> RLt(b, a)
                    [] op = ">=" -> RLe(b, a) [] op = "==" -> a = b [] op = "!=" -> a # b
Cmp(op, a, b) == IF a = RNaN \/ b = RNaN THEN op = "!=" ELSE CmpR(op, a, b)

\* ---- types
Scalar == [k |-> "scalar"]
ArrayT(sh, of) == [k |-> "array", sh |-> sh, of |-> of]
RECURSIVE Size(_)
Size(t) == CASE t.k = "scalar" -> 1
             [] t.k = "array" -> ProdSeq(t.sh) * Size(t.of)
             [] t.k = "ts" -> Len(t.t) * Size(t.of)
             [] t.k = "field" -> Len(t.f) * Size(t.of)
             [] t.k = "dict" -> SumSeq([i \in DOMAIN t.it |-> Size(t.it[i].ty)])
RECURSIVE Replace(_, _)
Replace(t, s) == CASE t.k = "scalar" -> s
                   [] t.k = "dict" -> [t EXCEPT !.it = [i \in DOMAIN t.it |-> [t.it[i] EXCEPT !.ty = Replace(@, s)]]]
                   [] OTHER -> [t EXCEPT !.of = Replace(@, s)]
RootType(specs) ==
    [k |-> "dict", it |-> [i \in DOMAIN specs |->
        [key |-> specs[i].name,
         ty |-> [k |-> "ts", t |-> specs[i].times,
                 of |-> [k |-> "field", f |-> specs[i].locs, of |-> ArrayT(specs[i].shape, Scalar)]]]]]

\* ---- array keys: a sequence of [k |-> "i", v], [k |-> "s", a, b, st] (99: absent), [k |-> "e"]
None == 99
SlicePos(n, a, b, st) ==
    IF st > 0 THEN
        LET c(x) == IF x < 0 THEN Max2(0, x + n) ELSE Min2(x, n)
            lo == IF a = None THEN 0 ELSE c(a)
            hi == IF b = None THEN n ELSE c(b)
        IN IF hi <= lo THEN <<>> ELSE [i \in 1..((hi - lo + st - 1) \div st) |-> lo + (i - 1) * st]
    ELSE
        LET c(x) == IF x < 0 THEN Max2(-1, x + n) ELSE Min2(x, n - 1)
            hi == IF a = None THEN n - 1 ELSE c(a)
            lo == IF b = None THEN -1 ELSE c(b)
        IN IF hi <= lo THEN <<>> ELSE [i \in 1..((hi - lo - st - 1) \div (-st)) |-> hi + (i - 1) * st]
DimPos(n, it) == IF it.k = "i" THEN (IF it.v >= n \/ it.v < -n THEN <<>> ELSE <<IF it.v < 0 THEN it.v + n ELSE it.v>>)
                 ELSE SlicePos(n, it.a, it.b, it.st)
FullSlice == [k |-> "s", a |-> None, b |-> None, st |-> 1]
Expand(key, nd) ==
    LET es == {i \in DOMAIN key : key[i].k = "e"}
        fill(n) == [i \in 1..n |-> FullSlice]
    IN IF es = {} THEN key \o fill(nd - Len(key))
       ELSE LET e == CHOOSE i \in es : TRUE
            IN SubSeq(key, 1, e - 1) \o fill(nd - (Len(key) - 1)) \o SubSeq(key, e + 1, Len(key))
RECURSIVE FlatPos(_, _)
FlatPos(sh, ps) == IF sh = <<>> THEN <<0>>
                   ELSE LET inner == FlatPos(Tail(sh), Tail(ps)) w == ProdSeq(Tail(sh))
                        IN Flat([i \in DOMAIN ps[1] |-> [j \in DOMAIN inner |-> ps[1][i] * w + inner[j]]])
KeyItems(key) == Cardinality({i \in DOMAIN key : key[i].k # "e"})
\* [ok, pos (flat, 0-based), sh] of indexing an array of shape sh
ArrKey(sh, key) ==
    IF KeyItems(key) > Len(sh) THEN [ok |-> FALSE, pos |-> <<>>, sh |-> <<>>]
    ELSE LET full == Expand(key, Len(sh))
             ps == [i \in DOMAIN sh |-> DimPos(sh[i], full[i])]
             keep == SelectSeq([i \in DOMAIN sh |-> i], LAMBDA i : full[i].k = "s")
         IN [ok |-> \A i \in DOMAIN ps : ps[i] # <<>>,
             pos |-> IF \A i \in DOMAIN ps : ps[i] # <<>> THEN FlatPos(sh, ps) ELSE <<>>,
             sh |-> [i \in DOMAIN keep |-> Len(ps[keep[i]])]]
\* the positions (0-based) of the components that key selects in type t, and the new type
\* k: [k |-> "str", s] | [k |-> "time", t] | [k |-> "arr", key]
Refused == [ok |-> FALSE, pos |-> <<>>, ty |-> Scalar]
Range(start, n) == [i \in 1..n |-> start + i - 1]
Blocks(pos, s) == Flat([i \in DOMAIN pos |-> Range(pos[i] * s, s)])
IndexType(t, key) ==
    CASE t.k = "dict" ->
           (LET hit == {i \in DOMAIN t.it : t.it[i].key = key.s} IN
            IF hit = {} THEN Refused
            ELSE LET i == CHOOSE i \in hit : TRUE
                     st == SumSeq([j \in 1..(i - 1) |-> Size(t.it[j].ty)])
                 IN [ok |-> TRUE, pos |-> Range(st, Size(t.it[i].ty)), ty |-> t.it[i].ty])
      [] t.k = "ts" ->
           (LET hit == {i \in DOMAIN t.t : t.t[i] = key.t} IN
            IF hit = {} THEN Refused
            ELSE LET i == CHOOSE i \in hit : TRUE n == Size(t.of)
                 IN [ok |-> TRUE, pos |-> Range((i - 1) * n, n), ty |-> t.of])
      [] t.k = "field" ->
           (LET hit == {i \in DOMAIN t.f : t.f[i] = key.s} IN
            IF hit = {} THEN Refused
            ELSE LET i == CHOOSE i \in hit : TRUE n == Size(t.of)
                 IN [ok |-> TRUE, pos |-> Range((i - 1) * n, n), ty |-> t.of])
      [] t.k = "array" ->
           (LET a == ArrKey(t.sh, key.key) IN
            IF ~a.ok THEN Refused
            ELSE [ok |-> TRUE, pos |-> Blocks(a.pos, Size(t.of)),
                  ty |-> IF a.sh = <<>> \/ a.sh = <<1>> THEN t.of ELSE ArrayT(a.sh, t.of)])
      [] OTHER -> Refused
IndexTid(q, key, i, r) ==
    CASE q.ty.k = "dict" -> q.tid \o "." \o key.s
      [] q.ty.k = "array" /\ r.ty # q.ty.of -> "n" \o ToString(i)
      [] OTHER -> q.tid \o ".in"

\* ---- quantities
Q(ty, tid, sel, v) == [st |-> "ok", ty |-> ty, tid |-> tid, sel |-> sel, mk |-> FALSE, v |-> v]
Mask(sel, v) == [st |-> "ok", ty |-> Scalar, tid |-> "mask", sel |-> sel, mk |-> TRUE, v |-> v]
QRef == [st |-> "refuse", ty |-> Scalar, tid |-> "", sel |-> 0, mk |-> FALSE, v |-> <<>>]
\* componentwise map of the parts of every sample
MapQ(q, f(_)) == [l \in DOMAIN q.v |-> [i \in DOMAIN q.v[l] |-> [p \in DOMAIN q.v[l][i] |-> f(q.v[l][i][p])]]]
BVec(op, x, y) == LET n == Max2(Len(x), Len(y)) IN
    [i \in 1..n |-> Bin(op, x[IF Len(x) = 1 THEN 1 ELSE i], y[IF Len(y) = 1 THEN 1 ELSE i])]
AllCmp(op, x, y) == LET n == Max2(Len(x), Len(y)) IN
    \A i \in 1..n : Cmp(op, x[IF Len(x) = 1 THEN 1 ELSE i], y[IF Len(y) = 1 THEN 1 ELSE i])
ZipQ(a, b, f(_, _)) == [l \in DOMAIN a.v |-> [i \in DOMAIN a.v[l] |-> [p \in DOMAIN a.v[l][i] |-> f(a.v[l][i][p], b.v[l][i][p])]]]
VSize(q) == Size(q.ty)
Compat(a, b) == VSize(a) = VSize(b) \/ VSize(b) = 1
Compat2(a, b) == Compat(a, b) \/ VSize(a) = 1

RECURSIVE LegAt(_, _)
LegAt(x, n) == IF n = 0 THEN RatI(1) ELSE IF n = 1 THEN x
               ELSE QDiv(QSub(QMul(QMul(RatI(2 * n - 1), x), LegAt(x, n - 1)), QMul(RatI(n - 1), LegAt(x, n - 2))), RatI(n))
RECURSIVE PowAt(_, _)
PowAt(x, n) == IF n = 0 THEN RatI(1) ELSE QMul(x, PowAt(x, n - 1))
\* the generalized moments 0..R-1 of x; outside the domain they are all undefined
MomRef(m, x) == LET u == QDiv(QSub(x, m.a), QSub(m.b, m.a)) IN
                IF m.kind = "legendre" THEN QSub(QMul(RatI(2), u), RatI(1)) ELSE u
MomVec(m, x) ==
    LET t == MomRef(m, x) lo == IF m.kind = "legendre" THEN RatI(-1) ELSE RatI(0) IN
    IF x = RNaN \/ (m.safe /\ Fits(t) /\ (RLt(t, lo) \/ RLt(RatI(1), t))) THEN [i \in 1..m.size |-> RNaN]
    ELSE IF ~Fits(t) THEN [i \in 1..m.size |-> RUnk]
    ELSE [i \in 1..m.size |-> IF m.kind = "legendre" THEN LegAt(t, i - 1) ELSE PowAt(t, i - 1)]
MomBottom(m, x) == Flat([i \in DOMAIN x |-> MomVec(m, x[i])])
MomTop(m, x) == LET w == [i \in DOMAIN x |-> MomVec(m, x[i])] IN Flat([r \in 1..m.size |-> [i \in DOMAIN x |-> w[i][r]]])
CovBottom(m, x) == Flat([i \in DOMAIN x |-> LET w == MomVec(m, x[i]) IN
                        Flat([r \in 1..m.size |-> [s \in 1..m.size |-> QMul(w[r], w[s])]])])
CovTop(m, x) == LET w == [i \in DOMAIN x |-> MomVec(m, x[i])] IN
                Flat([r \in 1..m.size |-> Flat([s \in 1..m.size |-> [i \in DOMAIN x |-> QMul(w[i][r], w[i][s])]])])

\* linear interpolation between the two neighbouring times
InterpVec(t, n, x, at) ==
    LET seg == {i \in 1..(Len(t) - 1) : RLe(t[i], at) /\ RLe(at, t[i + 1])}
        y(i, j) == x[(i - 1) * n + j]
        val(i, j) == IF y(i, j) = RNaN \/ y(i + 1, j) = RNaN THEN RNaN
                     ELSE QAdd(y(i, j), QMul(QSub(y(i + 1, j), y(i, j)), QDiv(QSub(at, t[i]), QSub(t[i + 1], t[i]))))
    IN [j \in 1..n |->
          LET vs == {val(i, j) : i \in seg} IN
          IF Cardinality(vs) = 1 THEN CHOOSE x0 \in vs : TRUE ELSE RUnk]

SelSamples(s, m) == LET ix == SelectSeq([i \in DOMAIN s |-> i], LAMBDA i : m[i]) IN [j \in DOMAIN ix |-> s[ix[j]]]
CatV(qq, l) == [i \in DOMAIN qq[1].v[l] |-> [p \in DOMAIN qq[1].v[l][i] |-> Flat([k \in DOMAIN qq |-> qq[k].v[l][i][p]])]]
ReduceVec(op, x) == LET RECURSIVE R(_)
                        R(k) == IF k = 1 THEN x[1] ELSE Bin(op, R(k - 1), x[k])
                    IN <<R(Len(x))>>
SameSel(qq) == \A i, j \in DOMAIN qq : qq[i].sel = qq[j].sel

(* what definition number i denotes, given the quantities defined before it      *)
Eval(d, qs, data, i) ==
  CASE d.op = "root" -> Q(RootType(d.specs), "r" \o ToString(i), -i, data)
    [] d.op = "idx" ->
         (LET a == qs[d.a] r == IndexType(a.ty, d.key) IN
          IF ~r.ok THEN QRef
          ELSE Q(r.ty, IndexTid(a, d.key, i, r), a.sel, MapQ(a, LAMBDA x : [j \in DOMAIN r.pos |-> x[r.pos[j] + 1]])))
    [] d.op = "bin" ->
         (LET a == qs[d.a] b == qs[d.b] IN
          IF a.sel # b.sel THEN QRef
          ELSE Q(a.ty, a.tid, a.sel, ZipQ(a, b, LAMBDA x, y : BVec(d.f, x, y))))
    [] d.op = "cbin" ->
         (LET a == qs[d.a] IN
          Q(a.ty, a.tid, a.sel, MapQ(a, LAMBDA x : IF d.side = "r" THEN BVec(d.f, x, d.c) ELSE BVec(d.f, d.c, x))))
    [] d.op = "uf1" ->
         (LET a == qs[d.a] IN
          Q(ArrayT(<<VSize(a)>>, Scalar), "n" \o ToString(i), a.sel, MapQ(a, LAMBDA x : [j \in DOMAIN x |-> Un(d.f, x[j])])))
    [] d.op = "uf2" ->
         (LET a == qs[d.a] b == qs[d.b] IN
          IF a.sel # b.sel THEN QRef
          ELSE Q(ArrayT(<<Max2(VSize(a), VSize(b))>>, Scalar), "n" \o ToString(i), a.sel, ZipQ(a, b, LAMBDA x, y : BVec(d.f, x, y))))
    [] d.op = "ufc" ->
         (LET a == qs[d.a] IN
          Q(ArrayT(<<VSize(a)>>, Scalar), "n" \o ToString(i), a.sel,
            MapQ(a, LAMBDA x : IF d.side = "r" THEN BVec(d.f, x, d.c) ELSE BVec(d.f, d.c, x))))
    [] d.op = "red" ->
         (LET a == qs[d.a] IN
          Q(ArrayT(<<1>>, Scalar), "n" \o ToString(i), a.sel, MapQ(a, LAMBDA x : ReduceVec(d.f, x))))
    [] d.op = "cmp" ->
         (LET a == qs[d.a] b == qs[d.b] IN
          IF a.sel # b.sel \/ a.mk \/ b.mk THEN QRef
          ELSE Mask(a.sel, [l \in DOMAIN a.v |-> [s \in DOMAIN a.v[l] |-> \A p \in DOMAIN a.v[l][s] : AllCmp(d.f, a.v[l][s][p], b.v[l][s][p])]]))
    [] d.op = "ccmp" ->
         (LET a == qs[d.a] IN
          IF a.mk THEN QRef
          ELSE Mask(a.sel, [l \in DOMAIN a.v |-> [s \in DOMAIN a.v[l] |-> \A p \in DOMAIN a.v[l][s] :
                 IF d.side = "r" THEN AllCmp(d.f, a.v[l][s][p], d.c) ELSE AllCmp(d.f, d.c, a.v[l][s][p])]]))
    [] d.op = "lg" ->
         (LET a == qs[d.a] b == qs[d.b] IN
          IF a.sel # b.sel THEN QRef
          ELSE Mask(a.sel, [l \in DOMAIN a.v |-> [s \in DOMAIN a.v[l] |->
                 CASE d.f = "and" -> a.v[l][s] /\ b.v[l][s] [] d.f = "or" -> a.v[l][s] \/ b.v[l][s]
                   [] d.f = "xor" -> a.v[l][s] # b.v[l][s] [] d.f = "not" -> ~a.v[l][s]]]))
    [] d.op = "sel" ->
         (LET a == qs[d.a] ms == [k \in DOMAIN d.m |-> qs[d.m[k]]] IN
          IF \E k \in DOMAIN ms : ~ms[k].mk \/ ms[k].sel # a.sel THEN QRef
          ELSE Q(a.ty, a.tid, i, [l \in DOMAIN a.v |-> SelSamples(a.v[l], [s \in DOMAIN a.v[l] |-> \A k \in DOMAIN ms : ms[k].v[l][s]])]))
    [] d.op = "cat" ->
         (LET qq == [k \in DOMAIN d.a |-> qs[d.a[k]]]
              same == \A k \in DOMAIN qq : qq[k].ty = qq[1].ty
              ident == \A k \in DOMAIN qq : qq[k].tid = qq[1].tid
              ty == CASE d.kind = "array" -> ArrayT(d.sh, qq[1].ty)
                      [] d.kind = "ts" -> [k |-> "ts", t |-> d.keys, of |-> qq[1].ty]
                      [] d.kind = "field" -> [k |-> "field", f |-> d.keys, of |-> qq[1].ty]
                      [] d.kind = "dict" -> [k |-> "dict", it |-> [k \in DOMAIN qq |-> [key |-> d.keys[k], ty |-> qq[k].ty]]]
              r == Q(ty, "n" \o ToString(i), qq[1].sel, [l \in DOMAIN qq[1].v |-> CatV(qq, l)])
          IN IF ~SameSel(qq) THEN QRef
             ELSE IF d.kind = "dict" THEN r
             ELSE IF ~same THEN QRef
             ELSE IF ident THEN r ELSE [r EXCEPT !.st = "either"])
    [] d.op = "interp" ->
         (LET a == qs[d.a] n == Size(a.ty.of) t == a.ty.t IN
          IF RLt(d.t, t[1]) \/ RLt(t[Len(t)], d.t) THEN QRef
          ELSE Q(a.ty.of, a.tid \o ".in", a.sel, MapQ(a, LAMBDA x : InterpVec(t, n, x, d.t))))
    [] d.op = "moments" ->
         (LET a == qs[d.a] arr == ArrayT(<<d.m.size>>, Scalar) IN
          Q(IF d.bottom THEN Replace(a.ty, arr) ELSE ArrayT(<<d.m.size>>, a.ty), "n" \o ToString(i), a.sel,
            MapQ(a, LAMBDA x : IF d.bottom THEN MomBottom(d.m, x) ELSE MomTop(d.m, x))))
    [] d.op = "moment" ->
         (LET a == qs[d.a] IN
          Q(a.ty, a.tid, a.sel, MapQ(a, LAMBDA x : [j \in DOMAIN x |-> MomVec([d.m EXCEPT !.size = d.i + 1], x[j])[d.i + 1]])))
    [] d.op = "cov" ->
         (LET a == qs[d.a] arr == ArrayT(<<d.m.size, d.m.size>>, Scalar) IN
          Q(IF d.bottom THEN Replace(a.ty, arr) ELSE ArrayT(<<d.m.size, d.m.size>>, a.ty), "n" \o ToString(i), a.sel,
            MapQ(a, LAMBDA x : IF d.bottom THEN CovBottom(d.m, x) ELSE CovTop(d.m, x))))

\* the moments (or their products) of a quantity that the wrapper Estimate estimates
EstmDef(e) == [op |-> IF e.what = "cov" THEN "cov" ELSE "moments", a |-> e.a, m |-> e.m, bottom |-> TRUE]

RECURSIVE EvalFrom(_, _, _)
EvalFrom(defs, qs, data) == IF Len(qs) = Len(defs) THEN qs
                            ELSE EvalFrom(defs, Append(qs, Eval(defs[Len(qs) + 1], qs, data, Len(qs) + 1)), data)
EvalAll(defs, data) == EvalFrom(defs, <<>>, data)

\* ---- the MLMC estimator
RECURSIVE QSum(_)
QSum(s) == IF s = <<>> THEN RatI(0) ELSE QAdd(s[1], QSum(Tail(s)))
Usable(smp) == \A p \in DOMAIN smp : \A c \in DOMAIN smp[p] : smp[p][c] # RNaN
Diff(smp) == IF Len(smp) = 1 THEN smp[1] ELSE [c \in DOMAIN smp[1] |-> QSub(smp[1][c], smp[2][c])]
LevelDiffs(q, l) == LET g == SelectSeq(q.v[l], Usable) IN [i \in DOMAIN g |-> Diff(g[i])]
MeanOf(ds, c) == IF ds = <<>> THEN RNaN ELSE QDiv(QSum([i \in DOMAIN ds |-> ds[i][c]]), RatI(Len(ds)))
\* two pass definition: the sum of squared distances from the mean over n - 1
VarOf(ds, c) == IF Len(ds) < 2 THEN RInf
                ELSE LET m == MeanOf(ds, c) IN
                     QDiv(QSum([i \in DOMAIN ds |-> QMul(QSub(ds[i][c], m), QSub(ds[i][c], m))]), RatI(Len(ds) - 1))
Estimate(q) ==
    LET n == VSize(q) L == DOMAIN q.v
        ds == [l \in L |-> LevelDiffs(q, l)]
        ns == [l \in L |-> Len(ds[l])]
        lm == [l \in L |-> [c \in 1..n |-> MeanOf(ds[l], c)]]
        lv == [l \in L |-> [c \in 1..n |-> VarOf(ds[l], c)]]
    IN [ns |-> ns, rm |-> [l \in L |-> Len(q.v[l]) - ns[l]], lm |-> lm, lv |-> lv,
        mean |-> [c \in 1..n |-> QSum([l \in L |-> lm[l][c]])],
        var |-> [c \in 1..n |-> IF \E l \in L : ns[l] < 2 THEN RInf
                                ELSE QSum([l \in L |-> QDiv(lv[l][c], RatI(ns[l]))])]]
NothingLeft(q) == \A l \in DOMAIN q.v : \A i \in DOMAIN q.v[l] : ~Usable(q.v[l][i])
\* shape of the mean of an array quantity
MeanShape(t) == IF t.of.k = "scalar" THEN t.sh ELSE Append(t.sh, Size(t.of))
=============================================================================
