---------------------------- MODULE QuantityGen -----------------------------
(* Random programs over quantities: every expression the library offers, built   *)
(* step by step from earlier ones, evaluated and estimated in any order, with    *)
(* samples arriving and intermediate quantities dropped in between.              *)
EXTENDS Quantity, Json, Randomization
CONSTANTS Depth, Kinds, OpW, SpecSets, MaxN, NanOneIn, ChunkSizes
VARIABLES hist, defs, qs, data, alive, step, meta
vars == <<hist, defs, qs, data, alive, step, meta>>
RE(S) == RandomElement(S)
Odds(k) == RE(1..k) = 1

\* the operations of a run with their weights (an operation is drawn per step)
W(k, s) == [i \in 1..k |-> s]
OpsQuick == W(4, "idx") \o W(2, "bin") \o W(2, "cbin") \o W(2, "uf") \o W(3, "see") \o W(3, "est") \o W(1, "grow") \o W(1, "del")
OpsArith == W(1, "foreign") \o W(3, "idx") \o W(4, "bin") \o W(5, "cbin") \o W(6, "uf") \o W(5, "see") \o W(2, "est") \o W(2, "del") \o W(1, "grow") \o W(1, "sel")\o W(1, "cmp")
OpsIndex == W(1, "foreign") \o W(8, "idx") \o W(2, "bin") \o W(1, "cbin") \o W(4, "cat") \o W(2, "interp") \o W(3, "see") \o W(2, "est") \o W(4, "midx") \o W(1, "del") \o W(2, "moments")
OpsSel == W(1, "foreign") \o W(3, "idx") \o W(1, "bin") \o W(1, "cbin") \o W(6, "cmp") \o W(3, "lg") \o W(6, "sel") \o W(3, "see") \o W(3, "est") \o W(1, "uf") \o W(1, "grow") \o W(1, "cat")
OpsMom == W(4, "idx") \o W(1, "bin") \o W(2, "cbin") \o W(5, "moments") \o W(2, "moment") \o W(4, "cov") \o W(2, "see") \o W(5, "est") \o W(2, "midx") \o W(1, "sel") \o W(1, "cmp")
OpsEst == W(4, "idx") \o W(2, "bin") \o W(2, "cbin") \o W(1, "uf") \o W(1, "cmp") \o W(1, "sel") \o W(1, "moments") \o W(8, "est") \o W(2, "midx") \o W(3, "grow") \o W(1, "see")

OpsWrap == W(5, "idx") \o W(2, "bin") \o W(2, "cbin") \o W(1, "moments") \o W(6, "estm") \o W(7, "first") \o W(1, "see") \o W(2, "est") \o W(3, "grow") \o W(1, "sel") \o W(1, "cmp")
OpsFirst == W(3, "idx") \o W(1, "cbin") \o W(8, "first") \o W(3, "grow") \o W(1, "del")
OpsSub == W(5, "idx") \o W(1, "bin") \o W(2, "cbin") \o W(3, "sub") \o W(1, "est") \o W(2, "boot") \o W(2, "red")
OpsBoot == W(5, "idx") \o W(2, "cbin") \o W(5, "boot") \o W(1, "sub")
T(n, d) == <<n, d>>
Sp(name, sh, times, locs) == [name |-> name, shape |-> sh, times |-> times, locs |-> locs]
SpecList == <<
  <<Sp("a", <<1, 1>>, <<T(1,1)>>, <<"x">>)>>,
  <<Sp("a", <<2, 1>>, <<T(1,1), T(2,1)>>, <<"x", "y">>), Sp("b", <<1, 1>>, <<T(1,1)>>, <<"x">>)>>,
  <<Sp("a", <<2, 3>>, <<T(1,1), T(2,1), T(4,1)>>, <<"x">>)>>,
  <<Sp("a", <<1, 2>>, <<T(0,1), T(1,2)>>, <<"x", "y">>), Sp("b", <<2, 1>>, <<T(0,1), T(1,2)>>, <<"x", "y">>), Sp("c", <<1, 1>>, <<T(0,1), T(1,2)>>, <<"x", "y">>)>>,
  <<Sp("a", <<2, 2, 2>>, <<T(1,1)>>, <<"x">>), Sp("b", <<3>>, <<T(1,1)>>, <<"x">>)>>,
  <<Sp("f", <<8, 1>>, <<T(1,1), T(2,1), T(3,1), T(4,1)>>, <<"aa", "bb">>)>>,
  <<Sp("f", <<2, 1>>, <<T(1,1), T(2,1), T(4,1), T(8,1)>>, <<"aa", "bb">>), Sp("g", <<2, 3>>, <<T(1,1), T(2,1), T(4,1), T(8,1)>>, <<"aa", "bb">>)>> >>

\* -------- samples
Val(k, nz, nan) == IF k <= nan THEN RNaN ELSE IF nz THEN <<RatN(1, 2), RatN(-1, 2), RatN(1, 1), RatN(-1, 1), RatN(2, 1), RatN(-2, 1), RatN(1, 1), RatN(2, 1)>>[(k % 8) + 1]
                   ELSE RatN((k % 13) - 6, 2)
RVec(m, nz) == [c \in 1..m |-> Val(RE(1..(100 * NanOneIn)), nz, 100)]
RSample(m, l, nz) == IF l = 1 THEN <<RVec(m, nz)>> ELSE <<RVec(m, nz), RVec(m, nz)>>
RSamples(m, l, nz, n) == [i \in 1..n |-> RSample(m, l, nz)]

Init == /\ hist = <<>> /\ defs = <<>> /\ qs = <<>> /\ data = <<>> /\ alive = {} /\ step = 0 /\ meta = [nz |-> FALSE]
New == /\ step = 0
       /\ \E kind \in {RE(Kinds)}, si \in {RE(SpecSets)}, nl \in {RE(1..3)}, nz \in {Odds(3)}, ch \in {RE(ChunkSizes)} :
          \E m \in {Size(RootType(SpecList[si]))} :
          \E dd \in {[l \in 1..nl |-> RSamples(m, l, nz, IF Odds(6) THEN 1 ELSE RE(2..MaxN))]} :
            /\ data' = dd
            /\ defs' = <<[op |-> "root", specs |-> SpecList[si]]>>
            /\ qs' = EvalAll(defs', dd)
            /\ hist' = <<[op |-> "new", kind |-> kind, nl |-> nl, specs |-> SpecList[si], data |-> dd, chunk |-> ch]>>
            /\ alive' = {1} /\ step' = 1 /\ meta' = [nz |-> nz]

\* -------- pickers (the dummy argument keeps the draws fresh)
OkQ(mk) == {i \in alive : qs[i].st = "ok" /\ qs[i].mk = mk}
PickQ(z) == LET S == OkQ(FALSE) R == {i \in S : i + 5 > Len(qs)} IN
            IF R # {} /\ ~Odds(3) THEN RE(R) ELSE RE(S)
RealQ(q) == \A l \in DOMAIN q.v : \A i \in DOMAIN q.v[l] : \A p \in DOMAIN q.v[l][i] : \A c \in DOMAIN q.v[l][i][p] : q.v[l][i][p][c] # RUnk
SmallQ(q) == \A l \in DOMAIN q.v : \A i \in DOMAIN q.v[l] : \A p \in DOMAIN q.v[l][i] : \A c \in DOMAIN q.v[l][i][p] :
               LET x == q.v[l][i][p][c] IN x = RNaN \/ (Abs(x[1]) <= 20000 /\ x[2] <= 4096)
Pow2 == {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096}
DyQ(q) == \A l \in DOMAIN q.v : \A i \in DOMAIN q.v[l] : \A p \in DOMAIN q.v[l][i] : \A c \in DOMAIN q.v[l][i][p] :
               LET x == q.v[l][i][p][c] IN x = RNaN \/ x[2] \in Pow2
RNum(z) == IF z THEN RatN(RE({1, 2, 4}) * RE({1, -1}), RE({1, 2})) ELSE RatN(RE(-5..5), RE({1, 2, 4}))
RConst(n, z) == IF n > 1 /\ Odds(3) THEN [i \in 1..n |-> RNum(z)] ELSE <<RNum(z)>>
RItem(n) == IF Odds(2) THEN [k |-> "i", v |-> RE(-n..(n - 1))]
            ELSE [k |-> "s", a |-> RE({None} \cup (-n..(n - 1))), b |-> RE({None} \cup ((-n)..(n + 1))), st |-> IF Odds(4) THEN -1 ELSE IF Odds(4) THEN 2 ELSE 1]
RArrKey(sh) ==
    LET nd == Len(sh) k == RE(1..nd) IN
    IF Odds(25) THEN <<[k |-> "i", v |-> sh[1] + 1]>>
    ELSE IF Odds(6) THEN <<[k |-> "e"]>> \o [i \in 1..1 |-> RItem(sh[nd])]
    ELSE IF Odds(8) THEN <<RItem(sh[1]), [k |-> "e"]>>
    ELSE [i \in 1..k |-> RItem(sh[i])]
RKey(t) == CASE t.k = "dict" -> [k |-> "str", s |-> IF Odds(20) THEN "zz" ELSE t.it[RE(DOMAIN t.it)].key]
             [] t.k = "ts" -> [k |-> "time", t |-> IF Odds(20) THEN T(77, 1) ELSE t.t[RE(DOMAIN t.t)]]
             [] t.k = "field" -> [k |-> "str", s |-> IF Odds(20) THEN "zz" ELSE t.f[RE(DOMAIN t.f)]]
             [] t.k = "array" -> [k |-> "arr", key |-> RArrKey(t.sh)]
             [] OTHER -> [k |-> "none"]
RMom(z, big) == LET dom == RE({<<-2, 2>>, <<-1, 1>>, <<0, 4>>, <<-4, 4>>, <<-3, 1>>}) IN
                [kind |-> RE({"legendre", "monomial"}), size |-> RE(1..big), a |-> RatI(dom[1]), b |-> RatI(dom[2]), safe |-> ~Odds(5)]

\* -------- steps; every draw is bound once
Put(d, r) == /\ defs' = Append(defs, d) /\ qs' = Append(qs, r) /\ hist' = Append(hist, [d EXCEPT !.op = d.op])
             /\ alive' = alive \cup {Len(qs) + 1} /\ step' = step + 1 /\ UNCHANGED <<data, meta>>
Skip == step' = step + 1 /\ UNCHANGED <<hist, defs, qs, data, alive, meta>>
Do(ev) == hist' = Append(hist, ev) /\ step' = step + 1 /\ UNCHANGED <<defs, qs, data, alive, meta>>
Good(r) == r.st = "refuse" \/ r.mk \/ (RealQ(r) /\ SmallQ(r) /\ Size(r.ty) <= 70)
Def(d, cond) == IF ~cond THEN Skip ELSE \E r \in {Eval(d, qs, data, Len(qs) + 1)} : IF Good(r) THEN Put(d, r) ELSE Skip

SIdx(z) == \E a \in {PickQ(z)} : \E key \in {RKey(qs[a].ty)} :
             Def([op |-> "idx", a |-> a, key |-> key], qs[a].ty.k # "scalar"
                 /\ (key.k = "arr" => LET x == ArrKey(qs[a].ty.sh, key.key) IN x.ok \/ (Len(key.key) = 1 /\ key.key[1].k = "i")))
SBin(z) == \E a \in {PickQ(z)}, b \in {PickQ(z)}, f \in {RE({"+", "-", "*", "/", "%"})} :
             Def([op |-> "bin", a |-> a, b |-> b, f |-> f], Compat(qs[a], qs[b]) /\ (f \in {"%"} => DyQ(qs[a]) /\ DyQ(qs[b])))
SCbin(z) == \E a \in {PickQ(z)}, f \in {RE({"+", "-", "*", "/", "%"})}, side \in {RE({"l", "r"})} :
            \E c \in {RConst(Size(qs[a].ty), f \in {"/", "%"})} : \E form \in {IF Len(c) > 1 THEN RE({"list", "array"}) ELSE RE({"num", "num", "npf", "list"})} :
             \* a list or an array on the left of an operator is handled by numpy, as a ufunc
             Def([op |-> IF side = "l" /\ form \in {"array", "npf"} THEN "ufc" ELSE "cbin", a |-> a, c |-> c, f |-> f, side |-> side, form |-> form],
                 (f = "%" => DyQ(qs[a])) /\ ~(side = "l" /\ f \in {"/", "%"} /\ ~meta.nz))
SUf(z) == IF Odds(4) THEN
             \E a \in {PickQ(z)}, f \in {RE({"maximum", "minimum", "+"})} : Def([op |-> "red", a |-> a, f |-> f], TRUE)
          ELSE IF Odds(2) THEN
             \E a \in {PickQ(z)}, f \in {RE({"absolute", "negative", "square", "floor"})} : Def([op |-> "uf1", a |-> a, f |-> f], f = "floor" => DyQ(qs[a]))
          ELSE IF Odds(3) THEN
             \E a \in {PickQ(z)}, f \in {RE({"maximum", "minimum", "+", "-", "*"})}, side \in {RE({"l", "r"})} : \E c \in {RConst(Size(qs[a].ty), FALSE)} :
                Def([op |-> "ufc", a |-> a, c |-> c, f |-> f, side |-> side, form |-> IF Len(c) > 1 THEN "array" ELSE "num"], TRUE)
          ELSE \E a \in {PickQ(z)}, b \in {PickQ(z)}, f \in {RE({"maximum", "minimum", "+", "-", "*"})} :
                Def([op |-> "uf2", a |-> a, b |-> b, f |-> f], Compat2(qs[a], qs[b]))
CmpOps == {"<", "<=", ">", ">=", "==", "!="}
SCmp(z) == IF Odds(2) THEN
              \E a \in {PickQ(z)}, f \in {RE(CmpOps)}, side \in {RE({"l", "r"})} : \E c \in {RConst(Size(qs[a].ty), FALSE)} :
                 Def([op |-> "ccmp", a |-> a, c |-> c, f |-> f, side |-> side, form |-> IF Len(c) > 1 THEN "list" ELSE "num"], DyQ(qs[a]))
           ELSE \E a \in {PickQ(z)}, b \in {PickQ(z)}, f \in {RE(CmpOps)} :
                 Def([op |-> "cmp", a |-> a, b |-> b, f |-> f], Compat2(qs[a], qs[b]) /\ DyQ(qs[a]) /\ DyQ(qs[b]))
SLg(z) == IF OkQ(TRUE) = {} THEN Skip ELSE
          \E a \in {RE(OkQ(TRUE))}, b \in {RE(OkQ(TRUE))}, f \in {RE({"and", "or", "xor", "not"})} :
             Def([op |-> "lg", a |-> a, b |-> IF f = "not" THEN a ELSE b, f |-> f], TRUE)
SSel(z) == IF OkQ(TRUE) = {} THEN Skip ELSE
           \E mm \in {[i \in 1..(IF Odds(3) THEN RE(2..3) ELSE 1) |-> IF Odds(25) THEN PickQ(z) ELSE RE(OkQ(TRUE))]} :
           \E a \in {LET S == {i \in OkQ(FALSE) : qs[i].sel = qs[mm[1]].sel} IN IF S = {} \/ Odds(12) THEN PickQ(z) ELSE RE(S)} :
             Def([op |-> "sel", a |-> a, m |-> mm], TRUE)
SCat(z) == \E x \in {PickQ(z)}, kind \in {RE({"array", "ts", "field", "dict"})}, n \in {RE(1..4)} :
           \E its \in {[i \in 1..n |-> LET S == {j \in OkQ(FALSE) : qs[j].tid = qs[x].tid /\ qs[j].sel = qs[x].sel}
                                             U == {j \in OkQ(FALSE) : qs[j].sel = qs[x].sel} IN
                                         IF i > 1 /\ (kind = "dict" \/ Odds(15)) THEN (IF Odds(10) THEN PickQ(z) ELSE RE(U)) ELSE RE(S)]} :
             Def([op |-> "cat", a |-> its, kind |-> kind,
                  sh |-> IF n = 4 /\ Odds(2) THEN <<2, 2>> ELSE <<n>>,
                  keys |-> IF kind = "ts" THEN SubSeq(<<T(0,1), T(1,2), T(2,1), T(4,1)>>, 1, n) ELSE SubSeq(<<"k1", "k2", "k3", "k4">>, 1, n)],
                 SumSeq([i \in 1..n |-> Size(qs[its[i]].ty)]) <= 60)
SInterp(z) == LET S == {i \in OkQ(FALSE) : qs[i].ty.k = "ts" /\ Len(qs[i].ty.t) > 1} IN
              IF S = {} THEN Skip ELSE
              \E a \in {RE(S)} : \E j \in {RE(1..(Len(qs[a].ty.t) - 1))}, w \in {RE(0..4)} :
                LET t == qs[a].ty.t
                    at == IF Odds(12) THEN RAdd(t[Len(t)], T(1, 4)) ELSE IF Odds(12) THEN RSub(t[1], T(1, 4))
                          ELSE RAdd(t[j], RMul(RSub(t[j + 1], t[j]), T(w, 4)))
                IN \E x \in {at} : Def([op |-> "interp", a |-> a, t |-> x], TRUE)
SMoments(z) == \E a \in {PickQ(z)}, m \in {RMom(z, 4)}, b \in {RE({TRUE, FALSE})} :
                 Def([op |-> "moments", a |-> a, m |-> m, bottom |-> b], SmallQ(qs[a]) /\ DyQ(qs[a]))
SMoment(z) == \E a \in {PickQ(z)}, m \in {RMom(z, 4)} : \E i \in {RE(0..(m.size - 1))} :
                 Def([op |-> "moment", a |-> a, m |-> m, i |-> i], DyQ(qs[a]))
SCov(z) == \E a \in {PickQ(z)}, m \in {RMom(z, 3)}, b \in {RE({TRUE, FALSE})} :
                 Def([op |-> "cov", a |-> a, m |-> m, bottom |-> b], DyQ(qs[a]))
Alive(S) == {i \in S : qs[i].st = "ok"}
SSee(z) == \E q \in {RE(Alive(alive))} : Do([op |-> "see", q |-> q])
SEst(z) == \E q \in {PickQ(z)} : Do([op |-> "est", q |-> q])
SMidx(z) == \E q \in {PickQ(z)} : \E k1 \in {RKey(qs[q].ty)} :
            IF qs[q].ty.k = "scalar" THEN Skip ELSE
            \E r1 \in {IndexType(qs[q].ty, k1)} :
            IF ~r1.ok \/ r1.ty.k = "scalar" \/ Odds(3) THEN (IF r1.ok \/ k1.k # "arr" THEN Do([op |-> "midx", q |-> q, keys |-> <<k1>>]) ELSE Skip)
            ELSE \E k2 \in {RKey(r1.ty)} : \E r2 \in {IndexType(r1.ty, k2)} :
                 IF r2.ok THEN Do([op |-> "midx", q |-> q, keys |-> <<k1, k2>>]) ELSE Skip
\* subsampling of quantities that no selection shortened
RootSel == {i \in OkQ(FALSE) : qs[i].sel = qs[1].sel}
SSub(z) == \E q \in {RE(RootSel)}, many \in {Odds(4)} :
           \E vec \in {[l \in DOMAIN data |-> IF many THEN RE(((Len(data[l]) + 1) \div 2)..Len(data[l])) ELSE RE(0..Len(data[l]))]} :
             IF Size(qs[q].ty) <= 20 THEN Do([op |-> "sub", q |-> q, vec |-> vec, reps |-> IF many THEN 50 ELSE 4, many |-> many]) ELSE Skip
SBoot(z) == LET S == {i \in RootSel : qs[i].ty.k = "scalar"} IN IF S = {} THEN Skip ELSE
            \E q \in {RE(S)}, m \in {RMom(z, 3)} : \E vec \in {[l \in DOMAIN data |-> IF Len(data[l]) < 2 THEN 1 ELSE RE(2..Len(data[l]))]} :
            \E mv \in {MapQ(qs[q], LAMBDA x : MomTop(m, x))} :
              IF \A l \in DOMAIN mv : mv[l] # <<>> /\ \A i \in DOMAIN mv[l] : \A p \in DOMAIN mv[l][i] : \A c \in DOMAIN mv[l][i][p] : mv[l][i][p][c] \notin {RNaN, RUnk} /\ mv[l][i][p][c][2] <= 2048
              THEN \E how \in {RE({"ctor", "arg"})}, all \in {Odds(4)} :
                   Do([op |-> "boot", q |-> q, m |-> m, vec |-> IF all THEN [l \in DOMAIN data |-> Len(data[l])] ELSE vec, all |-> all, n |-> 40, how |-> how]) ELSE Skip
\* the wrapper Estimate: the first samples of a level; moments and covariance, the functions given to the
\* constructor ("ctor"), to the call ("arg") or to both, different ones ("both": the argument counts),
\* or to the constructor of a wrapper that gets its quantity later ("set")
\* (asked again and again, more samples arriving in between)
Firsts == {k \in DOMAIN hist : hist[k].op = "first" /\ hist[k].n = 50}
SFirst(z) == IF Firsts # {} /\ Odds(2) THEN \E k \in {RE(Firsts)} : IF hist[k].q \in RootSel THEN Do(hist[k]) ELSE Skip
             ELSE \E q \in {RE(RootSel)}, l \in {RE(DOMAIN data)} : \E n \in {IF Odds(4) THEN 0 ELSE IF Odds(3) THEN 50 ELSE RE(1..Len(data[l]))} :
               Do([op |-> "first", q |-> q, l |-> l, n |-> n])
\* the variances of a moment over the levels: all nothing, or something on every level but the first
\* (at most three levels: the regression then has as many parameters as variances, and keeps them)
Regressable(q) == ~NothingLeft(q) /\ LET lv == Estimate(q).lv IN
                  /\ \A k \in DOMAIN lv : \A c \in DOMAIN lv[k] : lv[k][c] \notin {RNaN, RUnk}
                  /\ \A c \in DOMAIN lv[1] : (\A k \in DOMAIN lv : lv[k][c] = RatI(0)) \/ (\A k \in DOMAIN lv : RLt(RatN(1, 1000), lv[k][c]))
SEstm(z) == \E a \in {PickQ(z)}, what \in {RE({"moments", "cov", "vars", "reg"})}, how \in {RE({"ctor", "arg", "both", "set"})} : \E m \in {RMom(z, IF what = "cov" THEN 3 ELSE 4)} :
            \E r \in {IF Size(qs[a].ty) <= 8 /\ DyQ(qs[a]) /\ SmallQ(qs[a]) THEN Eval(EstmDef([a |-> a, m |-> m, what |-> what]), qs, data, Len(qs) + 1) ELSE QRef} :
              IF r.st = "ok" /\ Good(r) /\ (what = "reg" => qs[a].ty.k = "scalar" /\ Regressable(r)) THEN Do([op |-> "estm", a |-> a, m |-> m, what |-> what, how |-> how]) ELSE Skip
\* together with a quantity of another storage
SForeign(z) == \E a \in {PickQ(z)}, f \in {RE({"+", "max", "cmp", "cat", "sel"})}, side \in {RE({"l", "r"})} : Do([op |-> "foreign", a |-> a, f |-> f, side |-> side])
SGrow(z) == \E l \in {RE(DOMAIN data)}, n \in {RE(1..3)} : \E more \in {RSamples(Size(qs[1].ty), l, meta.nz, n)} :
            \E dd \in {[data EXCEPT ![l] = @ \o more]} : \E nq \in {EvalAll(defs, dd)} :
            IF \A i \in DOMAIN nq : Good(nq[i]) THEN
               /\ data' = dd /\ qs' = nq /\ hist' = Append(hist, [op |-> "grow", l |-> l, more |-> more])
               /\ step' = step + 1 /\ UNCHANGED <<defs, alive, meta>>
            ELSE Skip
SDel(z) == LET S == alive \ {1} IN IF S = {} THEN Skip ELSE
           \E q \in {RE(S)} : /\ hist' = Append(hist, [op |-> "del", q |-> q]) /\ alive' = alive \ {q}
                              /\ step' = step + 1 /\ UNCHANGED <<defs, qs, data, meta>>

Step == \E o \in {OpW[RE(DOMAIN OpW)]} :
    CASE o = "idx" -> SIdx(step) [] o = "bin" -> SBin(step) [] o = "cbin" -> SCbin(step) [] o = "uf" -> SUf(step)
      [] o = "cmp" -> SCmp(step) [] o = "lg" -> SLg(step) [] o = "sel" -> SSel(step) [] o = "cat" -> SCat(step)
      [] o = "interp" -> SInterp(step) [] o = "moments" -> SMoments(step) [] o = "moment" -> SMoment(step) [] o = "cov" -> SCov(step)
      [] o = "see" -> SSee(step) [] o = "est" -> SEst(step) [] o = "midx" -> SMidx(step) [] o = "grow" -> SGrow(step) [] o = "sub" -> SSub(step) [] o = "red" -> SUf(step) [] o = "boot" -> SBoot(step) [] o = "first" -> SFirst(step) [] o = "foreign" -> SForeign(step) [] o = "estm" -> SEstm(step) [] o = "del" -> SDel(step)
Next == New \/ (step >= 1 /\ Step)
GSpec == Init /\ [][Next]_vars
Emit == step = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
