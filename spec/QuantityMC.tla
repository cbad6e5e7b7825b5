----------------------------- MODULE QuantityMC -----------------------------
(* Laws of the quantity algebra as specified, over every small table of samples. *)
EXTENDS Quantity
CONSTANTS Vals
VARIABLES d, pick, bq
ValsQ == {RatI(-2), RatN(1, 2), RNaN}
ValsT == {RatI(-2), RatI(0), RatN(1, 2), RNaN}
Sp == <<[name |-> "a", shape |-> <<2, 1>>, times |-> <<RatI(1)>>, locs |-> <<"x">>]>>
V2 == {<<a, b>> : a, b \in Vals}
Arr(k) == [k |-> "arr", key |-> <<[k |-> "i", v |-> k]>>]
Base == <<[op |-> "root", specs |-> Sp], [op |-> "idx", a |-> 1, key |-> [k |-> "str", s |-> "a"]],
          [op |-> "idx", a |-> 2, key |-> [k |-> "time", t |-> RatI(1)]], [op |-> "idx", a |-> 3, key |-> [k |-> "str", s |-> "x"]],
          [op |-> "idx", a |-> 4, key |-> Arr(0)], [op |-> "idx", a |-> 4, key |-> Arr(1)]>>
Tab(s, t, u) == <<<<<<s>>>>, <<<<t, u>>, <<u, s>>>>>>
Init == pick = <<>> /\ d = Tab(<<RatI(0), RatI(0)>>, <<RatI(0), RatI(0)>>, <<RatI(0), RatI(0)>>) /\ bq = EvalAll(Base, d)
Next == /\ Len(pick) < 3
        /\ \E x \in (IF Len(pick) = 2 /\ Cardinality(Vals) = 3 THEN {<<RatI(-2), RatN(1, 2)>>, <<RNaN, RatI(1)>>} ELSE V2) : pick' = Append(pick, x)
        /\ d' = IF Len(pick') = 3 THEN Tab(pick'[1], pick'[2], pick'[3]) ELSE d
        /\ bq' = EvalAll(Base, d')
Spec == Init /\ [][Next]_<<d, pick, bq>>
\* 4: the array, 5 and 6: its rows
R(more) == LET q == EvalFrom(Base \o more, bq, d) IN q[Len(q)]
B(f, a, b) == [op |-> "bin", f |-> f, a |-> a, b |-> b]
C(f, a, c, s) == [op |-> "cbin", f |-> f, a |-> a, c |-> <<c>>, side |-> s]
Cp(f, a, c) == [op |-> "ccmp", f |-> f, a |-> a, c |-> <<c>>, side |-> "r"]
Same(x, y) == x.st = y.st /\ x.v = y.v
Arithmetic ==
    /\ \A f \in {"+", "*"} : Same(R(<<B(f, 5, 6)>>), R(<<B(f, 6, 5)>>))
    /\ Same(R(<<B("-", 5, 6)>>), R(<<C("*", 6, RatI(-1), "r"), B("+", 5, 7)>>))
    /\ Same(R(<<C("-", 5, RatI(1), "l")>>), R(<<C("*", 5, RatI(-1), "r"), C("+", 7, RatI(1), "r")>>))
    \* an array operation is the operation on its rows
    /\ LET s == [op |-> "idx", a |-> 7, key |-> Arr(0)] IN Same(R(<<B("*", 4, 4), s>>), R(<<B("*", 5, 5)>>))
    \* the estimate is linear in the quantity when no sample is lost
    /\ LET a == R(<<C("+", 5, RatI(0), "r")>>) b == R(<<C("+", 6, RatI(0), "r")>>) s == R(<<B("+", 5, 6)>>)
           all(q) == \A l \in DOMAIN q.v : \A i \in DOMAIN q.v[l] : Usable(q.v[l][i])
       IN (all(a) /\ all(b)) => Estimate(s).mean[1] = QAdd(Estimate(a).mean[1], Estimate(b).mean[1])
Sel(a, m) == [op |-> "sel", a |-> a, m |-> m]
Selecting ==
    \A f \in {"<", ">=", "=="}, c \in {RatI(0), RatN(1, 2)} :
      LET m1 == Cp(f, 5, c) m2 == Cp("<=", 6, RatI(0)) IN
      \* a list of masks is their conjunction
      /\ Same(R(<<m1, m2, Sel(5, <<7, 8>>)>>), R(<<m1, m2, [op |-> "lg", a |-> 7, b |-> 8, f |-> "and"], Sel(5, <<9>>)>>))
      \* arithmetic commutes with selection
      /\ Same(R(<<m1, Sel(5, <<7>>), C("*", 8, RatI(2), "r")>>), R(<<m1, C("*", 5, RatI(2), "r"), Sel(8, <<7>>)>>))
      \* a mask and its negation part the samples
      /\ LET x == R(<<m1, Sel(5, <<7>>)>>) y == R(<<m1, [op |-> "lg", a |-> 7, b |-> 7, f |-> "not"], Sel(5, <<8>>)>>) IN
         \A l \in DOMAIN d : Len(x.v[l]) + Len(y.v[l]) = Len(d[l])
      \* a mask of the unselected quantity does not fit the selected one
      /\ R(<<m1, Sel(5, <<7>>), Sel(8, <<7>>)>>).st = "refuse"
      /\ R(<<m1, Sel(5, <<7>>), B("+", 8, 5)>>).st = "refuse"
Cat(k) == [op |-> "cat", a |-> <<5, 6>>, kind |-> k, sh |-> <<2>>, keys |-> IF k = "ts" THEN <<RatI(0), RatI(2)>> ELSE <<"p", "q">>]
Indexing ==
    /\ Same(R(<<Cat("array"), [op |-> "idx", a |-> 7, key |-> Arr(-1)]>>), R(<<C("+", 6, RatI(0), "r")>>))
    /\ Same(R(<<Cat("dict"), [op |-> "idx", a |-> 7, key |-> [k |-> "str", s |-> "p"]]>>), R(<<C("+", 5, RatI(0), "r")>>))
    /\ Same(R(<<Cat("ts"), [op |-> "idx", a |-> 7, key |-> [k |-> "time", t |-> RatI(2)]]>>), R(<<C("+", 6, RatI(0), "r")>>))
    /\ LET m == R(<<Cat("ts"), [op |-> "interp", a |-> 7, t |-> RatI(1)]>>) h == R(<<B("+", 5, 6), C("/", 7, RatI(2), "r")>>) IN Same(m, h)
    /\ R(<<[op |-> "idx", a |-> 4, key |-> Arr(2)]>>).st = "refuse"
    /\ Same(R(<<[op |-> "idx", a |-> 4, key |-> [k |-> "arr", key |-> <<[k |-> "s", a |-> None, b |-> None, st |-> -1]>>]], [op |-> "idx", a |-> 7, key |-> Arr(0)]>>),
            R(<<C("+", 6, RatI(0), "r")>>))
Mk(kind) == [kind |-> kind, size |-> 3, a |-> RatI(-2), b |-> RatI(2), safe |-> TRUE]
Moments ==
    \A kind \in {"legendre", "monomial"} :
      \E m \in {Mk(kind)} :
      \E mo \in {R(<<[op |-> "moments", a |-> 4, m |-> m, bottom |-> TRUE]>>)},
         mt \in {R(<<[op |-> "moments", a |-> 4, m |-> m, bottom |-> FALSE]>>)},
         cv \in {R(<<[op |-> "cov", a |-> 5, m |-> m, bottom |-> TRUE]>>)} :
      \* the same numbers, arranged by component or by moment
      /\ \A l \in DOMAIN d : \A i \in DOMAIN d[l] : \A p \in DOMAIN d[l][i] : \A c \in 0..1, k \in 0..2 :
           mo.v[l][i][p][c * 3 + k + 1] = mt.v[l][i][p][k * 2 + c + 1]
      \* covariance: symmetric, first row the moments
      /\ \A l \in DOMAIN d : \A i \in DOMAIN d[l] : \A p \in DOMAIN d[l][i] : \A r, s \in 0..2 :
           /\ cv.v[l][i][p][r * 3 + s + 1] = cv.v[l][i][p][s * 3 + r + 1]
           /\ cv.v[l][i][p][s + 1] = mo.v[l][i][p][s + 1]
      /\ \A k \in 0..2 : \E one \in {R(<<[op |-> "moment", a |-> 5, m |-> m, i |-> k]>>)} :
           \A l \in DOMAIN d : \A i \in DOMAIN d[l] : \A p \in DOMAIN d[l][i] : one.v[l][i][p][1] = mo.v[l][i][p][k + 1]
=============================================================================
