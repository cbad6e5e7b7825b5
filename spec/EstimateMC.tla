----------------------------- MODULE EstimateMC -----------------------------
(* The streaming estimator: a level's samples arrive in chunks of any sizes, the  *)
(* estimator keeps counts and sums only. Exhaustively: whatever the samples and   *)
(* the chunking, what it ends with is the two-pass definition of Quantity.        *)
EXTENDS Quantity
CONSTANTS NS
Vals == {RatI(-1), RatI(0), RatN(3, 2), RNaN}
VARIABLES d, pos, acc
vars == <<d, pos, acc>>
Zero == [n |-> 0, rm |-> 0, s |-> RatI(0), s2 |-> RatI(0)]
Init == /\ d \in UNION {[1..n -> {<<<<f>>, <<c>>>> : f, c \in Vals}] : n \in 1..NS}
        /\ pos = 0 /\ acc = Zero
One(a, smp) == IF ~Usable(smp) THEN [a EXCEPT !.rm = @ + 1]
               ELSE LET x == Diff(smp)[1] IN [a EXCEPT !.n = @ + 1, !.s = QAdd(@, x), !.s2 = QAdd(@, QMul(x, x))]
RECURSIVE Fold(_, _)
Fold(a, ss) == IF ss = <<>> THEN a ELSE Fold(One(a, Head(ss)), Tail(ss))
Chunk == \E k \in 1..(Len(d) - pos) : pos' = pos + k /\ acc' = Fold(acc, SubSeq(d, pos + 1, pos + k)) /\ UNCHANGED d
Spec == Init /\ [][Chunk]_vars
QQ(v) == Q(Scalar, "t", -1, v)
Done == pos = Len(d)
StreamIsDefinition == Done =>
    LET e == Estimate(QQ(<<d>>)) IN
    /\ acc.n = e.ns[1] /\ acc.rm = e.rm[1]
    /\ acc.n > 0 => QDiv(acc.s, RatI(acc.n)) = e.lm[1][1]
    /\ acc.n > 1 => QDiv(QSub(acc.s2, QDiv(QMul(acc.s, acc.s), RatI(acc.n))), RatI(acc.n - 1)) = e.lv[1][1]
\* the same experiment on the coarse level: the levels telescope to the mean of the fine results
Telescopes == (Done /\ \A i \in DOMAIN d : Usable(d[i])) =>
    LET e == Estimate(QQ(<<[i \in DOMAIN d |-> <<d[i][2]>>], d>>))
    IN e.mean[1] = MeanOf([i \in DOMAIN d |-> d[i][1]], 1)
Shift(smp) == [p \in DOMAIN smp |-> [c \in DOMAIN smp[p] |-> QAdd(smp[p][c], RatI(3))]]
ShiftInvariant == pos = 0 =>
    LET e == Estimate(QQ(<<d>>)) f == Estimate(QQ(<<[i \in DOMAIN d |-> Shift(d[i])]>>)) IN
    e.lv = f.lv /\ e.lm = f.lm /\ e.ns = f.ns
OrderIrrelevant == pos = 0 => Estimate(QQ(<<d>>)) = Estimate(QQ(<<[i \in DOMAIN d |-> d[Len(d) + 1 - i]]>>))
=============================================================================
