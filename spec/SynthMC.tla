------------------------------ MODULE SynthMC ------------------------------
(* Laws of the failing share over every length, of the layout and of the test decisions.     *)
EXTENDS Synth
CONSTANTS MaxLen
VARIABLES f, n, len, fm
vars == <<f, n, len, fm>>
Fs == {<<0, 1>>, <<1, 10>>, <<1, 4>>, <<1, 3>>, <<1, 2>>, <<3, 4>>, <<9, 10>>, <<1, 1>>}
Init == f \in Fs /\ n = 0 /\ len = 0 /\ fm \in [nq : 1..2, nt : 1..2, nl : 1..3, nc : 1..2]
Next == len < MaxLen /\ len' = len + 1 /\ n' = (IF Fails(n, len, f) THEN n + 1 ELSE n) /\ UNCHANGED <<f, fm>>
Spec == Init /\ [][Next]_vars
InBand == Band(n, len, f)
\* a share of one fails everything, of zero nothing
Extremes == (f = <<1, 1>> => n = len) /\ (f = <<0, 1>> => n = 0)
\* same draw, same offset: the difference of the levels is the difference of the step errors
X == [c \in 1..fm.nc |-> c * 1000000 - 1500000]
S == [c \in 1..fm.nc |-> 1000000 + c]
Coupled == \A i \in 1..NResults(fm) : FineOf(fm, X, S, <<1, 4>>, <<1, 2>>)[i] - CoarseOf(fm, X, S, <<1, 2>>)[i]
                = (S[CompOf(fm, i)] \div 4) - (S[CompOf(fm, i)] \div 2)
Coarsest == \A i \in 1..NResults(fm) : CoarseOf(fm, X, S, <<0, 1>>)[i] = 0 /\ FineOf(fm, X, S, <<1, 4>>, <<0, 1>>)[i] = X[CompOf(fm, i)] + (S[CompOf(fm, i)] \div 4)
Samples == {<<RatI(a), RatI(b), RatI(c)>> : a, b, c \in -2..2}
Tests == len = 0 => \A s \in Samples : SS(s)[1] > 0 =>
    /\ TMargin(T2Of(s, SMean(s)), 2, <<1, 100>>) > 0                                         \* the own mean passes
    /\ TMargin(T2Of(s, RatI(60)), 2, <<1, 100>>) < 0                                         \* a far one does not
    /\ \A mu \in {RatI(0), RatI(1), RatI(4)} : TMargin(T2Of(s, mu), 2, <<1, 20>>) < TMargin(T2Of(s, mu), 2, <<1, 100>>)
    /\ FMargin(<<s, s>>, <<1, 20>>) > 0 /\ FMargin(<<s, s, s>>, <<1, 20>>) > 0
    /\ LET far == [i \in 1..3 |-> RAdd(s[i], RatI(60))] IN FMargin(<<s, far>>, <<1, 20>>) < 0 /\ FMargin(<<s, s, far>>, <<1, 20>>) < 0
=============================================================================
