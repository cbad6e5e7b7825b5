----------------------------- MODULE SubsampleMC ----------------------------
(* Design model of drawing k of the n samples of a level that is read chunk by chunk: how     *)
(* many to take of a chunk is decided when it is read, from what is still wanted and how      *)
(* many samples are still to come; within a chunk a sample may be drawn twice.               *)
EXTENDS Util
CONSTANTS MaxChunks, MaxSize
VARIABLES sizes, k, c, left, got, multi
vars == <<sizes, k, c, left, got, multi>>
Rest(ss, i) == SumSeq(SubSeq(ss, i, Len(ss)))
Init == /\ sizes \in UNION {[1..m -> 1..MaxSize] : m \in 1..MaxChunks}
        /\ k \in 0..(MaxSize * MaxChunks) /\ k <= Rest(sizes, 1)
        /\ c = 1 /\ left = k /\ got = {} /\ multi = FALSE
\* feasible numbers of the c-th chunk (of a hypergeometric draw)
Feasible == {j \in 0..sizes[c] : j <= left /\ left - j <= Rest(sizes, c + 1)}
Offset == Rest(sizes, 1) - Rest(sizes, c)
Read == /\ c <= Len(sizes)
        /\ \E j \in Feasible : \E S \in SUBSET (1..sizes[c]) :
             /\ Cardinality(S) <= j /\ (j > 0 => S # {})
             /\ left' = left - j /\ got' = got \cup {Offset + x : x \in S} /\ multi' = (multi \/ Cardinality(S) < j)
        /\ c' = c + 1 /\ UNCHANGED <<sizes, k>>
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)
Over == c > Len(sizes)
Enough == left <= Rest(sizes, c)
Exactly == Over => left = 0 /\ Cardinality(got) <= k /\ (~multi => Cardinality(got) = k)
NeverStuck == c <= Len(sizes) => Feasible # {}
Inside == got \subseteq 1..Rest(sizes, 1)
Ends == <>Over
\* every sample can be drawn: the first k chunks' counts leave room for each
RECURSIVE Reach(_, _, _)
Reach(ss, i, w) == IF i > Len(ss) THEN {} ELSE
    LET F == {j \in 0..ss[i] : j <= w /\ w - j <= Rest(ss, i + 1)} IN
    (IF \E j \in F : j > 0 THEN {i} ELSE {}) \cup UNION {Reach(ss, i + 1, w - j) : j \in F}
Reachable == (c = 1 /\ k > 0) => Reach(sizes, 1, k) = DOMAIN sizes
=============================================================================
