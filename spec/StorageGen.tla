----------------------------- MODULE StorageGen -----------------------------
(* Random storage programs: the operations a sampler may issue, in any order    *)
(* the design allows, with batches spanning levels in any order.                *)
EXTENDS Storage, Json, Randomization
CONSTANTS Depth, MaxLevels, Kinds, NCodes, MaxBatch, Shapes
VARIABLES hist, next, phase
gvars == <<s, fresh, disk, hist, next, phase>>

RE(S) == RandomElement(S)
\* a random sequence without repetition over a random subset of S, at most k long
RECURSIVE RandPerm(_, _)
RandPerm(S, k) == IF k = 0 \/ S = {} THEN <<>>
                  ELSE LET x == RE(S) IN <<x>> \o RandPerm(S \ {x}, k - 1)

GInit == /\ s = NewStorage("x", 1) /\ disk = s /\ fresh = 0 /\ hist = <<>> /\ next = <<>>
         /\ phase = "new"
GNew == /\ phase = "new" /\ phase' = "run"
        /\ \E kind \in {RE(Kinds)}, nl \in {RE(1..MaxLevels)}, shp \in {RE(Shapes)} :
           \E k0 \in {[l \in 1..nl |-> RE(0..3)]} :     \* an initial round of scheduling
             LET ids(l) == [i \in 1..k0[l] |-> i - 1] IN
             /\ s' = [NewStorage(kind, nl) EXCEPT !.sched = [l \in 1..nl |-> ids(l)]]
             /\ next' = k0
             /\ hist' = <<[op |-> "new", kind |-> kind, nl |-> nl, shape |-> shp]>>
                        \o [l \in 1..nl |-> [op |-> "sched", l |-> l, ids |-> ids(l)]]
        /\ fresh' = 1 /\ UNCHANGED disk

GSched == \E l \in {RE(1..s.nl)}, k \in {RE(1..3)} :
            LET ids == [i \in 1..k |-> next[l] + i - 1] IN
            /\ s' = SaveScheduled(s, l, ids)
            /\ next' = [next EXCEPT ![l] = @ + k]
            /\ hist' = Append(hist, [op |-> "sched", l |-> l, ids |-> ids])
Out(l) == Rng(s.sched[l]) \ FinishedIds(s, l)
GSave ==
    /\ \E l \in 1..s.nl : Out(l) # {}
    /\ \E lseq \in {RandPerm(1..s.nl, RE(1..s.nl))}, fseq \in {RandPerm(1..s.nl, RE(0..s.nl))} :
      \E pick \in {[l \in 1..s.nl |-> RandPerm(Out(l), RE(0..MaxBatch))]} :
      \E cut \in {[l \in 1..s.nl |-> RE(0..Len(pick[l]))]} :
        LET sb == [i \in DOMAIN lseq |->
                     [l |-> lseq[i],
                      rows |-> [j \in 1..cut[lseq[i]] |->
                                  [id |-> pick[lseq[i]][j], f |-> <<RE(0..NCodes-1)>>, c |-> <<RE(0..NCodes-1)>>]]]]
            fb == [i \in DOMAIN fseq |->
                     [l |-> fseq[i], ids |-> SubSeq(pick[fseq[i]], cut[fseq[i]] + 1, Len(pick[fseq[i]]))]]
        IN \E sb0 \in {sb} :     \* bind once: RandomElement must not be re-evaluated
           /\ s' = SaveSamples(s, sb0, fb)
           /\ hist' = Append(hist, [op |-> "save", s |-> sb0, f |-> fb])
           /\ UNCHANGED next
GOps == \E l \in {RE(1..s.nl)}, t \in {RE(1..8)}, n \in {RE(0..4)} :
          \E l2 \in {RE(1..s.nl)}, t2 \in {RE(1..8)}, n2 \in {RE(1..3)} :
            LET rs == IF l2 = l THEN <<[l |-> l, t |-> t, n |-> n]>>
                      ELSE <<[l |-> l, t |-> t, n |-> n], [l |-> l2, t |-> t2, n |-> n2]>> IN
            /\ hist' = Append(hist, [op |-> "nops", r |-> rs])
            /\ UNCHANGED <<s, next>>
GClear == /\ s.kind = "hdf" /\ \E l \in 1..s.nl : s.fail[l] # <<>>
          /\ s' = ClearFailed(s) /\ hist' = Append(hist, [op |-> "clear"]) /\ UNCHANGED next
GReopen == /\ s.kind = "hdf"
           /\ \E how \in {RE({"plain", "global", "otherformat"})} :
                 hist' = Append(hist, [op |-> "reopen", how |-> how])
           /\ UNCHANGED <<s, next>>
GNext == GNew \/ (phase = "run" /\ phase' = phase /\ fresh' = fresh + 1 /\ UNCHANGED disk /\
                  (GSched \/ GSave \/ GSave \/ GOps \/ GClear \/ GReopen))
GSpec == GInit /\ [][GNext]_gvars
Emit == fresh = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
