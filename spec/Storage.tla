------------------------------ MODULE Storage -------------------------------
(* The sample storage (in-memory and HDF5): what is recorded about scheduled,   *)
(* collected and failed samples, what every reader returns, and what survives   *)
(* closing and reopening.  Functional operators are the single source of truth: *)
(* the design model (Next), the program generator (StorageGen) and the          *)
(* validation of recorded executions (StorageTrace) all use them.               *)
EXTENDS Util

(* st : [kind, nl, sched, coll, fail, ops]                                      *)
(*   sched[l]  sequence of ids               (l in 1..nl stands for level l-1)  *)
(*   coll[l]   sequence of [id, f, c]  (f, c: fine / coarse result vectors)     *)
(*   fail[l]   sequence of ids                                                  *)
(*   ops[l]    <<total time, number of timed samples>>                          *)
NewStorage(kind, nl) ==
    [kind |-> kind, nl |-> nl,
     sched |-> [l \in 1..nl |-> <<>>],
     coll  |-> [l \in 1..nl |-> <<>>],
     fail  |-> [l \in 1..nl |-> <<>>],
     ops   |-> [l \in 1..nl |-> <<RatI(0), 0>>]]

SaveScheduled(st, l, ids) == [st EXCEPT !.sched[l] = @ \o ids]

\* one save call: any number of levels, each with its batch
RECURSIVE SaveSucc(_, _)
SaveSucc(st, batch) ==     \* batch: sequence of [l, rows]
    IF batch = <<>> THEN st
    ELSE SaveSucc([st EXCEPT !.coll[Head(batch).l] = @ \o Head(batch).rows], Tail(batch))
RECURSIVE SaveFail(_, _)
SaveFail(st, batch) ==     \* batch: sequence of [l, ids]
    IF batch = <<>> THEN st
    ELSE SaveFail([st EXCEPT !.fail[Head(batch).l] = @ \o Head(batch).ids], Tail(batch))
SaveSamples(st, sb, fb) == SaveFail(SaveSucc(st, sb), fb)

RECURSIVE SaveOps(_, _)
SaveOps(st, recs) ==       \* recs: sequence of [l, t, n]
    IF recs = <<>> THEN st
    ELSE LET r == Head(recs) IN
         SaveOps(IF r.n > 0 THEN [st EXCEPT !.ops[r.l] = <<RAdd(@[1], r.t), @[2] + r.n>>] ELSE st,
                 Tail(recs))

ClearFailed(st) == [st EXCEPT !.fail = [l \in 1..st.nl |-> <<>>]]
Reopen(st) == st                       \* everything survives closing and reopening

(*------------------------------- readers ------------------------------------*)
Ids(rows) == [i \in DOMAIN rows |-> rows[i].id]
NFinished(st) == [l \in 1..st.nl |-> Len(st.coll[l]) + Len(st.fail[l])]
NCollected(st) == [l \in 1..st.nl |-> Len(st.coll[l])]
FinishedIds(st, l) == Rng(Ids(st.coll[l])) \cup Rng(st.fail[l])
UnfinishedIds(st) == UNION {Rng(st.sched[l]) \ FinishedIds(st, l) : l \in 1..st.nl}
\* level 0 (index 1) has no coarse sample: only the fine result is returned
Pairs(st, l) == [i \in DOMAIN st.coll[l] |->
                    IF l = 1 THEN <<st.coll[l][i].f>> ELSE <<st.coll[l][i].f, st.coll[l][i].c>>]
Cost(st, l) == IF st.ops[l][2] = 0 THEN RatI(0) ELSE RDiv(st.ops[l][1], RatI(st.ops[l][2]))

\* a list of half-open ranges <<a, b>> covers 0..n-1 once, in order
RECURSIVE IsPartition(_, _, _)
IsPartition(rs, from, n) ==
    IF rs = <<>> THEN from = n
    ELSE Head(rs)[1] = from /\ Head(rs)[2] > from /\ IsPartition(Tail(rs), Head(rs)[2], n)

(*------------------------------ design model --------------------------------*)
CONSTANTS NLevels, MaxIds, Vals
VARIABLES s, fresh, disk
vars == <<s, fresh, disk>>

IdsOf(l) == {<<l, k>> : k \in 1..MaxIds}
Outstanding(l) == Rng(s.sched[l]) \ FinishedIds(s, l)

Init == /\ s = NewStorage("hdf", NLevels)
        /\ fresh = [l \in 1..NLevels |-> 0]
        /\ disk = NewStorage("hdf", NLevels)

Schedule(l) ==
    /\ fresh[l] < MaxIds
    /\ fresh' = [fresh EXCEPT ![l] = @ + 1]
    /\ s' = SaveScheduled(s, l, <<<<l, fresh[l] + 1>>>>)
    /\ disk' = s'
Collect(l) ==
    \E id \in Outstanding(l), f \in Vals, c \in Vals :
        /\ s' = SaveSamples(s, <<[l |-> l, rows |-> <<[id |-> id, f |-> <<f>>, c |-> <<c>>]>>]>>, <<>>)
        /\ disk' = s' /\ UNCHANGED fresh
Fail(l) ==
    \E id \in Outstanding(l) :
        /\ s' = SaveSamples(s, <<>>, <<[l |-> l, ids |-> <<id>>]>>)
        /\ disk' = s' /\ UNCHANGED fresh
Renew == /\ \E l \in 1..NLevels : s.fail[l] # <<>>
         /\ s' = ClearFailed(s) /\ disk' = s' /\ UNCHANGED fresh
DoReopen == /\ s' = Reopen(disk) /\ UNCHANGED <<fresh, disk>>

Next == \/ \E l \in 1..NLevels : Schedule(l) \/ Collect(l) \/ Fail(l)
        \/ Renew \/ DoReopen
Spec == Init /\ [][Next]_vars

(*------------------------------- properties ---------------------------------*)
TypeOK == /\ \A l \in 1..NLevels : s.coll[l] \in Seq([id : IdsOf(l), f : Seq(Vals), c : Seq(Vals)])
OnceEach == \A l \in 1..NLevels :
              /\ NoDup(s.sched[l]) /\ NoDup(Ids(s.coll[l])) /\ NoDup(s.fail[l])
              /\ Rng(Ids(s.coll[l])) \cap Rng(s.fail[l]) = {}
              /\ FinishedIds(s, l) \subseteq Rng(s.sched[l])
Accounting == /\ \A l \in 1..NLevels :
                   Len(s.sched[l]) = NFinished(s)[l] + Cardinality(Outstanding(l))
              /\ Cardinality(UnfinishedIds(s)) = SumSeq([l \in 1..NLevels |-> Cardinality(Outstanding(l))])
Durable == disk = s
KeptInOrder == [][\A l \in 1..NLevels : /\ IsPre(s.coll[l], s'.coll[l])
                                        /\ IsPre(s.sched[l], s'.sched[l])]_vars
=============================================================================
