------------------------------ MODULE Sampler -------------------------------
(* The sampler: plans samples towards per-level targets, hands them to a        *)
(* sampling pool, polls the pool and stores what it delivers; renews failed     *)
(* samples and resumes from a stored state.  A sample is the record             *)
(* [l, k] : level index (1 = level 0) and serial number on that level.          *)
EXTENDS Storage

(* sm : [nl, tgt, cnt, st, out, lost]                                            *)
(*   tgt  target per level         cnt  number of samples created per level      *)
(*   st   the storage (Storage)    out  samples the pool still has to deliver    *)
(*   lost samples a volatile pool forgot when the process ended                  *)
NewSampler(kind, nl) ==
    [nl |-> nl, tgt |-> [l \in 1..nl |-> 0], cnt |-> [l \in 1..nl |-> 0],
     st |-> NewStorage(kind, nl), out |-> {}, lost |-> {}]

SetInitial(sm, ns) == [sm EXCEPT !.tgt = ns]
SetTarget(sm, ns) == [sm EXCEPT !.tgt = [l \in 1..sm.nl |-> Max2(@[l], ns[l])]]

NextSample(sm, l) == [l |-> l, k |-> sm.cnt[l]]
MayCreate(sm, l) == sm.cnt[l] < sm.tgt[l]
Create(sm, l) == [sm EXCEPT !.cnt[l] = @ + 1, !.out = @ \cup {NextSample(sm, l)}]
\* the whole plan: every level up to its target
PlanDone(sm) == \A l \in 1..sm.nl : sm.cnt[l] >= sm.tgt[l]

\* the pool delivers; the sampler stores in the same step (observed at its return)
Deliver(sm, sb, fb, rec) ==
    LET got == UNION {{sb[i].rows[j].id : j \in DOMAIN sb[i].rows} : i \in DOMAIN sb}
               \cup UNION {Rng(fb[i].ids) : i \in DOMAIN fb}
    IN [sm EXCEPT !.out = @ \ got, !.lost = @ \ got, !.st = SaveOps(SaveSamples(@, sb, fb), rec)]

FailedIds(sm) == UNION {Rng(sm.st.fail[l]) : l \in 1..sm.nl}

\* adaptive growth: a fraction num/den of the missing samples, rounded up,
\* all of them when that fraction of the estimate exceeds what is missing
Grow(n, est, num, den) ==
    IF est < n THEN n
    ELSE IF est * num > (est - n) * den THEN est
    ELSE n + (((est - n) * num + den - 1) \div den)

Restart(sm, durable) ==
    [sm EXCEPT !.cnt = [l \in 1..sm.nl |-> Len(sm.st.sched[l])],
               !.tgt = [l \in 1..sm.nl |-> 0],
               !.out = IF durable THEN UnfinishedIds(sm.st) ELSE {},
               !.lost = IF durable THEN {} ELSE UnfinishedIds(sm.st)]

(*------------------------------ design model --------------------------------*)
CONSTANTS MaxN, MaxRestarts
VARIABLES sm, pc, restarts, delivered
svars == <<sm, pc, restarts, delivered, s, fresh, disk>>

SInit == /\ sm = NewSampler("hdf", NLevels) /\ pc = "idle" /\ restarts = 0
         /\ delivered = {}
         /\ s = 0 /\ fresh = 0 /\ disk = 0
U == UNCHANGED <<s, fresh, disk>>

Target == /\ pc = "idle"
          /\ \E ns \in [1..NLevels -> 0..MaxN] : SetTarget(sm, ns) # sm /\ sm' = SetTarget(sm, ns)
          /\ UNCHANGED <<pc, restarts, delivered>> /\ U
BeginSchedule == /\ pc = "idle" /\ ~PlanDone(sm) /\ pc' = "sched" /\ UNCHANGED <<sm, restarts, delivered>> /\ U
CreateOne == /\ pc = "sched"
             /\ \E l \in 1..NLevels :
                  /\ MayCreate(sm, l)
                  /\ \A k \in 1..(l - 1) : ~MayCreate(sm, k)
                  /\ sm' = [Create(sm, l) EXCEPT !.st = SaveScheduled(@, l, <<NextSample(sm, l)>>)]
             /\ UNCHANGED <<pc, restarts, delivered>> /\ U
EndSchedule == /\ pc = "sched" /\ PlanDone(sm) /\ pc' = "idle" /\ UNCHANGED <<sm, restarts, delivered>> /\ U
Poll == /\ pc = "idle" /\ sm.out # {}
        /\ \E x \in sm.out, ok \in BOOLEAN :
             /\ sm' = IF ok THEN Deliver(sm, <<[l |-> x.l, rows |-> <<[id |-> x, f |-> <<1>>, c |-> <<1>>]>>]>>, <<>>, <<>>)
                      ELSE Deliver(sm, <<>>, <<[l |-> x.l, ids |-> <<x>>]>>, <<>>)
             /\ delivered' = IF ok THEN delivered \cup {x} ELSE delivered
        /\ UNCHANGED <<pc, restarts>> /\ U
RenewFailed == /\ pc = "idle" /\ FailedIds(sm) # {}
         /\ sm' = [sm EXCEPT !.out = @ \cup FailedIds(sm), !.st = ClearFailed(@)]
         /\ UNCHANGED <<pc, restarts, delivered>> /\ U
Crash == /\ pc = "idle" /\ restarts < MaxRestarts
         /\ restarts' = restarts + 1
         /\ \E d \in BOOLEAN : sm' = Restart(sm, d)
         /\ pc' = "idle" /\ UNCHANGED delivered /\ U
SNext == Target \/ BeginSchedule \/ CreateOne \/ EndSchedule \/ Poll \/ RenewFailed \/ Crash
SFair == WF_svars(CreateOne) /\ WF_svars(EndSchedule) /\ WF_svars(Poll)
SSpec == SInit /\ [][SNext]_svars /\ SFair

SOnceEach == \A l \in 1..NLevels :
              /\ NoDup(sm.st.sched[l]) /\ NoDup(Ids(sm.st.coll[l])) /\ NoDup(sm.st.fail[l])
              /\ Rng(Ids(sm.st.coll[l])) \cap Rng(sm.st.fail[l]) = {}
\* every created sample is in exactly one place
Conserved == \A l \in 1..NLevels : \A k \in 0..(sm.cnt[l] - 1) :
    LET x == [l |-> l, k |-> k] IN
      Cardinality({q \in {"ok", "fail", "out", "lost"} :
          \/ q = "ok" /\ x \in Rng(Ids(sm.st.coll[l]))
          \/ q = "fail" /\ x \in Rng(sm.st.fail[l])
          \/ q = "out" /\ x \in sm.out
          \/ q = "lost" /\ x \in sm.lost}) = 1
Contiguous == \A l \in 1..NLevels : sm.st.sched[l] = [i \in 1..sm.cnt[l] |-> [l |-> l, k |-> i - 1]]
NeverOver == \A l \in 1..NLevels : sm.cnt[l] <= MaxN
Collected == \A l \in 1..NLevels : Rng(Ids(sm.st.coll[l])) \subseteq delivered
CountsGrow == [][\A l \in 1..NLevels : sm'.cnt[l] >= sm.cnt[l]]_svars
\* a schedule that was begun ends, and whatever the pool holds is eventually stored
\* unless the process restarts forever
Drains == [](restarts = MaxRestarts => (sm.out # {} ~> \/ sm.out = {} \/ FailedIds(sm) # {}))
GrowOK == \A n \in 0..12, est \in 0..12, d \in 1..10 :
            LET g == Grow(n, est, 1, d) IN
            /\ g >= n /\ (est <= n => g = n) /\ (est > n => g > n /\ g <= est)
=============================================================================
