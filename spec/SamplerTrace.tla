---------------------------- MODULE SamplerTrace ----------------------------
(* Recorded runs of the real sampler against Sampler.  Events: begin (a sampler *)
(* is constructed; also after a restart), init / target, p_sched (the sampler   *)
(* hands a sample to the pool), p_poll (what the pool delivered), p_told (the    *)
(* ids the pool was told to be unfinished), call / ret around the operations    *)
(* that drive the pool, and dead (the process ended inside a call).             *)
EXTENDS Sampler, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, x, q
tv == <<l, x, q, s, fresh, disk, sm, pc, restarts, delivered>>

(* q : [par, mode, st0, created, renewed, polls, vals, want]                     *)
(*   mode     operation in progress            st0  storage when it began        *)
(*   created  per level, samples handed over but not yet stored as scheduled     *)
(*   vals     sample -> result the pool computed for it                          *)
\* the k-th of nl levels in a geometric sequence from a to b, rounded
RECURSIVE Pow(_, _)
Pow(a, k) == IF k = 0 THEN 1 ELSE a * Pow(a, k - 1)
Geo(a, b, k, nl) ==
    IF nl = 1 THEN a
    ELSE LET m == nl - 1 R == Pow(2, m) * Pow(a, nl - k) * Pow(b, k - 1) IN
         CHOOSE v \in 0..Max2(a, b) : (v = 0 \/ Pow(2 * v - 1, m) <= R) /\ R <= Pow(2 * v + 1, m)
InitTargets(arg, nl) ==
    LET a == IF arg = <<>> THEN <<100, 10>> ELSE IF Len(arg) = 1 THEN <<arg[1], 10>> ELSE arg IN
    IF Len(a) = 2 THEN [k \in 1..nl |-> Geo(a[1], a[2], k, nl)] ELSE a

Grown(n, est, c) ==     \* admissible new targets: exact for dyadic fractions, one more for 1/10
    LET gr == Grow(n, est, c[1], c[2]) IN
    IF c[2] # 10 THEN {gr}
    ELSE {gr} \cup (IF gr < est THEN {gr + 1} ELSE {})
         \cup (IF est > n /\ est * c[1] >= (est - n) * c[2] THEN {est} ELSE {})

ObsJudge(st, o) ==
    LET L == 1..st.nl IN
      Cl("ReadersAnswer", o.err = <<>>)
 \cup Cl("FinishedCount", o.nfin = NFinished(st))
 \cup Cl("CollectedCount", o.ncoll = NCollected(st))
 \cup Cl("ScheduledStored", o.sched = [k \in L |-> [i \in DOMAIN st.sched[k] |-> st.sched[k][i]]])
 \cup (IF st.kind = "hdf" THEN
            Cl("UnfinishedExact", Rng(o.unf) = UnfinishedIds(st) /\ NoDup(o.unf))
       \cup Cl("FailedStored", o.fail = st.fail)
       ELSE {})
 \cup Cl("ResultsStored", o.pairs = [k \in L |-> Pairs(st, k)])
 \cup Cl("CostStored", Len(o.nops) = st.nl /\ \A k \in L : o.nops[k] = Cost(st, k))

Id(p) == [l |-> p[1] + 1, k |-> p[2]]
Storeds(st, cr) == [st EXCEPT !.sched = [k \in 1..st.nl |-> @[k] \o cr[k]]]
NoneCreated(nl) == [k \in 1..nl |-> <<>>]

Deliv(e) ==    \* the deliveries of one poll, grouped by level in order
    LET lv == 1..x.nl
        ok(k) == SelectSeq(e.ok, LAMBDA r : r.l = k)
        bd(k) == SelectSeq(e.bad, LAMBDA r : r.l = k)
        rows(k) == LET ss == ok(k) IN [i \in DOMAIN ss |-> [id |-> ss[i].id, f |-> ss[i].f, c |-> ss[i].c]]
        ids(k) == LET ss == bd(k) IN [i \in DOMAIN ss |-> ss[i].id]
    IN [sb |-> [k \in lv |-> [l |-> k, rows |-> rows(k)]], fb |-> [k \in lv |-> [l |-> k, ids |-> ids(k)]]]

\* new sampler state and broken clauses of an event: [x, q, bad]
Step(e) ==
    CASE e.op = "begin" ->
           LET y == NewSampler(e.kind, e.nl) IN
           [x |-> y,
            q |-> [par |-> e.params, mode |-> "idle", st0 |-> y.st, created |-> NoneCreated(e.nl), renewed |-> {},
                   polls |-> 0, est |-> <<>>, coef |-> <<1, 1>>, cnt0 |-> y.cnt, t |-> "", running |-> 0],
            bad |-> Cl("OperationAccepted", e.raised = "") \cup Cl("ToldUnfinished", e.told = <<>>)
                    \cup Cl("LevelCount", e.nlev = e.nl)
                    \cup (IF e.raised = "" THEN ObsJudge(y.st, e.obs) ELSE {})]
      [] e.op = "restart" ->
           LET y == [Restart(x, e.durable) EXCEPT !.out = Rng(e.out)] IN
           [x |-> y, q |-> [q EXCEPT !.mode = "idle", !.st0 = y.st, !.created = NoneCreated(x.nl), !.renewed = {}],
            bad |-> Cl("OperationAccepted", e.raised = "")
                    \cup (IF x.st.kind = "hdf" THEN Cl("ToldUnfinished", Rng(e.told) = UnfinishedIds(y.st) /\ NoDup(e.told)) ELSE {})
                    \cup Cl("CountResumed", e.lsched = y.cnt)
                    \cup (IF e.raised = "" THEN ObsJudge(y.st, e.obs) ELSE {})]
      [] e.op = "init" ->
           [x |-> SetInitial(x, InitTargets(e.arg, x.nl)), q |-> q, bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "target" ->
           [x |-> SetTarget(x, e.ns), q |-> q, bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "call" ->
           [x |-> x,
            q |-> [q EXCEPT !.mode = e.what, !.st0 = x.st, !.created = NoneCreated(x.nl), !.renewed = {}, !.polls = 0,
                            !.est = e.est, !.coef = e.coef, !.cnt0 = x.cnt, !.t = e.t, !.running = 0],
            bad |-> {}]
      [] e.op = "p_sched" ->
           LET id == e.id
               lev == e.lev + 1
               known == lev \in 1..x.nl
               fresh2 == known /\ id.l = lev /\ id.k = x.cnt[lev]
               isRenew == q.mode = "renew" /\ id \in FailedIds(x)
               tgtOK == \/ q.mode = "adding" /\ known /\ \E v \in Grown(q.cnt0[lev], q.est[lev], q.coef) : x.cnt[lev] < Max2(v, x.tgt[lev])
                        \/ q.mode = "schedule" /\ known /\ x.cnt[lev] < x.tgt[lev]
               clauses ==
                    (IF isRenew THEN Cl("RenewOnce", id \notin q.renewed /\ id.l = lev)
                     ELSE Cl("IdFresh", known /\ id \notin Rng(x.st.sched[lev]) /\ id \notin Rng(q.created[lev]))
                     \cup Cl("IdNext", fresh2)
                     \cup Cl("WithinTarget", tgtOK)
                     \cup Cl("RenewOnlyFailed", q.mode # "renew"))
                    \cup Cl("LevelCoupling", known /\ e.fine = q.par[lev] /\ e.coarse = IF lev = 1 THEN 0 ELSE q.par[lev - 1])
           IN [x |-> IF isRenew THEN [x EXCEPT !.out = @ \cup {id}]
                     ELSE IF known THEN [x EXCEPT !.cnt[lev] = @ + 1, !.out = @ \cup {id}] ELSE x,
               q |-> IF isRenew THEN [q EXCEPT !.renewed = @ \cup {id}]
                     ELSE IF known THEN [q EXCEPT !.created[lev] = Append(@, id)] ELSE q,
               bad |-> clauses]
      [] e.op = "p_poll" ->
           LET d == Deliv(e) IN
           [x |-> Deliver(x, d.sb, d.fb, e.times),
            q |-> [q EXCEPT !.polls = @ + 1, !.running = e.running], bad |-> {}]
      [] e.op = "ret" ->
           LET y0 == [x EXCEPT !.st = Storeds(@, q.created)]
               y1 == IF q.mode = "renew" THEN [y0 EXCEPT !.st = ClearFailed(@)] ELSE y0
               y == IF q.mode = "adding" THEN [y1 EXCEPT !.tgt = [k \in 1..x.nl |-> Max2(@[k], y1.cnt[k])]] ELSE y1
               L == 1..x.nl
           IN [x |-> y, q |-> [q EXCEPT !.mode = "idle", !.created = NoneCreated(x.nl), !.renewed = {}, !.st0 = y.st],
               bad |-> Cl("OperationAccepted", e.raised = "")
                 \cup (IF e.raised = "" THEN
                         ObsJudge(y.st, e.obs)
                         \cup Cl("CountTracked", e.lsched = y.cnt)
                         \cup Cl("FinishedReported", e.nfin = NFinished(y.st))
                         \cup (IF q.mode = "schedule" THEN Cl("TargetReached", \A k \in L : y.cnt[k] >= y.tgt[k]) ELSE {})
                         \cup (IF q.mode = "renew" THEN Cl("AllFailedRenewed", q.renewed = FailedIds(y0)) ELSE {})
                         \cup (IF q.mode \in {"schedule", "ask"} THEN
                                 Cl("Polled", IF q.t \in {"zero", "neg"} THEN q.polls = 0 ELSE q.polls > 0)
                                 \* a wait whose time is over ends (one poll more is allowed)
                                 \cup Cl("WaitEnds", q.t = "small" => q.polls <= 2) ELSE {})
                         \cup (IF q.mode = "ask" THEN
                                 Cl("WaitedForAll", q.t \in {"none", "long"} => y.out = {} /\ e.value = 0)
                                 \cup Cl("RunningReported", q.t = "small" => e.value = q.running) ELSE {})
                         \cup (IF q.mode = "adding" THEN
                                 LET gs(k) == Grown(q.cnt0[k], q.est[k], q.coef)
                                     below == {k \in L : y.cnt[k] < q.est[k]} IN
                                 Cl("GrowthExact", \A k \in L : \E v \in gs(k) : y.cnt[k] = Max2(v, x.tgt[k]))
                                 \cup Cl("AddingVerdict", IF e.value = 1 THEN below = {}
                                                          ELSE e.value = 0 /\ \E k \in L : \E v \in gs(k) : v < q.est[k])
                                 \cup Cl("HalfFinished", \A k \in below : \E v \in gs(k) : 2 * NFinished(y.st)[k] >= v)
                               ELSE {})
                       ELSE {})]
      [] e.op = "dead" ->
           \* the process ended inside the call: what is stored lies between the two states
           LET full == Storeds(x.st, q.created)
               o == e.obs
               L == 1..x.nl
               okS == Len(o.sched) = x.nl /\ \A k \in L : IsPre(q.st0.sched[k], o.sched[k]) /\ IsPre(o.sched[k], full.sched[k])
               okP == Len(o.pairs) = x.nl /\ \A k \in L : IsPre(Pairs(q.st0, k), o.pairs[k]) /\ IsPre(o.pairs[k], Pairs(full, k))
               okF == Len(o.fail) = x.nl /\ \A k \in L :
                        \/ IsPre(q.st0.fail[k], o.fail[k]) /\ IsPre(o.fail[k], full.fail[k])
                        \/ q.mode = "renew" /\ o.fail[k] = <<>>
               keep == [full EXCEPT !.sched = [k \in L |-> IF okS THEN o.sched[k] ELSE @[k]],
                                    !.coll = [k \in L |-> IF okP THEN SubSeq(@[k], 1, Len(o.pairs[k])) ELSE @[k]],
                                    !.fail = [k \in L |-> IF okF THEN o.fail[k] ELSE @[k]],
                                    !.ops = e.ops]
           IN [x |-> [x EXCEPT !.st = keep],
               q |-> [q EXCEPT !.mode = "idle", !.created = NoneCreated(x.nl), !.renewed = {}],
               bad |-> Cl("CrashKeepsScheduled", okS) \cup Cl("CrashKeepsResults", okP) \cup Cl("CrashKeepsFailed", okF)
                       \cup ObsJudge(keep, o)]

TraceInit == /\ l = 0 /\ x = 0 /\ q = 0 /\ s = 0 /\ fresh = 0 /\ disk = 0 /\ sm = 0 /\ pc = 0 /\ restarts = 0 /\ delivered = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Step(Trace[l + 1]) IN
          /\ x' = r.x /\ q' = r.q /\ l' = l + 1
          /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(r.bad)]))
    /\ UNCHANGED <<s, fresh, disk, sm, pc, restarts, delivered>>
TraceSpec == TraceInit /\ [][TraceNext]_tv
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
