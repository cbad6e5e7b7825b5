----------------------------- MODULE PoolTrace ------------------------------
(* Recorded executions of the real local pools against Pool.                    *)
EXTENDS Pool, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, x, m
tv == <<l, x, m, pvars>>
(* m : [exp, val, seed, nok, nmaybe, left]  exp: id -> expected outcome            *)
TLevel(y) == 1
TFailed(y) == FALSE

EmptyF == [i \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]

Step(e) ==
    CASE e.op = "begin" ->
           [x |-> NewPool(e.nl), m |-> [exp |-> EmptyF, val |-> EmptyF, ok |-> [k \in 1..e.nl |-> 0], amb |-> [k \in 1..e.nl |-> 0], nl |-> e.nl,
                                        seeds |-> EmptyF],
            bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "fresh" ->     \* another pool: the results of the samples are remembered
           [x |-> NewPool(m.nl), m |-> [m EXCEPT !.exp = EmptyF, !.ok = [k \in 1..m.nl |-> 0], !.amb = [k \in 1..m.nl |-> 0]],
            bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "sched" ->
           [x |-> Sched(x, e.id), m |-> [m EXCEPT !.exp = Put(@, e.id, e.st)], bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "done" -> [x |-> Complete(x, e.id), m |-> m, bad |-> {}]
      [] e.op = "poll" ->
           LET okid == [i \in DOMAIN e.ok |-> e.ok[i].id]
               bdid == [i \in DOMAIN e.bad |-> e.bad[i].id]
               got == Rng(okid) \cup Rng(bdid)
               fin == IF e.final THEN [x EXCEPT !.done = @ \cup x.run, !.run = {}] ELSE x
               y == HandOver(fin, got)
               known == got \cap DOMAIN m.exp
               nt == [k \in 1..m.nl |-> x.nt[k] + SumSeq([i \in DOMAIN e.times |-> IF e.times[i].l = k THEN e.times[i].n ELSE 0])]
               ok2 == [k \in 1..m.nl |-> m.ok[k] + Cardinality({i \in DOMAIN e.ok : e.ok[i].l = k})]
               am2 == [k \in 1..m.nl |-> m.amb[k] + Cardinality({i \in DOMAIN e.bad : e.bad[i].l = k})]
               v2 == [i \in DOMAIN m.val \cup Rng(okid) |->
                        IF i \in DOMAIN m.val THEN m.val[i]
                        ELSE LET j == CHOOSE j \in DOMAIN e.ok : e.ok[j].id = i IN <<e.ok[j].f, e.ok[j].c>>]
           IN IF e.raised # "" THEN [x |-> x, m |-> m, bad |-> {"OperationAccepted"}]
              ELSE
              [x |-> [y EXCEPT !.nt = nt], m |-> [m EXCEPT !.ok = ok2, !.amb = am2, !.val = v2],
               bad |-> Cl("DeliveredOnce", NoDup(okid \o bdid) /\ got \cap x.dl = {})
                  \cup Cl("DeliveredScheduled", got \subseteq DOMAIN m.exp)
                  \cup Cl("DeliveredComplete", got \cap DOMAIN m.exp \subseteq fin.done \cup x.dl)
                  \cup Cl("AllDelivered", e.final => y.done = {} /\ y.run = {})
                  \cup Cl("RunningTrue", e.running = Running([x EXCEPT !.done = @ \ got, !.run = @ \ got]))
                  \cup Cl("OutcomeRight", \A i \in known : (m.exp[i] = "ok") = (i \in Rng(okid)))
                  \cup Cl("LevelRight", (\A i \in DOMAIN e.ok : e.ok[i].l = e.ok[i].id.l) /\ (\A i \in DOMAIN e.bad : e.bad[i].l = e.bad[i].id.l))
                  \cup Cl("MessageKept", \A i \in DOMAIN e.bad : e.bad[i].msg)
                  \cup Cl("ResultExact", \A i \in DOMAIN e.ok : e.ok[i].exact)
                  \cup Cl("SameResult", \A i \in DOMAIN e.ok : e.ok[i].id \in DOMAIN m.val => m.val[e.ok[i].id] = <<e.ok[i].f, e.ok[i].c>>)
                  \cup Cl("CostOnce", \A k \in 1..m.nl : e.final => nt[k] >= ok2[k] /\ nt[k] <= ok2[k] + am2[k])
                  \cup Cl("CostSane", \A i \in DOMAIN e.times : e.times[i].sane)]
      [] e.op = "stored" ->    \* a sampler run to the end: what the storage holds
           LET sid == [i \in DOMAIN e.ok |-> e.ok[i].id]
               L == DOMAIN m.exp IN
           [x |-> x, m |-> m,
            bad |-> Cl("OperationAccepted", e.raised = "")
                 \cup (IF e.raised # "" THEN {} ELSE
                      Cl("WaitEnds", e.value = 0)
                 \cup Cl("StoredCounts", e.nok = [k \in 1..m.nl |-> Cardinality({i \in L : i.l = k /\ m.exp[i] = "ok"})])
                 \cup Cl("StoredFinished", e.nfin = [k \in 1..m.nl |-> Cardinality({i \in L : i.l = k})])
                 \cup Cl("StoredValues", e.vals = e.want)
                 \cup Cl("StoredFailed", Rng(e.fail) = {i \in L : m.exp[i] # "ok"} /\ NoDup(e.fail))
                 \cup Cl("CostOnce", \A k \in 1..m.nl :
                            LET n == Cardinality({i \in L : i.l = k /\ m.exp[i] = "ok"})
                                a == Cardinality({i \in L : i.l = k /\ m.exp[i] # "ok"})
                            IN e.ntimed[k] >= n /\ e.ntimed[k] <= n + a))]
      [] e.op = "seed" ->
           [x |-> x, m |-> [m EXCEPT !.seeds = IF e.id \in DOMAIN @ THEN @ ELSE Put(@, e.id, e.seed)],
            bad |-> Cl("SeedOfId", e.id \in DOMAIN m.seeds => m.seeds[e.id] = e.seed)
                 \cup Cl("SeedDistinct", \A i \in DOMAIN m.seeds : i # e.id => m.seeds[i] # e.seed)]
      [] e.op = "seeds" ->
           [x |-> x, m |-> m,
            bad |-> Cl("OperationAccepted", e.raised = "") \cup Cl("SeedOfId", e.seeds = e.again)
                 \cup Cl("SeedDistinct", Cardinality(Rng(e.seeds)) = Len(e.seeds))]
      [] e.op = "ws" ->        \* directories once everything has been delivered
           [x |-> x, m |-> m,
            bad |-> LET ids == DOMAIN m.exp
                        ok(i) == m.exp[i] = "ok"
                        want(d) == {i \in ids : WsOf(i, ok(i), e.debug, d)}
                        plus(d) == IF d = "failed" THEN (IF e.keepold THEN Rng(e.oldfailed) ELSE {})
                                   ELSE IF d = "kept" THEN (IF e.keepold THEN Rng(e.oldkept) ELSE {}) ELSE {}
                    IN Cl("OwnDirectory", e.insideok)
                  \cup Cl("CommonFiles", e.commonok)
                  \cup Cl("FailedKept", Rng(e.failed) = want("failed") \cup plus("failed"))
                  \cup Cl("SuccessfulKept", Rng(e.kept) = want("kept") \cup plus("kept"))
                  \cup Cl("Cleaned", Rng(e.own) \ Rng(e.oldown) = want("own"))
                  \cup Cl("ContentsKept", e.contents)
                  \cup Cl("NothingElse", e.strays = <<>>)]

TraceInit == l = 0 /\ x = 0 /\ m = 0 /\ PInit
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Step(Trace[l + 1]) IN
          /\ x' = r.x /\ m' = r.m /\ l' = l + 1
          /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(r.bad)]))
    /\ UNCHANGED pvars
TraceSpec == TraceInit /\ [][TraceNext]_tv
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
