------------------------------ MODULE PbsTrace ------------------------------
(* Recorded executions of the real batch pool, its worker program and a stand-in *)
(* batch system against Pbs.                                                     *)
EXTENDS Pbs, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, x, m
tv == <<l, x, m>>
(* m: [out: key -> outcome, dl: keys delivered, sizes, nl, debug, nt]               *)
Emp == [k \in {} |-> 0]
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Good(k) == m.out[k] \in {"ok", "nan"}
\* number of successful and of failed submissions seen during the call
SubsOf(e, r) == Cl("SubmittedWhenDue", e.subs = Len(r.st.jobs) - Len(x.jobs) /\ (e.subs = 0 => (e.tries > 0) = (r.st.qsubN > x.qsubN)))
RaisedRight(e, r) == Cl("OutageTolerated", r.raised \/ e.raised = "") \cup Cl("OutageReported", r.raised => e.raised # "")

\* the script of a job: requests (before any command), the work directory and the user's environment, then the worker
RECURSIVE Joined(_)
Joined(s) == IF s = <<>> THEN "" ELSE ":" \o Head(s) \o Joined(Tail(s))
ScriptBad(s, c) ==
    LET asked == {<<"-l", "select=" \o ToString(s.n) \o ":ncpus=" \o ToString(s.c) \o ":mem=" \o s.mem \o Joined(s.flags)>>, <<"-l", "walltime=" \o s.wall>>,
                  <<"-q", s.queue>>, <<"-N", s.name>>, <<"-j", IF s.std = "" THEN "oe" ELSE s.std>>}
    IN Cl("ScriptAsAsked", /\ asked \subseteq Rng(c.opts) /\ Rng(s.reqs) \subseteq Rng(c.reqs) /\ c.late = 0 /\ c.wd
                           /\ c.env = s.env /\ c.py = IF s.py THEN "given" ELSE "python3")
Step(e) ==
    CASE e.op = "begin" ->
           [x |-> NewState, m |-> [out |-> Emp, dl |-> {}, sizes |-> e.sizes, nl |-> e.nl, set |-> e.set, debug |-> e.debug, ws |-> e.ws, keptws |-> {}, failws |-> {}, ownws |-> {}],
            bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "sched" ->
           LET k == [l |-> e.l, s |-> e.s]
               r == Schedule(x, k, m.sizes[e.l]) IN
           [x |-> r.st, m |-> [m EXCEPT !.out = Put(@, k, e.o), !.dl = @ \ {k}],
            bad |-> RaisedRight(e, r) \cup SubsOf(e, r)]
      [] e.op = "env" -> [x |-> IF e.q = "qsub" THEN [x EXCEPT !.qsub = e.up] ELSE [x EXCEPT !.qstat = e.up], m |-> m, bad |-> {}]
      [] e.op = "work" ->
           \* what the worker program of job j computed during this step
           LET keys == [i \in DOMAIN e.calls |-> [l |-> e.calls[i].l, s |-> e.calls[i].s]]
               c == Rng(keys)
               job == x.jobs[e.j]
               w == Work(x, e.j, c, e.how = "end")
               nw == IF e.how = "kill" THEN Kill(w, e.j) ELSE w
           IN [x |-> nw, m |-> m,
               bad |-> (IF e.found THEN ScriptBad(m.set, e.script) ELSE {}) \cup Cl("JobExists", e.j \in JobsOf(x) /\ e.found)
                  \cup Cl("JobComputesItsSamples", NoDup(keys) /\ c \subseteq Rng(job.ids) \ job.done)
                  \cup Cl("JobComplete", e.how = "end" => nw.jobs[e.j].done = Rng(job.ids))
                  \cup Cl("WorkerEnds", e.how = "end" => e.rc = 0)
                  \cup Cl("SeedAndLevel", \A i \in DOMAIN e.calls : e.calls[i].right)
                  \cup Cl("OwnDirectory", \A i \in DOMAIN e.calls : e.calls[i].dir)]
      [] e.op = "forget" -> [x |-> Forget(x, e.j), m |-> m, bad |-> {}]
      [] e.op = "poll" ->
           LET r == Poll(x)
               okk == [i \in DOMAIN e.ok |-> e.ok[i].k]
               bdk == [i \in DOMAIN e.bad |-> e.bad[i].k]
               got == Rng(okk) \cup Rng(bdk)
               want == {k \in r.got : Good(k) /\ Computed(x, k)}
               timed(lv) == SumSeq([i \in DOMAIN e.times |-> IF e.times[i].l = lv THEN e.times[i].n ELSE 0])
               \* a job collected before is read again for a renewed sample that was never submitted again
               comp(lv, again) == SumSeq([j \in JobsOf(x) |-> IF j \in r.from /\ (again \/ ~x.jobs[j].over) THEN Cardinality({k \in x.jobs[j].done : k.l = lv}) ELSE 0])
           IN IF e.raised # "" \/ r.raised
              THEN [x |-> r.st, m |-> m, bad |-> RaisedRight(e, r) \cup (IF r.raised = (e.raised # "") THEN {} ELSE {"PollAnswers"})]
              ELSE
              [x |-> r.st, m |-> [m EXCEPT !.dl = @ \cup got],
               bad |-> SubsOf(e, r)
                  \cup Cl("DeliveredOnce", NoDup(okk \o bdk) /\ got \cap m.dl = {})
                  \cup Cl("OnlyFinishedJobs", got \subseteq r.got \cup r.lost)
                  \cup Cl("FinishedJobsDelivered", r.got \subseteq got)
                  \cup Cl("OutcomeRight", Rng(okk) = want)
                  \cup Cl("LevelRight", (\A i \in DOMAIN e.ok : e.ok[i].l = e.ok[i].k.l) /\ (\A i \in DOMAIN e.bad : e.bad[i].l = e.bad[i].k.l))
                  \cup Cl("ResultExact", \A i \in DOMAIN e.ok : e.ok[i].exact)
                  \cup Cl("MessageKept", \A i \in DOMAIN e.bad : e.bad[i].msg)
                  \cup Cl("RunningTrue", e.running = r.running)
                  \cup Cl("CostOnce", \A lv \in 1..m.nl : timed(lv) >= comp(lv, FALSE) /\ timed(lv) <= comp(lv, TRUE))
                  \cup Cl("CostSane", \A i \in DOMAIN e.times : e.times[i].sane)]
      [] e.op = "restart" ->
           [x |-> NewPool(x, e.keep, Rng(e.told)), m |-> m, bad |-> Cl("OperationAccepted", e.raised = "")]
      [] e.op = "ws" ->   \* directories at the end
           [x |-> x, m |-> m,
            bad |-> LET comp == {k \in DOMAIN m.out : \E j \in JobsOf(x) : k \in x.jobs[j].done}
                        good == {k \in comp : Good(k)}
                    IN Cl("FailedKept", Rng(e.failed) = comp \ good)
                  \cup Cl("SuccessfulKept", Rng(e.kept) = IF m.debug THEN {} ELSE {k \in good : k.s < 5})
                  \cup Cl("Cleaned", IF m.debug THEN good \subseteq Rng(e.own) ELSE Rng(e.own) \cap comp = {})
                  \cup Cl("ContentsKept", e.contents)]

TraceInit == l = 0 /\ x = 0 /\ m = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET r == Step(Trace[l + 1]) IN
          /\ x' = r.x /\ m' = r.m /\ l' = l + 1
          /\ IF r.bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(r.bad)]))
TraceSpec == TraceInit /\ [][TraceNext]_tv
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
