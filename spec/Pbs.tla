-------------------------------- MODULE Pbs ---------------------------------
(* Sampling through a batch system.  The pool packs samples, submits packages   *)
(* with qsub, asks qstat which of its jobs are over and collects their samples.  *)
(* A new pool over the same directory takes over the samples it is told.         *)
(*                                                                              *)
(* Functional operators on a state record; used by the design model (PbsMC),     *)
(* the scenario generator (PbsGen) and the trace validator (PbsTrace).           *)
EXTENDS Util

MaxFail == 10         \* consecutive failures of qsub / qstat that are ignored
Full == 8             \* task sizes are eighths: a package above 1 is submitted
MaxSamples == 1000    \* ... and a package with more samples than this

(* sample key: [l, s].  job: [ids: Seq(key), st, done: SUBSET key, own, over, known] *)
(*   st  "Q" waiting, "R" running, "F" finished (regularly or killed)             *)
(*   own    submitted by the present pool and not collected yet                    *)
(*   over   collected (its record of the batch system number is removed)          *)
(*   known  the batch system still remembers it                                   *)
NewState == [pkg |-> <<>>, w |-> 0, jobs |-> <<>>,
             qsub |-> TRUE, qsubN |-> 0, qstat |-> TRUE, qstatN |-> 0,
             told |-> {}, oldN |-> 0, tried |-> {}]

JobsOf(st) == DOMAIN st.jobs
Submit(st) == [st EXCEPT !.jobs = Append(@, [ids |-> st.pkg, st |-> "Q", done |-> {}, own |-> TRUE, over |-> FALSE, known |-> TRUE]),
                         !.pkg = <<>>, !.w = 0, !.qsubN = 0, !.tried = @ \ Rng(st.pkg)]
Refused(st) == [st EXCEPT !.qsubN = @ + 1, !.tried = @ \cup Rng(st.pkg)]
\* result of an attempt to submit: the state and whether the pool gives up
Execute(st) ==
    IF st.pkg = <<>> THEN [st |-> st, raised |-> FALSE]
    ELSE IF st.qsub THEN [st |-> Submit(st), raised |-> FALSE]
    ELSE [st |-> Refused(st), raised |-> st.qsubN + 1 > MaxFail]
Schedule(st, k, size) ==
    LET s1 == [st EXCEPT !.pkg = Append(@, k), !.w = @ + size] IN
    IF s1.w > Full \/ Len(s1.pkg) > MaxSamples THEN Execute(s1) ELSE [st |-> s1, raised |-> FALSE]

\* the last job a sample was put in, 0 if there is none or the last package with it was refused (tried)
JobOfSample(st, k) == LET J == {j \in JobsOf(st) : k \in Rng(st.jobs[j].ids)} IN
                IF J = {} \/ k \in st.tried THEN 0 ELSE CHOOSE j \in J : \A i \in J : i <= j
Own(st) == {j \in JobsOf(st) : st.jobs[j].own}
ToldJobs(st) == {JobOfSample(st, k) : k \in st.told} \ {0}
ToldIn(st, j) == {k \in st.told : JobOfSample(st, k) = j}
Asked(st) == {j \in ToldJobs(st) : ~st.jobs[j].over}        \* jobs of the previous pools that have to be asked for
NoAnswer(st) == Asked(st) # {} /\ (~st.qstat \/ \A j \in Asked(st) : ~st.jobs[j].known)
Unsure(st) == IF NoAnswer(st) /\ st.oldN + 1 <= MaxFail THEN Asked(st) ELSE {}
StillThere(st) == IF NoAnswer(st) THEN Unsure(st)
                  ELSE {j \in Asked(st) : st.jobs[j].known /\ st.jobs[j].st # "F"}

(* What a poll delivers: job -> samples, for the present pool's finished jobs and  *)
(* for the told samples of previous jobs which are over.                            *)
Poll(st0) ==
    LET ex == Execute(st0)
        st == ex.st
        ask == Own(st) # {}
        n == IF ask /\ ~st.qstat THEN st.qstatN + 1 ELSE IF ask THEN 0 ELSE st.qstatN
        giveup == ex.raised \/ n > MaxFail
        fin == IF st.qstat THEN {j \in Own(st) : st.jobs[j].st = "F"} ELSE {}
        wait == StillThere(st)
        old == ToldJobs(st) \ wait
        dl(j) == IF j \in fin THEN Rng(st.jobs[j].ids) ELSE ToldIn(st, j)
        \* samples told but never accepted by the batch system: they may be reported as failed
        lost == {k \in st.told : JobOfSample(st, k) = 0}
        s2 == IF giveup THEN [st EXCEPT !.qstatN = IF ex.raised THEN @ ELSE n]
              ELSE [st EXCEPT !.qstatN = n,
                       !.oldN = IF NoAnswer(st) THEN @ + 1 ELSE @,
                       !.jobs = [j \in DOMAIN @ |-> IF j \in fin \cup old THEN [@[j] EXCEPT !.own = FALSE, !.over = TRUE] ELSE @[j]],
                       !.told = {k \in @ : JobOfSample(st, k) \in wait}]
    IN [raised |-> giveup, st |-> s2,
        got |-> IF giveup THEN {} ELSE UNION {dl(j) : j \in fin \cup old},
        from |-> IF giveup THEN {} ELSE fin \cup old,
        lost |-> IF giveup THEN {} ELSE lost,
        running |-> Len(s2.pkg) + SumSeq([i \in JobsOf(s2) |-> IF s2.jobs[i].own THEN Len(s2.jobs[i].ids) ELSE 0]) + Cardinality(s2.told)]
\* samples computed by the last job they were in
Computed(st, k) == LET j == JobOfSample(st, k) IN j # 0 /\ k \in st.jobs[j].done

(* A new pool.  keep: the output of the previous one is kept (debug mode).          *)
NewPool(st, keep, told) ==
    [st EXCEPT !.pkg = <<>>, !.w = 0, !.qsubN = 0, !.qstatN = 0, !.oldN = 0,
               !.told = told,
               !.tried = IF keep THEN @ ELSE {},
               !.jobs = IF keep THEN [j \in DOMAIN @ |-> [@[j] EXCEPT !.own = FALSE]]
                        ELSE [j \in DOMAIN @ |-> [@[j] EXCEPT !.own = FALSE, !.ids = <<>>, !.done = {}, !.over = TRUE]]]

Work(st, j, calls, end) == [st EXCEPT !.jobs[j].done = @ \cup calls, !.jobs[j].st = IF end THEN "F" ELSE "R"]
Kill(st, j) == [st EXCEPT !.jobs[j].st = "F"]
Forget(st, j) == [st EXCEPT !.jobs[j].known = FALSE]
=============================================================================
