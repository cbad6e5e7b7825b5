------------------------------- MODULE PbsMC --------------------------------
(* Design model: every interleaving of scheduling, qsub and qstat outages, job   *)
(* starts, ends and kills, polls, renewals and restarts, for a few samples.       *)
EXTENDS Pbs
CONSTANTS NKeys, Size, MaxDown, MaxRestart, MaxRenew
VARIABLES st, sch, dl, bad, down, rest, renew, last, gone
(* sch: scheduled keys, dl: key -> times delivered minus renewals, bad: delivered as failed, gone: lost at a restart before submission *)
vars == <<st, sch, dl, bad, down, rest, renew, last, gone>>
Keys == {[l |-> IF i = 3 THEN 2 ELSE 1, s |-> i] : i \in 1..NKeys}
MCFail == 1
Fails(k) == k = [l |-> 1, s |-> 2]
Init == /\ st = NewState /\ sch = {} /\ dl = [k \in Keys |-> 0] /\ bad = {} /\ down = 0 /\ rest = 0 /\ renew = 0 /\ last = "init" /\ gone = {}
Order(k) == \A k2 \in Keys \ sch : k.l < k2.l \/ (k.l = k2.l /\ k.s <= k2.s)
DoSched == \E k \in Keys \ sch : /\ Order(k) /\ sch' = sch \cup {k} /\ LET r == Schedule(st, k, Size) IN ~r.raised /\ st' = r.st
                         /\ last' = "sched" /\ UNCHANGED <<dl, bad, down, rest, renew, gone>>
DoRenew == \E k \in bad : /\ renew < MaxRenew /\ renew' = renew + 1 /\ bad' = bad \ {k} /\ dl' = [dl EXCEPT ![k] = @ - 1]
                          /\ LET r == Schedule(st, k, Size) IN ~r.raised /\ st' = r.st
                          /\ last' = "renew" /\ UNCHANGED <<sch, down, rest, gone>>
DoDown == /\ down < MaxDown /\ down' = down + 1
          /\ \E q \in {"qsub", "qstat"} : st' = IF q = "qsub" THEN [st EXCEPT !.qsub = ~@] ELSE [st EXCEPT !.qstat = ~@]
          /\ last' = "down" /\ UNCHANGED <<sch, dl, bad, rest, renew, gone>>
DoWork == \E j \in JobsOf(st) :
            /\ st.jobs[j].st # "F"
            /\ \E c \in SUBSET (Rng(st.jobs[j].ids) \ st.jobs[j].done), e \in {"part", "end", "kill"} :
                 /\ e = "end" => c = Rng(st.jobs[j].ids) \ st.jobs[j].done
                 /\ e = "part" => c # Rng(st.jobs[j].ids) \ st.jobs[j].done
                 /\ st' = IF e = "kill" THEN Kill(Work(st, j, c, FALSE), j) ELSE Work(st, j, c, e = "end")
            /\ last' = "work" /\ UNCHANGED <<sch, dl, bad, down, rest, renew, gone>>
DoForget == \E j \in JobsOf(st) : /\ st.jobs[j].known /\ st.jobs[j].st = "F" /\ ~st.jobs[j].own
                                  /\ st' = Forget(st, j) /\ last' = "forget" /\ UNCHANGED <<sch, dl, bad, down, rest, renew, gone>>
DoPoll == LET r == Poll(st) IN
            /\ ~r.raised /\ st' = r.st
            /\ dl' = [k \in Keys |-> dl[k] + IF k \in r.got THEN 1 ELSE 0]
            /\ bad' = bad \cup {k \in r.got : Fails(k) \/ ~Computed(r.st, k)}
            /\ last' = "poll" /\ UNCHANGED <<sch, down, rest, renew, gone>>
DoRestart == /\ rest < MaxRestart /\ rest' = rest + 1
             /\ LET told == {k \in sch : dl[k] = 0} \ gone IN
                  /\ st' = NewPool(st, TRUE, told)
                  /\ gone' = gone \cup {k \in told : JobOfSample(st, k) = 0 \/ k \in Rng(st.pkg)}
             /\ last' = "restart" /\ UNCHANGED <<sch, dl, bad, down, renew>>
Next == DoSched \/ DoRenew \/ DoDown \/ DoWork \/ DoForget \/ DoPoll \/ DoRestart
Spec == Init /\ [][Next]_vars /\ WF_vars(DoPoll) /\ WF_vars(\E j \in JobsOf(st) : st.jobs[j].st # "F" /\ st' = Work(st, j, Rng(st.jobs[j].ids), TRUE) /\ UNCHANGED <<sch, dl, bad, down, rest, renew, last, gone>>)

AtMostOnce == \A k \in Keys : dl[k] <= 1
OnlyScheduled == \A k \in Keys : dl[k] > 0 => k \in sch
\* every sample is packed, in a job to be collected, delivered, or was lost before any submission
Accounted == \A k \in sch : dl[k] = 1 \/ k \in gone \/ k \in Rng(st.pkg) \/ k \in st.told
                            \/ \E j \in Own(st) : k \in Rng(st.jobs[j].ids)
\* the number of running samples a poll would report is the number of undelivered ones
Truthful == LET r == Poll(st) IN
              ~r.raised => r.running = Cardinality({k \in sch : dl[k] = 0 /\ k \notin r.got /\ (k \notin gone \/ k \in r.st.told)})
\* two jobs never hold the same sample at a time, unless the earlier one is over
OneJob == \A i, j \in JobsOf(st) : i < j /\ Rng(st.jobs[i].ids) \cap Rng(st.jobs[j].ids) # {} => st.jobs[i].over \/ \A k \in Rng(st.jobs[i].ids) \cap Rng(st.jobs[j].ids) : k \in gone \/ dl[k] <= 1
NoPhantom == \A k \in bad : dl[k] = 1
=============================================================================
