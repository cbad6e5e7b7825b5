------------------------------- MODULE PbsGen -------------------------------
(* Random histories of the batch pool and of its environment.                    *)
EXTENDS Pbs, Json, Randomization
CONSTANTS MaxOps, Kind
VARIABLES n, prog, st, cnt, dl, bad, cfg, out, gone
vars == <<n, prog, st, cnt, dl, bad, cfg, out, gone>>
RE(S) == RandomElement(S)
Wt(S) == RE(S)
\* what the user asks of the batch system for every job
Setting(z) == [n |-> RE(1..3), c |-> RE({1, 4, 16}), mem |-> RE({"1Gb", "400Mb"}), queue |-> RE({"charon", "q_2h"}), wall |-> RE({"1:00:00", "48:00:00"}),
               name |-> RE({"mlmc", "MLMC_test"}), flags |-> RE({<<>>, <<"scratch_local=10gb">>, <<"cgroups=cpuacct", "cl_x=True">>}), std |-> RE({"", "oe", "n"}),
               reqs |-> RE({<<>>, <<"#PBS -m ae">>, <<"#PBS -W group_list=a", "#PBS -m n">>}), py |-> RE({TRUE, TRUE, FALSE}),
               env |-> <<"cd $MLMC_WORKDIR">> \o RE({<<>>, <<"export VERIF_A=1">>, <<"export VERIF_B=1", "export VERIF_A=2">>})]
Cfg(z) == [nl |-> RE(1..3), sizes |-> [i \in 1..3 |-> RE({1, 2, 3, 4, 8, 9})], ws |-> RE({TRUE, FALSE}),
           set |-> Setting(z), debug |-> IF Kind = "restart" THEN TRUE ELSE RE({TRUE, FALSE})]
Out(z) == RE({"ok", "ok", "ok", "nan", "raise", "short"})
Emp == [k \in {} |-> 0]
GInit == /\ n = 0 /\ prog = <<>> /\ st = NewState /\ cnt = <<0, 0, 0>> /\ dl = {} /\ bad = {} /\ cfg = [nl |-> 0] /\ out = Emp /\ gone = {}
Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
OutN == \* polls without an answer of the batch system so far
    st.qstatN + st.oldN
Add(op) == prog' = Append(prog, op)
Is(o, s, b) == o \in {"ok", "nan"}

SchedOp == \E lv \in {RE(1..cfg.nl)}, o \in {Out(n)} :
    LET k == [l |-> lv, s |-> cnt[lv]]
        r == Schedule(st, k, cfg.sizes[lv]) IN
      /\ st.qsubN < MaxFail + 2
      /\ st' = r.st /\ cnt' = [cnt EXCEPT ![lv] = @ + 1] /\ out' = Put(out, k, o)
      /\ Add([op |-> "sched", l |-> lv, s |-> cnt[lv], o |-> o]) /\ UNCHANGED <<dl, bad, cfg, gone>>
RenewOp == bad # {} /\ \E k \in {RE(bad)} :
    LET r == Schedule(st, k, cfg.sizes[k.l]) IN
      /\ st' = r.st /\ bad' = bad \ {k} /\ dl' = dl \ {k}
      /\ Add([op |-> "sched", l |-> k.l, s |-> k.s, o |-> out[k]]) /\ UNCHANGED <<cnt, cfg, out, gone>>
EnvOp == \E q \in {RE(IF Kind = "outage" THEN {"qsub", "qsub", "qstat", "qstat"} ELSE {"qsub", "qstat"})} :
      /\ Kind # "calm"
      /\ st' = IF q = "qsub" THEN [st EXCEPT !.qsub = ~@] ELSE [st EXCEPT !.qstat = ~@]
      /\ Add([op |-> "env", q |-> q, up |-> IF q = "qsub" THEN ~st.qsub ELSE ~st.qstat]) /\ UNCHANGED <<cnt, dl, bad, cfg, out, gone>>
Open == {j \in JobsOf(st) : st.jobs[j].st # "F" /\ st.jobs[j].ids # <<>>}
WorkOp == Open # {} /\ \E j \in {RE(Open)}, how \in {RE({"part", "end", "end", "kill"})} :
    LET left == Rng(st.jobs[j].ids) \ st.jobs[j].done
        m == IF how = "end" THEN Cardinality(left) ELSE RE(0..Max2(Cardinality(left) - 1, 0))
        c == IF m = Cardinality(left) THEN left ELSE RandomSubset(m, left)
    IN /\ st' = IF how = "kill" THEN Kill(Work(st, j, c, FALSE), j) ELSE Work(st, j, c, how = "end")
       /\ Add([op |-> "work", j |-> j, how |-> how, m |-> m]) /\ UNCHANGED <<cnt, dl, bad, cfg, out, gone>>
ForgetOp == LET F == {j \in JobsOf(st) : st.jobs[j].known /\ st.jobs[j].st = "F" /\ ~st.jobs[j].own} IN
    F # {} /\ \E j \in {RE(F)} : st' = Forget(st, j) /\ Add([op |-> "forget", j |-> j]) /\ UNCHANGED <<cnt, dl, bad, cfg, out, gone>>
PollOp == LET r == Poll(st) IN
    /\ (Asked(st) # {} /\ ~st.qstat) => st.oldN < MaxFail - 1
    /\ st' = r.st /\ dl' = dl \cup r.got
    /\ bad' = bad \cup {k \in r.got : out[k] \notin {"ok", "nan"} \/ ~Computed(r.st, k)}
    /\ Add([op |-> "poll"]) /\ UNCHANGED <<cnt, cfg, out, gone>>
RestartOp == /\ Kind = "restart" /\ n > 2
    /\ \E keep \in {RE(IF Open = {} THEN 1..5 ELSE 1..4) # 5} :
       /\ LET all == {k \in DOMAIN out : k \notin dl}
              told == IF RE(1..4) = 1 THEN RandomSubset(RE(0..Cardinality(all)), all) ELSE all IN
          /\ st' = NewPool(st, keep, told)
          /\ gone' = gone \cup all
          /\ Add([op |-> "restart", keep |-> keep, told |-> SetToSeqU(told)])
          /\ UNCHANGED <<cnt, dl, bad, cfg, out>>
Choice(z) == CASE Kind = "calm" -> RE({"s", "s2", "s3", "s4", "n", "w", "w2", "w3", "p", "p2", "f"})
            [] Kind = "outage" -> RE({"s", "s2", "s3", "s4", "n", "e", "w", "w2", "p", "p2", "p3", "p4"})
            [] Kind = "restart" -> RE({"s", "s2", "s3", "n", "e", "w", "w2", "w3", "p", "p2", "f", "r"})
            [] OTHER -> "s"
DoOp(c) == CASE c \in {"s", "s2", "s3", "s4"} -> SchedOp
             [] c = "n" -> (IF bad # {} THEN RenewOp ELSE SchedOp)
             [] c = "e" -> EnvOp
             [] c \in {"w", "w2", "w3"} -> (IF Open # {} THEN WorkOp ELSE SchedOp)
             [] c \in {"p", "p2", "p3", "p4"} -> PollOp
             [] c = "f" -> (IF {j \in JobsOf(st) : st.jobs[j].known /\ st.jobs[j].st = "F" /\ ~st.jobs[j].own} # {} THEN ForgetOp ELSE SchedOp)
             [] c = "r" -> RestartOp
CanDo(c) == CASE c \in {"p", "p2", "p3", "p4"} -> (Asked(st) # {} /\ ~st.qstat) => st.oldN < MaxFail - 1
              [] c = "r" -> Kind = "restart" /\ n > 2
              [] c = "e" -> Kind # "calm"
              [] OTHER -> st.qsubN < MaxFail + 2
GNext == \/ /\ n = 0 /\ n' = 1 /\ \E c \in {Cfg(n)} : cfg' = c
            /\ UNCHANGED <<prog, st, cnt, dl, bad, out, gone>>
         \/ /\ n > 0 /\ n < MaxOps /\ n' = n + 1
            /\ \E c \in {Choice(n)} : IF CanDo(c) THEN DoOp(c) ELSE UNCHANGED <<prog, st, cnt, dl, bad, cfg, out, gone>>
GSpec == GInit /\ [][GNext]_vars
Emit == n = MaxOps => PrintT("@@PROG " \o ToJson([cfg |-> cfg, ops |-> prog]))
=============================================================================
