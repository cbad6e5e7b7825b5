---------------------------- MODULE StorageTrace ----------------------------
(* Recorded storage executions checked against Storage.  Every event is         *)
(* consumed; the clauses it breaks are printed, so a verdict always exists.     *)
EXTENDS Storage, Json
Trace == ndJsonDeserialize("trace.ndjson")
VARIABLES l, st, meta
tv == <<l, st, meta, s, fresh, disk>>

Apply(x, e) ==
    CASE e.op = "sched" -> SaveScheduled(x, e.l, e.ids)
      [] e.op = "save"  -> SaveSamples(x, e.s, e.f)
      [] e.op = "nops"  -> SaveOps(x, e.r)
      [] e.op = "clear" -> ClearFailed(x)
      [] e.op = "reopen" -> Reopen(x)
      [] OTHER -> x

\* clauses that the observation o breaks in abstract state x
Judge(x, m, e) ==
    LET o == e.obs L == 1..x.nl IN
      Cl("OperationAccepted", e.raised = "")
 \cup Cl("ReadersAnswer", o.err = <<>>)
 \cup Cl("FinishedCount", o.nfin = NFinished(x))
 \cup Cl("CollectedCount", o.ncoll = NCollected(x))
 \cup Cl("ScheduledKept", o.sched = x.sched)
 \cup (IF x.kind = "hdf" THEN
            Cl("UnfinishedExact", Rng(o.unf) = UnfinishedIds(x) /\ NoDup(o.unf))
       \cup Cl("FailedExact", o.fail = x.fail)
       \cup Cl("LevelCount", o.nlev = x.nl)
       ELSE {})
 \cup Cl("PairsExact", o.pairs = [k \in L |-> Pairs(x, k)])
 \cup Cl("ChunksPartition", Len(o.chunks) = x.nl /\ \A k \in L :
          LET cs == o.chunks[k] IN
          /\ \A i \in DOMAIN cs : cs[i].l = k - 1
          /\ IsPartition([i \in DOMAIN cs |-> <<cs[i].a, cs[i].b>>], 0, Len(x.coll[k])))
 \cup Cl("ChunkDataExact", Len(o.chunks) = x.nl /\ \A k \in L :
          Flat([i \in DOMAIN o.chunks[k] |-> o.chunks[k][i].d]) = Pairs(x, k))
 \cup Cl("FirstSamplesExact", Len(o.first) = x.nl /\ \A k \in L :
          o.first[k] = IF Len(x.coll[k]) > 1 THEN SubSeq(Pairs(x, k), 1, Len(x.coll[k]) - 1) ELSE <<>>)
 \cup Cl("CostExact", Len(o.nops) = x.nl /\ \A k \in L : o.nops[k] = Cost(x, k))
 \cup Cl("LevelParameters", o.lparams = m.lparams)
 \cup Cl("FormatKept", o.fmt = m.fmt)
 \cup Cl("ForeignFormatRefused", e.op = "reopen" => (e.how = "otherformat") = (e.refused = "yes"))

TraceInit == /\ l = 0 /\ st = NewStorage("none", 1) /\ meta = [fmt |-> "", lparams |-> ""]
             /\ s = 0 /\ fresh = 0 /\ disk = 0
TraceNext ==
    /\ l < Len(Trace)
    /\ LET e == Trace[l + 1]
           isNew == e.op = "begin"
           x == IF isNew THEN NewStorage(e.kind, e.nl) ELSE Apply(st, e)
           m == IF isNew THEN [fmt |-> e.fmt, lparams |-> e.lparams] ELSE meta
           bad == Judge(x, m, e)
       IN /\ st' = x /\ meta' = m /\ l' = l + 1
          /\ IF bad = {} THEN TRUE ELSE PrintT("@@BAD " \o ToJson([i |-> l + 1, c |-> SetToSeqU(bad)]))
    /\ UNCHANGED <<s, fresh, disk>>
TraceSpec == TraceInit /\ [][TraceNext]_tv
Report == l = Len(Trace) => PrintT("@@END " \o ToJson([n |-> l]))
=============================================================================
