-------------------------------- MODULE Pool --------------------------------
(* A sampling pool: samples are scheduled by the sampler, executed by workers,  *)
(* completed asynchronously (a completion callback runs concurrently with the   *)
(* sampler), and handed over exactly once by polls.  The working directories a  *)
(* sample is computed in are part of the state.                                 *)
EXTENDS Util

(* p : [run, done, dl, nt, ws]                                                   *)
(*   run   scheduled, not yet completed          done  completed, not handed over *)
(*   dl    handed over                            nt    timed samples per level    *)
NewPool(nl) == [run |-> {}, done |-> {}, dl |-> {}, nt |-> [k \in 1..nl |-> 0], tm |-> [k \in 1..nl |-> 0]]
Sched(p, id) == [p EXCEPT !.run = @ \cup {id}]
Complete(p, id) == [p EXCEPT !.run = @ \ {id}, !.done = @ \cup {id}]
HandOver(p, S) == [p EXCEPT !.done = @ \ S, !.dl = @ \cup S]
Running(p) == Cardinality(p.run) + Cardinality(p.done)

(*--------------------- design: readers against completions ------------------*)
CONSTANTS Samples, NLev, LevelOf(_), FailedOf(_)
VARIABLES p, queue, rpc, rlist, rlev, nrun, out, told, cb
(* queue  per (level, status) completion queue      rpc    reader position       *)
(* rlist  what the current poll took                nrun   the pool's own count   *)
(* cb     sample whose completion callback runs, or 0                            *)
pvars == <<p, queue, rpc, rlist, rlev, nrun, out, told, cb>>
Keys == (1..NLev) \X BOOLEAN
KeyOf(x) == <<LevelOf(x), FailedOf(x)>>

PInit == /\ p = NewPool(NLev) /\ queue = [k \in Keys |-> <<>>] /\ rpc = "idle" /\ rlist = {} /\ rlev = {}
         /\ nrun = 0 /\ out = {} /\ told = -1 /\ cb = 0
Schedule == \E x \in Samples :
    /\ rpc = "idle" /\ x \notin p.run \cup p.done \cup p.dl
    /\ p' = Sched(p, x) /\ nrun' = nrun + 1 /\ told' = -1
    /\ UNCHANGED <<queue, rpc, rlist, rlev, out, cb>>
\* the callback: one at a time (a single handler thread)
CallbackStart == \E x \in p.run : cb = 0 /\ cb' = x /\ UNCHANGED <<p, queue, rpc, rlist, rlev, nrun, out, told>>
CallbackPut == /\ cb # 0 /\ queue' = [queue EXCEPT ![KeyOf(cb)] = Append(@, cb)]
               /\ p' = Complete(p, cb) /\ cb' = 0 /\ UNCHANGED <<rpc, rlist, rlev, nrun, out, told>>
PollBegin == /\ rpc = "idle" /\ rpc' = "poll" /\ rlev' = Keys /\ rlist' = {} /\ told' = -1
             /\ UNCHANGED <<p, queue, nrun, out, cb>>
\* one queue is read and emptied in one step (the mutex of the queue)
PollTake == \E k \in rlev :
    /\ rpc = "poll" /\ rlev' = rlev \ {k}
    /\ rlist' = rlist \cup Rng(queue[k])
    /\ nrun' = nrun - Len(queue[k])
    /\ queue' = [queue EXCEPT ![k] = <<>>]
    /\ UNCHANGED <<p, rpc, out, told, cb>>
PollEnd == /\ rpc = "poll" /\ rlev = {} /\ rpc' = "idle"
           /\ out' = rlist /\ told' = nrun
           /\ p' = HandOver(p, rlist)
           /\ UNCHANGED <<queue, rlist, rlev, nrun, cb>>
PNext == Schedule \/ CallbackStart \/ CallbackPut \/ PollBegin \/ PollTake \/ PollEnd
PFair == WF_pvars(CallbackStart) /\ WF_pvars(CallbackPut) /\ WF_pvars(PollBegin) /\ WF_pvars(PollTake) /\ WF_pvars(PollEnd)
PSpec == PInit /\ [][PNext]_pvars /\ PFair

PTypeOK == p.run \cap p.done = {} /\ p.dl \cap (p.run \cup p.done) = {}
Conserve == /\ (rpc = "idle" => nrun = Running(p))
            /\ \A x \in p.done : (\E k \in Keys : x \in Rng(queue[k])) \/ (rpc = "poll" /\ x \in rlist)
\* what a poll reports as running is what has been scheduled and not handed over
Truthful == told # -1 /\ rpc = "idle" => told = Running(p)
ExactlyOnce == [][out' # out => out' \cap p.dl = {} /\ out' \subseteq p.done]_pvars
AllDelivered == \A x \in Samples : [](x \in p.run => <>(x \in p.dl))

(*--------------------------- sample workspaces -------------------------------*)
(* Expected contents of the output directory once everything has been delivered. *)
(* kept: the first N successful ids of a level; debug: nothing is cleaned.       *)
NKept == 5
WsOf(id, ok, debug, dir) ==
    CASE dir = "failed" -> ~ok
      [] dir = "kept"   -> ok /\ ~debug /\ id.k < NKept
      [] dir = "own"    -> ok /\ debug
=============================================================================
