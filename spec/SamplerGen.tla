----------------------------- MODULE SamplerGen -----------------------------
(* Random runs of a sampler over a scripted pool: targets, scheduling rounds,   *)
(* polls that deliver any outstanding samples in any order as successes or      *)
(* failures, adaptive adding, renewal of failed samples, process restarts and   *)
(* crashes between any two calls the sampler makes to its pool or storage.      *)
EXTENDS Sampler, Json, Randomization
CONSTANTS Depth, MaxLevels, Kinds, MaxTgt, Restarts, InitOps
VARIABLES hist, n, g        \* g : [kind, nl, lossy, durable]
gvars == <<sm, pc, restarts, delivered, s, fresh, disk, hist, n, g>>
RE(S) == RandomElement(S)

\* a poll: up to 4 deliveries <<which outstanding sample, 1 ok / 0 failed, time>>
Poll1(k) == [i \in 1..k |-> <<RE(0..9), RE({0, 1, 1, 1}), RE(1..6)>>]
Polls(k) == [i \in 1..k |-> Poll1(RE(0..4))]
Ns(nl) == [i \in 1..nl |-> RE(0..MaxTgt)]
NsPos(k) == [i \in 1..k |-> RE(1..MaxTgt)]

OSched(z) == [op |-> "schedule", t |-> RE({"none", "long", "zero", "neg", "small", "small", "small"}), polls |-> Polls(RE(0..4))]
OAsk(z) == [op |-> "ask", t |-> RE({"none", "long", "zero", "neg", "small", "small", "small"}), polls |-> Polls(RE(0..4))]
ORenew == [op |-> "renew"]
OAdding(nl) == [op |-> "adding", est |-> Ns(nl), coef |-> RE({<<1, 2>>, <<1, 4>>, <<1, 8>>, <<1, 1>>, <<1, 10>>, <<3, 4>>}), polls |-> Polls(RE(0..3))]
OTarget(nl) == [op |-> "target", ns |-> Ns(nl)]
Init0(nl) == LET w == RE(InitOps) IN
             [op |-> "init", arg |-> CASE w = "none" -> <<>> [] w = "one" -> NsPos(1) [] w = "two" -> NsPos(2)
                                       [] OTHER -> IF nl <= 2 THEN NsPos(nl) ELSE Ns(nl)]
Restart1(d) == [op |-> "restart", durable |-> d]
Crash1(inner, d) == [op |-> "crash", inner |-> inner, at |-> RE(1..9), durable |-> d]

GInit == /\ SInit /\ hist = <<>> /\ n = 0 /\ g = [kind |-> "x", nl |-> 1, lossy |-> FALSE]
GNew == \E kind \in {RE(Kinds)}, nl \in {RE(1..MaxLevels)} :
        \E ps \in {[i \in 1..nl |-> 7 * (nl - i + 1) + RE(0..5)]}, i0 \in {Init0(nl)} :
           /\ hist' = <<[op |-> "new", kind |-> kind, nl |-> nl, params |-> ps], i0>>
           /\ g' = [kind |-> kind, nl |-> nl, lossy |-> FALSE]
Op(w) ==
    CASE w = "sched" -> OSched(n) [] w = "ask" -> OAsk(n) [] w = "target" -> OTarget(g.nl) [] w = "init" -> Init0(g.nl)
      [] w = "adding" -> IF g.lossy THEN OAsk(n) ELSE OAdding(g.nl)
      [] w = "renew" -> IF g.kind = "hdf" THEN ORenew ELSE OSched(n)
GOp == \E w \in {RE({"sched", "ask", "target", "adding", "renew", "init", "restart", "crash", "step", "step"})},
          d \in {RE({TRUE, TRUE, FALSE})} :
        LET rs == w \in {"restart", "crash"} /\ Restarts /\ g.kind = "hdf"
            w2 == IF rs THEN w ELSE IF w \in {"restart", "crash", "step"} THEN RE({"sched", "target", "ask"}) ELSE w
        IN \E inner \in {Op(RE({"sched", "ask", "renew", "adding"}))}, plain \in {IF rs THEN OSched(n) ELSE Op(w2)} :
           /\ hist' = Append(hist, IF rs THEN (IF w = "restart" THEN Restart1(d) ELSE Crash1(inner, d)) ELSE plain)
           /\ g' = [g EXCEPT !.lossy = @ \/ (rs /\ ~d)]
GFinal == \* drive the run to its end: everything scheduled, delivered and stored
          /\ \E a \in {OTarget(g.nl)}, b \in {OSched(n)}, c \in {OAsk(n)} :
               hist' = hist \o <<a, [b EXCEPT !.t = "small"], [c EXCEPT !.t = "none"]>>
          /\ UNCHANGED g
GNext == /\ n' = n + 1
         /\ IF n = 0 THEN GNew ELSE IF n < Depth - 1 THEN GOp ELSE n = Depth - 1 /\ GFinal
         /\ UNCHANGED <<sm, pc, restarts, delivered, s, fresh, disk>>
GSpec == GInit /\ [][GNext]_gvars
Emit == n = Depth => PrintT("@@PROG " \o ToJson(hist))
=============================================================================
