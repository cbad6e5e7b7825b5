------------------------------ MODULE PoolGen -------------------------------
(* Scenarios for the local pools.  "inter": samples completed before a poll and *)
(* samples completed at every point inside it (or a poll run at every point     *)
(* inside a completion).  "run": whole sampling runs.  "ws": sample workspaces.  *)
(* "repro": the same samples in several pools, orders and processes.            *)
EXTENDS Pool, Json, Randomization
CONSTANTS Mode, Kinds
VARIABLES n, prog
RE(S) == RandomElement(S)
St(z) == RE({"ok", "ok", "ok", "raise", "wrong"})
St2(z) == RE({"ok", "ok", "raise"})
Sq(k, F(_)) == [i \in 1..k |-> F(i)]
Perm(k) == LET RECURSIVE go(_)
               go(S) == IF S = {} THEN <<>> ELSE LET x == RE(S) IN <<x>> \o go(S \ {x})
           IN go(1..k)

Inter(z) == LET smp(i) == <<RE(0..1), St2(i)>> IN
         [mode |-> "inter", kind |-> RE(Kinds), dir |-> RE({"reader", "reader", "worker"}),
          pre |-> Sq(RE(0..3), smp), held |-> Sq(RE(1..2), smp), again |-> RE({0, 1})]
Run(z) == LET nl == RE(1..3) kind == RE(Kinds) IN
       [mode |-> "run", kind |-> kind, workers |-> RE(1..4), storage |-> RE({"mem", "hdf"}), nl |-> nl,
        st |-> [k \in 1..nl |-> Sq(RE(0..8), LAMBDA i : IF kind = "process" THEN RE({"ok", "ok", "raise", "wrong", "unpick", "none"})
                                                        ELSE RE({"ok", "ok", "ok", "raise", "wrong", "none"}))],
        rounds |-> RE(1..3), how |-> RE({"none", "small"}), sleeps |-> Sq(4, LAMBDA i : RE(0..3))]
\* more finished samples at once than any buffer would be expected to hold
Bulk(z) == [mode |-> "run", kind |-> RE(Kinds), workers |-> 4, storage |-> RE({"mem", "hdf"}), nl |-> 2,
            st |-> << Sq(1300, LAMBDA i : IF i % 100 = 7 THEN "raise" ELSE "ok"), Sq(30, LAMBDA i : "ok") >>,
            rounds |-> 1, how |-> "none", sleeps |-> Sq(4, LAMBDA i : 0)]
Ws(z) == LET nl == RE(1..2) IN
      [mode |-> "ws", kind |-> RE(Kinds), workers |-> RE(1..3), debug |-> RE({TRUE, FALSE}), nl |-> nl,
       from |-> RE({0, 0, 0, 2, 8, 17, 1000098}), old |-> RE({TRUE, FALSE}), common |-> RE(0..2), twice |-> RE({TRUE, FALSE}),
       st |-> [k \in 1..nl |-> Sq(RE(0..8), LAMBDA i : St(i))]]
Repro(z) == LET m == RE(4..9) nl == RE(1..3) IN
         [mode |-> "repro", nl |-> nl, m |-> m,
          plans |-> Sq(RE(2..3), LAMBDA i : [kind |-> RE(Kinds), workers |-> RE(1..3), gseed |-> RE(1..50), order |-> Perm(m * nl)])]

GInit == PInit /\ n = 0 /\ prog = <<>>
GNext == /\ n = 0 /\ n' = 1
         /\ \E x \in {CASE Mode = "inter" -> Inter(n) [] Mode = "run" -> Run(n) [] Mode = "bulk" -> Bulk(n) [] Mode = "ws" -> Ws(n) [] Mode = "repro" -> Repro(n)} : prog' = x
         /\ UNCHANGED pvars
GSpec == GInit /\ [][GNext]_<<n, prog, pvars>>
Emit == n = 1 => PrintT("@@PROG " \o ToJson(prog))
GLevel(x) == 1
GFailed(x) == FALSE
=============================================================================
