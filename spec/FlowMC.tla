------------------------------- MODULE FlowMC -------------------------------
(* Design model of one sample of the external program: the sample directory, file by file.   *)
(* The working directory may hold anything at the start (copies of common files, remains of  *)
(* an interrupted attempt); the program may write its output, a broken one, or nothing, and  *)
(* the process may end between any two steps and the sample be run again.                    *)
(* A file is [n: name, r: what it belongs to]; r = "old" for what was there before.          *)
EXTENDS Flow
CONSTANTS MaxCrash
VARIABLES lev, plan, files, pc, res, seen, crash
vars == <<lev, plan, files, pc, res, seen, crash>>
\* plan[k] of run k: the number it puts out, 0 for no output
Names == {"fields", "balance", "common", "fine_fields", "fine_balance", "fine_common"}
Fine(n) == CASE n = "fields" -> "fine_fields" [] n = "balance" -> "fine_balance" [] n = "common" -> "fine_common" [] OTHER -> n
Put(F, n, r) == {f \in F : f.n # n} \cup {[n |-> n, r |-> r]}
Get(F, n) == {f.r : f \in {f \in F : f.n = n}}
Init == /\ lev \in 1..2 /\ plan \in [1..2 -> {"A", "B", "none"}]
        /\ files \in {{}, {[n |-> "common", r |-> "old"]}}
        /\ pc = "fields1" /\ res = <<>> /\ seen = <<>> /\ crash = 0
Goto(p) == pc' = p /\ UNCHANGED <<lev, plan, crash>>
Write(k) == /\ pc = (IF k = 1 THEN "fields1" ELSE "fields2") /\ files' = Put(files, "fields", k) /\ Goto(IF k = 1 THEN "run1" ELSE "run2") /\ UNCHANGED <<res, seen>>
\* the program reads the fields and writes its balance
Run(k) == /\ pc = (IF k = 1 THEN "run1" ELSE "run2")
          /\ seen' = Append(seen, Get(files, "fields"))
          /\ files' = IF plan[k] = "none" THEN files ELSE Put(files, "balance", plan[k])
          /\ Goto(IF k = 1 THEN "take1" ELSE "take2") /\ UNCHANGED res
Take(k) == /\ pc = (IF k = 1 THEN "take1" ELSE "take2")
           /\ LET g == Get(files, "balance") IN
              IF g = {} THEN pc' = "failed" /\ UNCHANGED res
              ELSE res' = Append(res, g) /\ pc' = (IF k = 2 \/ lev = 1 THEN "done" ELSE "rename")
           /\ UNCHANGED <<lev, plan, files, seen, crash>>
\* every file of the fine run is put aside, one by one, in any order
Rename == /\ pc = "rename"
          /\ LET left == {f \in files : Fine(f.n) # f.n} IN
             IF left = {} THEN Goto("fields2") /\ UNCHANGED <<files, res, seen>>
             ELSE \E f \in left : files' = Put(files \ {f}, Fine(f.n), f.r) /\ pc' = pc /\ UNCHANGED <<lev, plan, res, seen, crash>>
\* the process is killed; the sample starts again in a directory made anew
Crash == /\ crash < MaxCrash /\ pc \notin {"done", "failed"} /\ crash' = crash + 1
         /\ pc' = "fields1" /\ res' = <<>> /\ seen' = <<>> /\ files' = {[n |-> "common", r |-> "old"]} /\ UNCHANGED <<lev, plan>>
Next == Write(1) \/ Run(1) \/ Take(1) \/ Rename \/ Write(2) \/ Run(2) \/ Take(2) \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Write(1) \/ Run(1) \/ Take(1) \/ Rename \/ Write(2) \/ Run(2) \/ Take(2))
\* run k reads the fields written for it; result k is what run k put out
OwnFields == \A k \in DOMAIN seen : seen[k] = {k}
OwnResult == \A k \in DOMAIN res : res[k] = {plan[k]} /\ plan[k] # "none"
FailsIff == /\ pc = "failed" => plan[1] = "none" \/ (lev = 2 /\ plan[2] = "none")
            /\ pc = "done" => plan[1] # "none" /\ (lev = 2 => plan[2] # "none")
RunCount == pc = "done" => Len(seen) = lev
FineKept == (pc \in {"fields2", "run2", "take2"} \/ (pc = "done" /\ lev = 2)) => Get(files, "fine_balance") = {plan[1]} /\ Get(files, "fine_fields") = {1}
Ends == <>(pc \in {"done", "failed"})
=============================================================================
