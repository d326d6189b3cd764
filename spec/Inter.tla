------------------------------- MODULE Inter -------------------------------
(***************************************************************************)
(* Two optimisations whose operator calls interleave.  Each has its own    *)
(* data; an operator call reads and writes the data of its own run only.   *)
(* The data is abstracted to the history of operations applied to it, so   *)
(* "isolated" means: each run's history is its own solo history.  The      *)
(* schedules are printed and replayed into the real classes.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS StepsA, StepsB, MaxSwitch
VARIABLES sched, switches, pc, data
vars == <<sched, switches, pc, data>>
R == {"a", "b"}
Steps(r) == IF r = "a" THEN StepsA ELSE StepsB
Init == sched = <<>> /\ switches = 0 /\ pc = [r \in R |-> 0] /\ data = [r \in R |-> <<>>]
Step(r) == /\ pc[r] < Steps(r)
           /\ LET sw == sched # <<>> /\ sched[Len(sched)] # r
              IN switches' = switches + (IF sw THEN 1 ELSE 0)
           /\ switches' <= MaxSwitch
           /\ pc' = [pc EXCEPT ![r] = @ + 1]
           /\ data' = [data EXCEPT ![r] = Append(@, <<r, pc[r]>>)]
           /\ sched' = Append(sched, r)
Next == \E r \in R : Step(r)
Spec == Init /\ [][Next]_vars
Isolated == \A r \in R : data[r] = [k \in 1..pc[r] |-> <<r, k - 1>>]
Emit == (\A r \in R : pc[r] = Steps(r)) => PrintT("CASE " \o ToJson(sched))
=============================================================================
