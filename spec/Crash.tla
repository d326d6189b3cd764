------------------------------- MODULE Crash -------------------------------
(***************************************************************************)
(* A single-objective run whose objective function may raise.              *)
(*                                                                         *)
(* A generation has New(g) unevaluated members and some carried-over ones. *)
(* Evaluating a generation calls the function once per unevaluated member, *)
(* in some order; a call that raises ends the evaluation there, and the    *)
(* caller evaluates the same generation again.  What the caller sees       *)
(* before and after (members, best, histories) is a function of the set of *)
(* evaluated members only, so the run continues as if nothing had          *)
(* happened.  TLC enumerates every placement of up to MaxFail raising      *)
(* calls; each behaviour is printed as a script of raising calls with the  *)
(* number of members newly evaluated by every evaluation.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N, Kids, Gens, MaxFail
VARIABLES gen, done, calls, fails, log, fresh, evals
vars == <<gen, done, calls, fails, log, fresh, evals>>

New(g) == IF g = 0 THEN 1..N ELSE 1..Kids
Init == gen = 0 /\ done = {} /\ calls = 0 /\ fails = <<>> /\ log = <<>> /\ fresh = 0 /\ evals = 0

(* the function returns for the next member without a score *)
Return == /\ gen < Gens /\ done # New(gen)
          /\ \E m \in New(gen) \ done : done' = done \cup {m} /\ \A k \in New(gen) \ done : k >= m
          /\ calls' = calls + 1 /\ fresh' = fresh + 1 /\ evals' = evals + 1
          /\ UNCHANGED <<gen, fails, log>>
(* it raises: the evaluation ends, the member stays without a score *)
Raise == /\ gen < Gens /\ done # New(gen) /\ Len(fails) < MaxFail
         /\ calls' = calls + 1 /\ fails' = Append(fails, calls + 1)
         /\ log' = Append(log, <<gen, fresh, 0>>) /\ fresh' = 0
         /\ UNCHANGED <<gen, done, evals>>
(* every member has a score: the evaluation ends normally, the next generation is built *)
Complete == /\ gen < Gens /\ done = New(gen)
            /\ log' = Append(log, <<gen, fresh, 1>>) /\ fresh' = 0
            /\ gen' = gen + 1 /\ done' = {}
            /\ UNCHANGED <<calls, fails, evals>>
            /\ (gen' < Gens \/ PrintT("CASE " \o ToJson([fails |-> fails, log |-> log', calls |-> calls])))
Next == Return \/ Raise \/ Complete
Spec == Init /\ [][Next]_vars /\ WF_vars(Return) /\ WF_vars(Complete)

RECURSIVE Total(_)
Total(g) == IF g = 0 THEN 0 ELSE Cardinality(New(g - 1)) + Total(g - 1)
(* exactly one returning call per member of the completed generations, whatever raised in between *)
ExactlyOnce == evals = Total(gen) + Cardinality(done)
CallsAddUp == calls = evals + Len(fails)
Finished == <>(gen = Gens)
=============================================================================
