-------------------------------- MODULE Loop --------------------------------
(***************************************************************************)
(* The collector's loop, over operators of anybody's making.               *)
(*                                                                         *)
(* An operator is anything with the right method; what it does to the data *)
(* is its own business, so the data is abstracted to the counter of        *)
(* generations without improvement, which the storage sets at will         *)
(* (script; nothing can fail to improve on the first one), and an operator may raise.  The module fixes which operator   *)
(* is called when; every behaviour is printed as script and call log and   *)
(* replayed into the real collector with operators that only keep a log.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS MaxG, MaxNI, Stops, Raising
VARIABLES G, es, script, log, pc, ended
vars == <<G, es, script, log, pc, ended>>

Generation == <<"sel", "cross", "mut", "new", "fit", "upd">>
(* calls made before the loop starts *)
Prologue == <<"params", "fill", "fit", "upd">>
Gens == Len(script)                 \* generations completed (each ends with one update)

Init == /\ G \in 1..MaxG /\ es \in Stops /\ script = <<>> /\ log = <<>> /\ pc = "setup" /\ ended = FALSE
NextCall == IF Len(log) < 4 THEN Prologue[Len(log) + 1] ELSE Generation[((Len(log) - 4) % 6) + 1]
AtBoundary == Len(log) >= 4 /\ (Len(log) - 4) % 6 = 0
(* stopping is asked after every generation but the first *)
Over == AtBoundary /\ (Gens >= G \/ (Gens > 1 /\ script[Gens] > es))

Call == /\ pc # "end" /\ ~Over
        /\ pc' = "run"
        /\ log' = Append(log, NextCall)
        /\ IF NextCall = "upd" THEN \E n \in (IF script = <<>> THEN {0} ELSE 0..MaxNI) : script' = Append(script, n) ELSE UNCHANGED script
        /\ UNCHANGED <<G, es, ended>>
Report == /\ pc # "end" /\ Over
         /\ pc' = "end" /\ ended' = TRUE
         /\ log' = Append(log, "print")
         /\ UNCHANGED <<G, es, script>>
         /\ PrintT("CASE " \o ToJson([G |-> G, es |-> es, script |-> script, log |-> log', raised |-> ""]))
(* the operator whose turn it is raises: nothing else is called *)
Raise == /\ pc # "end" /\ ~Over /\ Raising /\ Len(log) >= 1
         /\ pc' = "end" /\ ended' = TRUE
         /\ log' = Append(log, NextCall)
         /\ UNCHANGED <<G, es, script>>
         /\ PrintT("CASE " \o ToJson([G |-> G, es |-> es, script |-> script, log |-> log', raised |-> NextCall]))
Next == Call \/ Report \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Call) /\ WF_vars(Report)

Count(x) == LET S == {i \in DOMAIN log : log[i] = x} IN IF S = {} THEN 0 ELSE LET RECURSIVE C(_) C(T) == IF T = {} THEN 0 ELSE 1 + C(T \ {CHOOSE t \in T : TRUE}) IN C(S)
Balanced == /\ Count("fill") <= 1 /\ Count("print") <= 1
            /\ \A x \in {"sel", "cross", "mut", "new"} : Count(x) <= Count("sel") /\ Count("sel") - Count(x) <= 1
            /\ Count("fit") >= Count("upd") /\ Count("fit") - Count("upd") <= 1
Bounded == Gens <= G /\ \A k \in 2..(Gens - 1) : script[k] <= es
Ends == <>(pc = "end")
=============================================================================
