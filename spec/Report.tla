------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* Reports asked for at any moment of two optimisations that run side by   *)
(* side: which generation and which best generation each of them names.    *)
(*                                                                         *)
(* A generation either improves on everything before it or does not; the   *)
(* first one always does.  A report may be asked for as soon as there is a *)
(* generation, any number of times, and it changes nothing.  Every         *)
(* behaviour is printed as a list of steps with the predicted reports and  *)
(* replayed into two real storages.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Steps, MaxPrint
Who == 1..2
VARIABLES done, best, script, out
vars == <<done, best, script, out>>

Init == done = [w \in Who |-> 0] /\ best = [w \in Who |-> -1] /\ script = <<>> /\ out = <<>>
More == Len(script) < Steps
Generation(w, better) ==
    /\ More /\ (better \/ done[w] > 0)
    /\ done' = [done EXCEPT ![w] = @ + 1]
    /\ best' = IF better THEN [best EXCEPT ![w] = done[w]] ELSE best
    /\ script' = Append(script, <<w, IF better THEN "better" ELSE "same">>)
    /\ UNCHANGED out
Show(w) ==
    /\ More /\ done[w] > 0 /\ Len(out) < MaxPrint
    /\ out' = Append(out, [who |-> w, at |-> done[w] - 1, best |-> best[w]])
    /\ script' = Append(script, <<w, "print">>)
    /\ UNCHANGED <<done, best>>
Finish == /\ Len(script) = Steps /\ out # <<>>
          /\ PrintT("CASE " \o ToJson([script |-> script, out |-> out]))
          /\ script' = Append(script, <<0, "end">>) /\ UNCHANGED <<done, best, out>>
Next == Finish \/ \E w \in Who : Show(w) \/ \E b \in BOOLEAN : Generation(w, b)
Spec == Init /\ [][Next]_vars

Sane == \A i \in DOMAIN out : 0 <= out[i].best /\ out[i].best <= out[i].at
(* later reports of the same optimisation never go back, and name the same best generation unless it improved in between *)
Forward == \A i, j \in DOMAIN out : i < j /\ out[i].who = out[j].who =>
              /\ out[i].at <= out[j].at /\ out[i].best <= out[j].best
              /\ (out[i].at = out[j].at => out[i].best = out[j].best)
              /\ (out[i].best < out[j].best => out[i].at < out[j].best)
(* printing changes nothing; the other optimisation's steps change nothing *)
Frame == [][\A w \in Who : ((script'[Len(script')][1] # w) \/ Len(out') > Len(out))
                           => done'[w] = done[w] /\ best'[w] = best[w]]_vars
=============================================================================
