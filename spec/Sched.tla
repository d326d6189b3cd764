------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The run seen through its scores only: duplicate-free generations, best  *)
(* strategy.  Every behaviour is a script of objective values in the order *)
(* in which new individuals are evaluated; the machine predicts histories, *)
(* counters, index of the best generation and the moment of stopping.      *)
(* TLC enumerates all scripts; each is replayed into the real classes.     *)
(***************************************************************************)
EXTENDS GAOps, TLC, Json

CONSTANTS N, Kids, Gens, Values, Stop     \* Stop: set of early_stop values
VARIABLES es, script, pop, hb, hm, hw, nis, bigs, run
vars == <<es, script, pop, hb, hm, hw, nis, bigs, run>>

RECURSIVE SortDesc(_)
SortDesc(s) == IF s = <<>> THEN <<>>
               ELSE LET m == SetMax(Range(s))
                        i == CHOOSE k \in DOMAIN s : s[k] = m
                    IN <<m>> \o SortDesc(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)))

Init == es \in Stop /\ script = <<>> /\ pop = <<>> /\ hb = <<>> /\ hm = <<>> /\ hw = <<>>
        /\ nis = <<>> /\ bigs = <<>> /\ run = TRUE
(* objective values are minimised: the score is minus the value *)
Generation ==
    /\ run
    /\ \E new \in [1..(IF pop = <<>> THEN N ELSE Kids) -> Values] :
         LET sc == [i \in 1..Len(new) |-> -new[i]]
             t == N + 1 - Kids
             nx == IF pop = <<>> THEN sc ELSE sc \o SubSeq(SortDesc(pop), 1, t)
             mx == SetMax(Range(nx))
             g == Len(hb)
             better == g = 0 \/ mx > hb[g]        \* the best of a generation survives: hb[g] is the best so far
             ni == IF better THEN 0 ELSE nis[g] + 1
         IN /\ pop' = nx
            /\ script' = script \o new
            /\ hb' = Append(hb, mx) /\ hw' = Append(hw, SetMin(Range(nx))) /\ hm' = Append(hm, Kth(nx, Len(nx) \div 2))
            /\ nis' = Append(nis, ni)
            /\ bigs' = Append(bigs, IF better THEN g ELSE bigs[g])
            /\ run' = (g + 1 < Gens /\ ni <= es)
            /\ es' = es
            /\ (run' \/ PrintT("CASE " \o ToJson([es |-> es, v |-> script', hb |-> hb', hm |-> hm', hw |-> hw',
                                                  ni |-> nis', bg |-> bigs'])))
Next == Generation
Spec == Init /\ [][Next]_vars
Monotone == \A i \in 1..(Len(hb) - 1) : hb[i] <= hb[i + 1]
Sound == run \/ Len(hb) = Gens \/ nis[Len(nis)] = es + 1
=============================================================================
