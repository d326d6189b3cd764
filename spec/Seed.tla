-------------------------------- MODULE Seed --------------------------------
(***************************************************************************)
(* Seeding, as self-composition: two executions ("worlds") of the same     *)
(* program run over one global random source each.  A population is        *)
(* constructed several times during a run (first generation, parents,      *)
(* children, every generation); every construction sets the source from    *)
(* the global seed, or from fresh entropy when no seed is set.  Before a   *)
(* run anybody may have drawn from the source any number of times.  The    *)
(* seed is set once, before the first of Rounds runs of each world.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Seeds,        \* "none" or integers as strings
          MaxForeign,   \* draws by others before the run
          Program,      \* sequence of "construct" and "draw"
          Rounds        \* runs per world
W == {1, 2}
VARIABLES seed, src, cnt, out, pc, foreign, ent
vars == <<seed, src, cnt, out, pc, foreign, ent>>

P == Len(Program)
At(k) == Program[((k - 1) % P) + 1]
Round(k) == IF k > P * Rounds THEN Rounds ELSE ((k - 1) \div P) + 1
Init == /\ seed \in [W -> Seeds]
        /\ src = [w \in W |-> "os"] /\ cnt = [w \in W |-> 0] /\ out = [w \in W |-> <<>>] /\ pc = [w \in W |-> 1]
        /\ foreign = [w \in W |-> [r \in 1..Rounds |-> 0]] /\ ent = 0
Foreign(w) == /\ pc[w] <= P * Rounds /\ (pc[w] - 1) % P = 0 /\ foreign[w][Round(pc[w])] < MaxForeign
              /\ foreign' = [foreign EXCEPT ![w][Round(pc[w])] = @ + 1] /\ cnt' = [cnt EXCEPT ![w] = @ + 1]
              /\ UNCHANGED <<seed, src, out, pc, ent>>
Construct(w) == /\ pc[w] <= P * Rounds /\ At(pc[w]) = "construct"
                /\ IF seed[w] = "none" THEN src' = [src EXCEPT ![w] = "entropy" \o ToString(ent)] /\ ent' = ent + 1
                   ELSE src' = [src EXCEPT ![w] = seed[w]] /\ ent' = ent
                /\ cnt' = [cnt EXCEPT ![w] = 0] /\ pc' = [pc EXCEPT ![w] = @ + 1]
                /\ UNCHANGED <<seed, out, foreign>>
Draw(w) == /\ pc[w] <= P * Rounds /\ At(pc[w]) = "draw"
           /\ out' = [out EXCEPT ![w] = Append(@, <<src[w], cnt[w]>>)]
           /\ cnt' = [cnt EXCEPT ![w] = @ + 1] /\ pc' = [pc EXCEPT ![w] = @ + 1]
           /\ UNCHANGED <<seed, src, foreign, ent>>
Next == \E w \in W : Foreign(w) \/ Construct(w) \/ Draw(w)
Spec == Init /\ [][Next]_vars

Common == IF Len(out[1]) < Len(out[2]) THEN Len(out[1]) ELSE Len(out[2])
Reproducible == seed[1] = seed[2] /\ seed[1] # "none" => SubSeq(out[1], 1, Common) = SubSeq(out[2], 1, Common)
Different == (seed[1] # seed[2] \/ seed[1] = "none") => \A k \in 1..Common : out[1][k] # out[2][k]
(* the seed stays set: every run of a seeded world is the same, without a seed no two runs are *)
D == Cardinality({k \in 1..P : Program[k] = "draw"})
Sticky == \A w \in W : \A k \in 1..Len(out[w]) : k > D => ((out[w][k] = out[w][k - D]) <=> (seed[w] # "none"))
Finished == \A w \in W : pc[w] = P * Rounds + 1
Emit == Finished => PrintT("CASE " \o ToJson([seed |-> seed, foreign |-> foreign,
                           want |-> IF seed[1] = seed[2] /\ seed[1] # "none" THEN "eq" ELSE "ne"]))

Short == <<"construct", "draw", "construct", "draw">>
Prog == <<"construct", "draw", "draw", "construct", "draw", "construct", "draw">>
=============================================================================
