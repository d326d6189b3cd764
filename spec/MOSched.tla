------------------------------ MODULE MOSched ------------------------------
(***************************************************************************)
(* FFGA with the best strategy, seen through its value vectors only: every *)
(* behaviour is a script of the vectors of the new individuals in the      *)
(* order of their evaluation; the next generation is the children plus the *)
(* non-dominated individuals.  TLC enumerates all scripts; each is         *)
(* replayed into the real classes, whose reported sets must be the         *)
(* predicted ones.                                                         *)
(***************************************************************************)
EXTENDS GAOps, TLC, Json
CONSTANTS N, Kids, Gens, Values, Dim
VARIABLES script, pop, hist
vars == <<script, pop, hist>>
Vec == [1..Dim -> Values]
FrontOf(p) == SelectIdx(p, Front(p), 1)
Init == script = <<>> /\ pop = <<>> /\ hist = <<>>
Generation ==
    /\ Len(hist) < Gens
    /\ \E new \in [1..(IF pop = <<>> THEN N ELSE Kids) -> Vec] :
         /\ pop' = new \o FrontOf(pop)
         /\ script' = Append(script, new)
         /\ hist' = Append(hist, FrontOf(pop'))
         /\ (Len(hist') < Gens \/ PrintT("CASE " \o ToJson([v |-> script', h |-> hist', n |-> Len(pop')])))
Next == Generation
Spec == Init /\ [][Next]_vars
(* nothing reported is ever lost without being covered by something at least as good *)
Covered == \A k \in 1..(Len(hist) - 1) : \A i \in DOMAIN hist[k] : \E j \in DOMAIN hist[Len(hist)] :
              hist[Len(hist)][j] = hist[k][i] \/ Dominates(hist[Len(hist)][j], hist[k][i])
(* the reported set is the non-dominated set of everything evaluated so far *)
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Everything == hist = <<>> \/ BagEq(hist[Len(hist)], FrontOf(Flat(script)))
=============================================================================
