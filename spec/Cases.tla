------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* Finite families of situations, enumerated completely by TLC and         *)
(* replayed into the real operators by the drivers.  Every enumerated      *)
(* situation is one initial state.                                         *)
(***************************************************************************)
EXTENDS GAOps, TLC, Json

CONSTANTS Kind, Size, Vals, Dim
VARIABLE x

(* score patterns: all weak orders of Size members *)
Weak == {s \in [1..Size -> 0..(Size - 1)] : \A i \in DOMAIN s : s[i] = 0 \/ \E j \in DOMAIN s : s[j] = s[i] - 1}
(* generations of Size members with Dim objective values *)
Vectors == [1..Size -> [1..Dim -> Vals]]
(* positions of the objectives among Size returned values, Dim objectives *)
Layouts == {c \in [1..Size -> {"opt", "le", "eq"}] : Cardinality({i \in DOMAIN c : c[i] = "opt"}) = Dim}
(* generations with repeated genotypes: Size members of at most three genotypes, whose scores form any weak order  *)
(* (copies of one genotype may have different scores: penalties depend on the generation), a number of children    *)
(* and the members that are selected (the best ones need not be)                                                   *)
Classes == {k \in [1..Size -> 0..2] : k[1] = 0 /\ \A i \in 2..Size : k[i] = 0 \/ \E j \in 1..(i - 1) : k[j] = k[i] - 1}
Dups == {[cls |-> k, sc |-> s, kids |-> n, tp |-> t] : k \in Classes, s \in Weak, n \in 1..Size, t \in {"best", "random"}}
(* pairs of permutations (the first one fixed: operators do not look at the items themselves) *)
PermPairs == {p \in [1..Size -> 0..(Size - 1 + Dim)] : Pairwise(p)}

CaseSet == CASE Kind = "weak" -> Weak
             [] Kind = "vec" -> Vectors
             [] Kind = "layout" -> Layouts
             [] Kind = "dup" -> Dups
             [] Kind = "perm" -> PermPairs
Init == x \in CaseSet /\ PrintT("CASE " \o ToJson(x))
Next == FALSE /\ UNCHANGED x
Spec == Init /\ [][Next]_x
=============================================================================
