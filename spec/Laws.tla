-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Laws of the operators of GAOps, checked exhaustively by TLC over small  *)
(* arguments: the quick decision procedures used on traces agree with the  *)
(* defining sets, and the definitions have the properties the listed       *)
(* guarantees speak of (one-to-one decoding, neighbouring Gray codes,      *)
(* closure of permutations, ranks, shares ...).  One initial state per     *)
(* group of laws.                                                          *)
(***************************************************************************)
EXTENDS GAOps, TLC
CONSTANTS Depth,         \* 0 quick, 1 thorough
          Which          \* names of laws
VARIABLE law

Words(n, V) == [1..n -> V]
Perm(n) == {p \in [1..n -> 1..n] : Pairwise(p)}
Ops == {"swap", "move", "inv", "shift"}

(* C09 *)
CrossLaw(n, V, op) == \A a, b \in Words(n, V) : \A x \in Words(n, V) : IsChild(op, a, b, x) <=> x \in CrossChildren(op, a, b)
OrderLaw(n) == LET a == [i \in 1..n |-> i] IN
    \A b \in Perm(n) : /\ \A x \in Perm(n) : IsChild("order", a, b, x) <=> x \in CrossChildren("order", a, b)
                       /\ CrossChildren("order", a, b) \subseteq Perm(n)
                       /\ CrossChildren("order", a, b) = CrossChildren("order", b, a)
(* children of equal parents are that parent (order crossover re-orders them) *)
Idempotent(n) == \A a \in Perm(n), op \in {"one", "two", "uni"} : CrossChildren(op, a, a) \subseteq {a}
(* a child of one- or two-point crossover is a child of uniform crossover *)
Nested(n, V) == \A a, b \in Words(n, V) : CrossChildren("one", a, b) \cup CrossChildren("two", a, b) \subseteq UniformChildren(a, b)
(* C10: decision = definition; a change can be undone; a change is a change and stays a permutation *)
MutLaw(n) == LET x == [i \in 1..n |-> i] IN
    \A op \in Ops : /\ \A y \in Perm(n) : IsPermChange(op, x, y) <=> y \in PermChanges(op, x)
                    /\ PermChanges(op, x) \subseteq Perm(n) \ {x}
                    /\ \A y \in PermChanges(op, x) : x \in PermChanges(op, y)
(* swapping neighbours is a move, a move is a shift, two items reversed are swapped *)
MutNest(n) == LET x == [i \in 1..n |-> i] IN
    /\ PermChanges("move", x) \subseteq PermChanges("shift", x)
    /\ \A i \in 1..(n - 1) : LET y == [k \in 1..n |-> IF k = i THEN x[i + 1] ELSE IF k = i + 1 THEN x[i] ELSE x[k]]
                             IN \A op \in Ops : y \in PermChanges(op, x)
(* C06 *)
CodeLaw(n, kind) ==
    LET W == Words(n, {0, 1}) IN
    /\ {GeneIndex(kind, b) : b \in W} = 0..(Pow(2, n) - 1)
    /\ \A a, b \in W : GeneIndex(kind, a) = GeneIndex(kind, b) => a = b
    /\ (kind = "gray" => \A a, b \in W : GeneIndex(kind, a) + 1 = GeneIndex(kind, b) => Cardinality(Diff(a, b)) = 1)
    /\ GeneIndex(kind, [i \in 1..n |-> 0]) = 0
BitsLaw(m) == \A d \in 1..m : LET n == BitsFor(d, 0) IN Pow(2, n) - 1 >= d /\ (n = 0 \/ Pow(2, n - 1) - 1 < d)
(* C13, C20: the ranks of a generation sum to the same total however the scores tie *)
RankLaw(n) == \A s \in Words(n, 1..n) :
    /\ SumSeq([i \in 1..n |-> AvgRank2(s, i)]) = n * (n + 1)
    /\ \A i, j \in 1..n : s[i] < s[j] => AvgRank2(s, i) < AvgRank2(s, j)
    /\ \A i, j \in 1..n : s[i] = s[j] => AvgRank2(s, i) = AvgRank2(s, j)
(* C18, C19 *)
ParetoLaw(n, V, d) == \A vs \in Words(n, Words(d, V)) :
    /\ Front(vs) = {i \in 1..n : ParetoRank(vs, i) = 1} /\ Front(vs) # {}
    /\ \A i, j \in 1..n : Dominates(vs[i], vs[j]) => ParetoRank(vs, i) < ParetoRank(vs, j)
    /\ \A i \in 1..n : i \in Front(vs) \/ \E j \in Front(vs) : Dominates(vs[j], vs[i])
    /\ \A i \in 1..n : ParetoRank(vs, i) <= n
(* C14: pairs and transferred parents fill num_individ+1 places, no place is negative *)
ShareLaw(m) == \A n \in 3..m, cd \in 1..20, M \in 1..3 : \A cn \in 1..cd :
    LET c == [algo |-> IF M = 1 THEN "so" ELSE "vega", M |-> M, N |-> n, cn |-> cn, cd |-> cd]
    IN /\ NumPairs(c) + Transfers(c) = n + 1 /\ Transfers(c) >= 1
       /\ NumPairs(c) * cd <= cn * n /\ (NumPairs(c) + Objectives(c)) * cd > cn * n
(* C05: no penalty exactly if feasible (from the second generation on); it grows with each violation *)
PenaltyLaw(m) ==
    LET C(z, p, pp) == [cond |-> <<"opt", z[1], z[2]>>, pen |-> p, pp |-> pp, vd |-> 1]
        Dyn == [d |-> 1, cn |-> 1, cd |-> 2, al |-> 2, be |-> 2]
        Ada == [d |-> 1, b1n |-> 11, b1d |-> 10, b2n |-> 12, b2d |-> 10, be |-> 2]
        Usr == [w |-> <<3, 1>>]
        Sta == [tab |-> <<[cuts |-> <<2>>, r |-> <<1, 3>>], [cuts |-> <<>>, r |-> <<2>>]>>]
        less(p, q) == p[1] * q[2] < q[1] * p[2]
    IN \A z \in Words(2, {"le", "eq"}), y \in Words(2, (-m)..m), g \in 1..3, bf \in BOOLEAN :
         \A c \in {C(z, "dyn", Dyn), C(z, "ada", Ada), C(z, "sta", Sta), C(z, "usr", Usr)} :
           LET v == <<7, y[1], y[2]>> IN
           /\ (Penalty(c, v, g, bf)[1] = 0 <=> Feasible(c, v))
           /\ Penalty(c, v, g, bf)[1] >= 0
           /\ \A k \in {1, 2} : y[k] >= 0 => less(Penalty(c, v, g, bf), Penalty(c, [v EXCEPT ![k + 1] = y[k] + 1], g, bf))
           /\ LET p == Penalty(c, v, g, bf)               \* the same values written in halves
                  q == Penalty([c EXCEPT !.vd = 2], [i \in 1..3 |-> 2 * v[i]], g, bf)
              IN p[1] * q[2] = q[1] * p[2]
           /\ (c.pen = "ada" => less(Penalty(c, v, g, TRUE), Penalty(c, v, g, FALSE)) \/ Feasible(c, v))
(* C03: the score is strictly monotone *)
ScoreLaw(m) == \A t \in {<<>>, <<0>>, <<2>>}, y1, y2 \in (-m)..m, p1, p2 \in 0..2 :
    LET c == [tgt |-> t, vd |-> 1]
        d(y) == IF t = <<>> THEN y ELSE Abs(t[1] - y)
        a == Score(c, 1, y1, <<p1, 1>>)
        b == Score(c, 1, y2, <<p2, 1>>)
    IN (d(y1) + p1 < d(y2) + p2) <=> (a[1] * b[2] > b[1] * a[2])

D(a, b) == IF Depth = 0 THEN a ELSE b
Holds(l) ==
    CASE l = "one" -> \A n \in 2..D(4, 5) : CrossLaw(n, {0, 1}, "one") /\ CrossLaw(3, {0, 1, 2}, "one")
      [] l = "two" -> \A n \in 3..D(5, 6) : CrossLaw(n, {0, 1}, "two") /\ CrossLaw(3, {0, 1, 2}, "two")
      [] l = "uni" -> \A n \in 1..D(4, 5) : CrossLaw(n, {0, 1}, "uni")
      [] l = "order" -> \A n \in 3..D(5, 6) : OrderLaw(n)
      [] l = "idem" -> \A n \in 3..D(5, 6) : Idempotent(n)
      [] l = "nest" -> Nested(3, {0, 1, 2}) /\ Nested(D(4, 6), {0, 1})
      [] l = "mut" -> \A n \in 2..D(6, 7) : MutLaw(n)
      [] l = "mutnest" -> \A n \in 2..D(7, 9) : MutNest(n)
      [] l = "bin" -> \A n \in 1..D(6, 9) : CodeLaw(n, "bin")
      [] l = "gray" -> \A n \in 1..D(6, 9) : CodeLaw(n, "gray")
      [] l = "bits" -> BitsLaw(D(600, 5000))
      [] l = "rank" -> \A n \in 1..D(5, 6) : RankLaw(n)
      [] l = "pareto2" -> ParetoLaw(3, {0, 1, 2}, 2) /\ ParetoLaw(4, {0, 1}, 2) /\ (Depth = 0 \/ ParetoLaw(5, {0, 1, 2}, 2))
      [] l = "pareto3" -> ParetoLaw(3, {0, 1}, 3) /\ (Depth = 0 \/ ParetoLaw(4, {0, 1}, 3))
      [] l = "share" -> ShareLaw(D(20, 60))
      [] l = "penalty" -> PenaltyLaw(D(2, 4))
      [] l = "score" -> ScoreLaw(D(4, 10))
Init == law \in Which
Next == FALSE /\ UNCHANGED law
Spec == Init /\ [][Next]_law
AllHold == Holds(law)
=============================================================================
