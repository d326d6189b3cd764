------------------------------- MODULE GAOps -------------------------------
(***************************************************************************)
(* What the operators of BaumEvA may do, as pure definitions.              *)
(*                                                                         *)
(* Two forms are kept side by side: generators (sets of allowed results,   *)
(* used by the state machines GA.tla and MOGA.tla to produce behaviours)   *)
(* and clauses (operators ending in "Fails": the set of names of violated  *)
(* requirements, {} meaning "allowed"; used by Trace.tla on what the real  *)
(* code did, and as action properties of the state machines, so that the   *)
(* two forms are checked against each other).                              *)
(*                                                                         *)
(* An individual is a record                                               *)
(*   g  genotype, a sequence of integers                                   *)
(*   p  grid coordinates of its decoded values (binary), <<>> if undecoded *)
(*   s  score(s), order preserving integers, <<>> if not evaluated         *)
(*   q  score(s) as reduced rationals <<num, den>>                         *)
(*   o  recorded objective value(s), times c.vd                            *)
(*   v  everything the user's function returns for its genes, times c.vd   *)
(*   f  1 if flagged feasible                                              *)
(*   a  its decoded values as an opaque argument of the user's function    *)
(* c is a configuration record.  I(_) maps an element of a population to   *)
(* its individual (populations hold numbers in traces, records in models). *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

F(cond, name) == IF cond THEN {} ELSE {name}

----------------------------------------------------------------------------
(* sequences, bags, numbers *)
Range(s) == {s[i] : i \in DOMAIN s}
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SubBag(a, b) == \A x \in Range(a) : Count(a, x) <= Count(b, x)
BagEq(a, b) == Len(a) = Len(b) /\ SubBag(a, b)
Map(s, Op(_)) == [i \in 1..Len(s) |-> Op(s[i])]
Pairwise(s) == \A i, j \in DOMAIN s : i # j => s[i] # s[j]
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(n, d) == LET k == Gcd(Abs(n), d) IN <<n \div k, d \div k>>
(* keeps those elements of s whose index is in S, in order *)
RECURSIVE SelectIdx(_, _, _)
SelectIdx(s, S, i) == IF i > Len(s) THEN <<>>
                      ELSE (IF i \in S THEN <<s[i]>> ELSE <<>>) \o SelectIdx(s, S, i + 1)
(* x is the element with 0-based index k of the ascending order of s *)
IsKth(s, k, x) == /\ Cardinality({i \in DOMAIN s : s[i] < x}) <= k
                  /\ k < Cardinality({i \in DOMAIN s : s[i] <= x})
Kth(s, k) == CHOOSE x \in Range(s) : IsKth(s, k, x)
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

----------------------------------------------------------------------------
(* C06: binary and Gray coding *)
RECURSIVE BitsFor(_, _)
BitsFor(pts, n) == IF Pow(2, n) - 1 >= pts THEN n ELSE BitsFor(pts, n + 1)
GeneBits(d) == BitsFor((d.hn - d.ln) \div d.sn, 0)
GenoLen(c) == IF c.kind \in {"bin", "gray"} THEN SumSeq([i \in 1..Len(c.gens) |-> GeneBits(c.gens[i])])
              ELSE IF c.kind = "cat" THEN Len(c.gens) ELSE c.gens[1].n
RECURSIVE BinValue(_)
BinValue(b) == IF b = <<>> THEN 0 ELSE 2 * BinValue(SubSeq(b, 1, Len(b) - 1)) + b[Len(b)]
RECURSIVE GrayToBin(_, _)
GrayToBin(b, i) == IF i = 0 THEN <<>>
                   ELSE LET r == GrayToBin(b, i - 1)
                        IN Append(r, IF i = 1 THEN b[1] ELSE (b[i] + r[i - 1]) % 2)
GeneIndex(kind, b) == IF kind = "gray" THEN BinValue(GrayToBin(b, Len(b))) ELSE BinValue(b)
RECURSIVE DecodeFrom(_, _, _)
DecodeFrom(c, g, k) == IF k > Len(c.gens) THEN <<>>
                       ELSE LET n == GeneBits(c.gens[k])
                            IN <<GeneIndex(c.kind, SubSeq(g, 1, n))>>
                               \o DecodeFrom(c, SubSeq(g, n + 1, Len(g)), k + 1)
Decode(c, g) == DecodeFrom(c, g, 1)
IsBinary(c) == c.kind \in {"bin", "gray"}

----------------------------------------------------------------------------
(* C08: declared domain *)
InDomain(c, g) ==
    /\ Len(g) = GenoLen(c)
    /\ CASE c.kind \in {"bin", "gray"} -> \A i \in DOMAIN g : g[i] \in {0, 1}
         [] c.kind = "cat" -> \A i \in DOMAIN g : g[i] >= 0 /\ g[i] < c.gens[i].n
         [] c.kind = "ord" -> /\ \A i \in DOMAIN g : g[i] >= c.gens[1].lo /\ g[i] <= c.gens[1].hi
                              /\ Pairwise(g)

----------------------------------------------------------------------------
(* C05: constraints and penalties; values v in the order of c.cond *)
OptIdx(c) == {i \in DOMAIN c.cond : c.cond[i] = "opt"}
ConIdx(c) == DOMAIN c.cond \ OptIdx(c)
OptValues(c, v) == SelectIdx(v, OptIdx(c), 1)
ConValues(c, v) == SelectIdx(v, ConIdx(c), 1)
ConSigns(c) == SelectIdx(c.cond, ConIdx(c), 1)
Violation(sign, y) == IF sign = "le" THEN Max2(0, y) ELSE Abs(y)
Feasible(c, v) == \A i \in ConIdx(c) : Violation(c.cond[i], v[i]) = 0
(* exponents are whole or, with c.pp.h = 2, counted in halves; then only perfect squares have a power *)
Halves(c) == "h" \in DOMAIN c.pp /\ c.pp.h = 2
Square(x) == \E r \in 0..x : r * r = x
Root(x) == CHOOSE r \in 0..x : r * r = x
PowH(c, b, e) == Pow(IF Halves(c) THEN Root(b) ELSE b, e)
Decidable(c, v, gen) == Halves(c) => /\ c.pen = "dyn" => Square(c.pp.cn * gen)
                                     /\ \A i \in ConIdx(c) : Square(Violation(c.cond[i], v[i]))
SumPow(c, v, e) == LET y == ConValues(c, v)  z == ConSigns(c)
                   IN SumSeq([i \in 1..Len(y) |-> IF Violation(z[i], y[i]) = 0 THEN 0
                                                  ELSE PowH(c, Violation(z[i], y[i]), e)])
(* gen: 0 for the first generation; bf: the best solution so far is feasible; result <<num, den>>; values are times c.vd *)
Penalty(c, v, gen, bf) ==
    CASE c.pen = "none" -> <<0, 1>>
      [] c.pen = "dyn" -> <<c.pp.d * PowH(c, c.pp.cn * gen, c.pp.al) * SumPow(c, v, c.pp.be), PowH(c, c.pp.cd, c.pp.al) * PowH(c, c.vd, c.pp.be)>>
      [] c.pen = "ada" -> IF gen = 0 THEN <<0, 1>>
                          ELSE IF bf THEN <<c.pp.d * 10 * c.pp.b1d * SumPow(c, v, c.pp.be), c.pp.b1n * PowH(c, c.vd, c.pp.be)>>
                          ELSE <<c.pp.d * 10 * c.pp.b2n * SumPow(c, v, c.pp.be), c.pp.b2d * PowH(c, c.vd, c.pp.be)>>
      \* the cuts are times 2: an interval excludes its lower and includes its upper border
      [] c.pen = "sta" -> LET y == ConValues(c, v)  z == ConSigns(c)
                              one(i) == LET w == Violation(z[i], y[i])
                                            t == c.pp.tab[i]
                                            k == 1 + Cardinality({j \in DOMAIN t.cuts : 2 * w > t.cuts[j] * c.vd})
                                        IN IF w = 0 THEN 0 ELSE Pow(t.r[k] * w, 2)
                          IN <<SumSeq([i \in 1..Len(y) |-> one(i)]), Pow(c.vd, 2)>>
      \* a penalty class of the user's own: weights times violations
      [] c.pen = "usr" -> LET y == ConValues(c, v)  z == ConSigns(c)
                          IN <<SumSeq([i \in 1..Len(y) |-> c.pp.w[i] * Violation(z[i], y[i])]), c.vd>>

(* C03, C18: fitness score of objective value y under target t (or none), both times vd; penalty <<n, d>> *)
Score(c, k, y, pen) ==
    IF Len(c.tgt) >= k
    THEN Norm(c.vd * pen[2], c.vd * pen[2] + Abs(c.tgt[k] - y) * pen[2] + pen[1] * c.vd)
    ELSE Norm(-(y * pen[2] + pen[1] * c.vd), c.vd * pen[2])
(* the recorder writes rationals with denominators up to 30000; anything else is written <<0, 0>> *)
SameScore(q, e) == q = e \/ e[2] > 30000 \/ Abs(e[1]) > 500000000

----------------------------------------------------------------------------
(* C18: Pareto dominance, everything minimised *)
Dominates(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in DOMAIN a : a[i] <= b[i]
                   /\ \E i \in DOMAIN a : a[i] < b[i]
ParetoRank(vs, i) == 1 + Cardinality({j \in DOMAIN vs : Dominates(vs[j], vs[i])})
Front(vs) == {i \in DOMAIN vs : ~\E j \in DOMAIN vs : Dominates(vs[j], vs[i])}

(* C13, C20: average rank, doubled; worst 1, best highest, ties share the mean *)
AvgRank2(s, i) == LET lo == Cardinality({j \in DOMAIN s : s[j] < s[i]})
                      eq == Cardinality({j \in DOMAIN s : s[j] = s[i]})
                  IN 2 * lo + eq + 1

----------------------------------------------------------------------------
(* C14: shares *)
Pairs(c) == IF c.algo = "vega" THEN (c.cn * c.N) \div (c.cd * c.M) ELSE (c.cn * c.N) \div c.cd
Objectives(c) == IF c.algo = "vega" THEN c.M ELSE 1
NumPairs(c) == Pairs(c) * Objectives(c)
Transfers(c) == c.N + 1 - NumPairs(c)

----------------------------------------------------------------------------
(* C09: crossover *)
Splice(a, b, i, j) == [k \in 1..Len(a) |-> IF k > i /\ k <= j THEN b[k] ELSE a[k]]
OnePointChildren(a, b) == UNION {{Splice(a, b, i, Len(a)), Splice(b, a, i, Len(a))} : i \in 1..(Len(a) - 1)}
TwoPointChildren(a, b) == UNION {UNION {{Splice(a, b, i, j), Splice(b, a, i, j)} : j \in (i + 1)..(Len(a) - 1)}
                                 : i \in 1..(Len(a) - 1)}
IsUniformChild(a, b, x) == Len(x) = Len(a) /\ \A k \in DOMAIN x : x[k] \in {a[k], b[k]}
RECURSIVE UniformChildren(_, _)
UniformChildren(a, b) == IF a = <<>> THEN {<<>>}
                         ELSE {<<h>> \o t : h \in {Head(a), Head(b)}, t \in UniformChildren(Tail(a), Tail(b))}
(* a keeps positions i+1..j; the rest is filled from j+1 on, wrapping, with b's other items in b's order *)
OrderChild(a, b, i, j) ==
    LET n == Len(a)
        seg == {a[k] : k \in (i + 1)..j}
        rest == SelectSeq(b, LAMBDA x : x \notin seg)
    IN [k \in 1..n |-> IF k > i /\ k <= j THEN a[k]
                       ELSE LET r == IF k > j THEN k - j ELSE n - j + k
                            IN IF r <= Len(rest) THEN rest[r] ELSE -9]
OrderChildren(a, b) == UNION {UNION {{OrderChild(a, b, i, j), OrderChild(b, a, i, j)} : j \in (i + 1)..(Len(a) - 1)}
                              : i \in 1..(Len(a) - 1)}
CrossChildren(op, a, b) == CASE op = "one" -> OnePointChildren(a, b)
                             [] op = "two" -> TwoPointChildren(a, b)
                             [] op = "uni" -> UniformChildren(a, b)
                             [] op = "order" -> OrderChildren(a, b)
(* the same as membership in CrossChildren, decided without enumerating it (Laws.tla compares the two) *)
Agree(x, y, i, j) == \A k \in i..j : x[k] = y[k]
IsOnePoint(a, b, x) == \E i \in 1..(Len(a) - 1) : Agree(x, a, 1, i) /\ Agree(x, b, i + 1, Len(a))
IsTwoPoint(a, b, x) == LET n == Len(a) IN
    \E i \in 1..(n - 2) : /\ Agree(x, a, 1, i)
                          /\ \E j \in (i + 1)..(n - 1) : Agree(x, b, i + 1, j) /\ Agree(x, a, j + 1, n)
IsOrder(a, b, x) == LET n == Len(a) IN
    \E i \in 1..(n - 2) : \E j \in (i + 1)..(n - 1) : Agree(x, a, i + 1, j) /\ x = OrderChild(a, b, i, j)
IsChild(op, a, b, x) == IF Len(a) # Len(b) \/ Len(x) # Len(a) THEN FALSE
                        ELSE CASE op = "uni" -> IsUniformChild(a, b, x)
                               [] op = "one" -> IsOnePoint(a, b, x) \/ IsOnePoint(b, a, x)
                               [] op = "two" -> IsTwoPoint(a, b, x) \/ IsTwoPoint(b, a, x)
                               [] op = "order" -> IsOrder(a, b, x) \/ IsOrder(b, a, x)

----------------------------------------------------------------------------
(* C10: mutation of one child *)
RemoveAt(x, i) == SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
InsertAt(x, i, y) == SubSeq(x, 1, i - 1) \o y \o SubSeq(x, i, Len(x))
Swaps(x) == {[k \in 1..Len(x) |-> IF k = i THEN x[j] ELSE IF k = j THEN x[i] ELSE x[k]]
             : i, j \in 1..Len(x)}
Moves(x) == {InsertAt(RemoveAt(x, i), j, <<x[i]>>) : i, j \in 1..Len(x)}
InvPairs(x) == {SubSeq(x, 1, ij[1] - 1) \o Reverse(SubSeq(x, ij[1], ij[2])) \o SubSeq(x, ij[2] + 1, Len(x))
                : ij \in {p \in (1..Len(x)) \X (1..Len(x)) : p[1] < p[2]}}
(* a contiguous part moved elsewhere = two neighbouring parts exchanged *)
Shifts(x) == {SubSeq(x, 1, t[1]) \o SubSeq(x, t[2] + 1, t[3]) \o SubSeq(x, t[1] + 1, t[2]) \o SubSeq(x, t[3] + 1, Len(x))
              : t \in {u \in (0..Len(x)) \X (0..Len(x)) \X (0..Len(x)) : u[1] < u[2] /\ u[2] < u[3]}}
PermChanges(op, x) == CASE op = "swap" -> Swaps(x) \ {x}
                        [] op = "move" -> Moves(x) \ {x}
                        [] op = "inv" -> InvPairs(x)
                        [] op = "shift" -> Shifts(x)
(* membership in PermChanges for pairwise different items, without enumerating it (Laws.tla compares the two) *)
IsPermChange(op, x, y) ==
    IF Len(x) # Len(y) \/ x = y THEN FALSE
    ELSE LET D == {i \in DOMAIN x : x[i] # y[i]}
             p == SetMin(D)
             r == SetMax(D)
             mid(z) == SubSeq(z, p, r)
         IN CASE op = "swap" -> Cardinality(D) = 2 /\ y[p] = x[r] /\ y[r] = x[p]
              [] op = "move" -> \/ mid(y) = SubSeq(x, p + 1, r) \o <<x[p]>>
                                \/ mid(y) = <<x[r]>> \o SubSeq(x, p, r - 1)
              [] op = "inv" -> mid(y) = Reverse(mid(x))
              [] op = "shift" -> \E k \in p..(r - 1) : mid(y) = SubSeq(x, k + 1, r) \o SubSeq(x, p, k)
Single(c, i) == c.kind = "cat" /\ c.gens[i].n = 1
(* positions a child changed at *)
Diff(x, y) == {i \in DOMAIN x : x[i] # y[i]}
IsMutant(c, x, y) ==
    IF Len(x) # Len(y) THEN FALSE
    ELSE CASE c.mut = "bit" -> \A i \in DOMAIN y : y[i] \in {0, 1}
           [] c.mut = "cat" -> \A i \in DOMAIN y : y[i] >= 0 /\ y[i] < c.gens[i].n
           [] c.mut \in {"swap", "move", "inv", "shift"} -> y = x \/ IsPermChange(c.mut, x, y)
Changed(c, x, y) == IF Len(x) # Len(y) THEN FALSE
                    ELSE IF c.mut \in {"bit", "cat"} THEN \A i \in DOMAIN x : x[i] # y[i] \/ Single(c, i)
                    ELSE y # x
----------------------------------------------------------------------------
(* clauses, one group per operator; K is the set of properties to be judged *)

UnEvaluated(x) == x.s = <<>>

WellFormedFails(K, c, I(_), pop) ==
    (IF "C08" \in K THEN F(\A i \in DOMAIN pop : InDomain(c, I(pop[i]).g), "C08 outside the declared domain") ELSE {})
    \cup (IF "C06" \in K /\ IsBinary(c)
          THEN F(\A i \in DOMAIN pop : LET x == I(pop[i]) IN x.p = <<>> \/ (Len(x.g) = GenoLen(c) /\ x.p = Decode(c, x.g)),
                 "C06 decoded values do not belong to the genotype") ELSE {})

InputFails(c, x, w) ==     \* w: one of the user's individuals; binary genes as <<coordinate times u, u>>
    IF IsBinary(c)
    THEN F(Len(w) = Len(x.p) /\ (\A k \in DOMAIN w : Abs(w[k][2] * x.p[k] - w[k][1]) <= w[k][2] \div 2 + 1),
           "C07 input individual not at a nearest grid point")
    ELSE F(x.g = w, "C07 input individual changed")

FillFails(K, c, I(_), pop) ==
    WellFormedFails(K, c, I, pop)
    \cup (IF "C07" \in K
          THEN F(Len(pop) = c.N, "C07 size of the first generation")
               \cup F(\A i \in DOMAIN pop : UnEvaluated(I(pop[i])) /\ I(pop[i]).o = <<>>, "C07 evaluated before evaluation")
               \cup F(\A i \in DOMAIN pop : InDomain(c, I(pop[i]).g), "C07 invalid first individual")
               \cup (IF Len(pop) >= Len(c.inputs)
                     THEN UNION {InputFails(c, I(pop[i]), c.inputs[i]) : i \in DOMAIN c.inputs} ELSE {})
          ELSE {})
    \cup (IF "C14" \in K THEN F(Len(pop) = c.N, "C14 size of the first generation") ELSE {})
    \cup (IF "C06" \in K /\ IsBinary(c)
          THEN F(\A i \in DOMAIN c.gens : c.gens[i].nb = GeneBits(c.gens[i]), "C06 number of bits")
               \cup F(\A i \in DOMAIN pop : Len(I(pop[i]).g) = GenoLen(c), "C06 genotype length")
          ELSE {})

(* C23: an evaluation in which the user's function raised: nothing but results of single members may have been added, *)
(* and the run's record is the one of the last completed generation                                                *)
AbortFails(K, c, I(_), st, e) ==
    IF "C23" \notin K THEN {} ELSE
    LET done(x) == ~UnEvaluated(I(x))
        old == SelectSeq(e.pre, done)
        core(x) == IF c.algo = "ffga" THEN <<I(x).g, I(x).p, I(x).o, I(x).f>> ELSE <<I(x).g, I(x).p, I(x).o, I(x).f, I(x).s>>
        genes(s) == [i \in 1..Len(s) |-> I(s[i]).g]
        cores(s) == [i \in 1..Len(s) |-> core(s[i])]
    IN F(BagEq(genes(e.pre), genes(e.pop)), "C23 genotypes changed by a failed evaluation")
       \cup F(SubBag(cores(old), cores(e.pop)), "C23 a carried-over individual was changed by a failed evaluation")
       \cup F(IsBinary(c) => \A i \in DOMAIN e.pop : LET x == I(e.pop[i]) IN
                               Len(x.g) = GenoLen(c) /\ (x.p = <<>> \/ x.p = Decode(c, x.g)), "C23 decoded values changed by a failed evaluation")
       \cup F(\A i \in DOMAIN e.pop : LET x == I(e.pop[i]) IN Len(x.s) = 0 \/ (Len(x.v) = Len(c.cond) /\ x.o = OptValues(c, x.v)),
              "C23 results of a failed evaluation")
       \cup F(e.ig = st.gen /\ e.ni = st.ni, "C23 counters changed by a failed evaluation")
       \cup (IF c.M > 1 THEN F(BagEq(e.front, st.front) /\ e.hist = st.hist, "C23 reported sets changed by a failed evaluation")
             ELSE F(e.hb = st.hb /\ e.hm = st.hm /\ e.hw = st.hw, "C23 histories changed by a failed evaluation")
                  \cup F(e.best = st.best /\ e.big = st.big, "C23 best solution changed by a failed evaluation"))

(* C24: a printed report, read back: one report of the state reached, or none where none was asked for *)
ReportFails(K, c, I(_), st, e) ==
    IF "C24" \notin K THEN {} ELSE
    IF c.print = 0 THEN F(e.silent = 1, "C24 something was printed") ELSE
    F(e.n = 1, "C24 not exactly one report")
    \cup F(e.ig = st.gen - 1, "C24 printed index of the last generation")
    \cup F(e.big = st.big, "C24 printed generation of the best solution")
    \cup (IF c.M > 1
          THEN F(/\ Len(e.front) = Len(st.front)
                 /\ \A i \in DOMAIN e.front : e.front[i] # 0
                 /\ LET PO(s) == [i \in 1..Len(s) |-> <<I(s[i]).p, I(s[i]).o>>] IN BagEq(PO(e.front), PO(st.front)), "C24 printed set")
          ELSE F(e.ind = st.best, "C24 printed best solution"))

(* evaluation: pre -> pop, gen generations completed before, bf: best solution so far feasible, *)
(* calls: the arguments the user's function was called with                                     *)
FitFails(K, c, I(_), pre, pop, gen, bf, calls, dok, rk) ==
    LET old == SelectSeq(pre, LAMBDA x : ~UnEvaluated(I(x)))
        neu == SelectSeq(pre, LAMBDA x : UnEvaluated(I(x)))
        \* positions of pop holding newly evaluated individuals
        fresh == {i \in DOMAIN pop : Cardinality({j \in 1..i : pop[j] = pop[i]}) > Count(old, pop[i])}
        fr == SelectIdx(pop, fresh, 1)
        multi == c.M > 1
        okv(x) == Len(x.v) = Len(c.cond)
        vs == [i \in 1..Len(pop) |-> I(pop[i]).v]
        pen(x) == Penalty(c, x.v, gen, bf)
        dec(x) == Decidable(c, x.v, gen)
        expect(x, k) == IF c.algo = "ffga" THEN <<1, 1>> ELSE Score(c, k, x.o[k], pen(x))
    IN
    WellFormedFails(K, c, I, pop)
    \cup (IF "C06" \in K /\ IsBinary(c)
          THEN F(\A i \in DOMAIN pop : I(pop[i]).p # <<>>, "C06 not decoded") ELSE {})
    \cup (IF K \cap {"C03", "C18"} # {}
          THEN LET P == IF multi THEN "C18" ELSE "C03" IN
               IF P \notin K THEN {} ELSE
               F(\A i \in DOMAIN pop : okv(I(pop[i])) /\ I(pop[i]).o = OptValues(c, I(pop[i]).v),
                 P \o " objective value is not the function's value for these genes")
               \cup F(dok = 1, P \o " input data not passed")
               \cup (IF c.algo = "ffga"
                     THEN F(\A i \in DOMAIN pop : I(pop[i]).q = <<Norm(1, 1 + ParetoRank(vs, i))>>,
                            P \o " FFGA score is not 1/(1+rank)")
                     ELSE F(\A i \in DOMAIN pop : Len(I(pop[i]).s) = c.M, P \o " one score per objective")
                          \cup (IF c.num = 1
                                THEN F(\A i \in fresh : LET x == I(pop[i]) IN
                                         Len(x.q) = c.M /\ Len(x.o) = c.M /\ okv(x)
                                         /\ dec(x) => \A k \in 1..c.M : SameScore(x.q[k], expect(x, k)),
                                       P \o " fitness score")
                                ELSE IF ~multi /\ c.pen = "none" /\ c.tgt = <<>>      \* values known by their order only
                                THEN F(\A i, j \in fresh : LET x == I(pop[i])  y == I(pop[j]) IN
                                         Len(x.o) = 1 /\ Len(y.o) = 1 /\ (x.o[1] < y.o[1] <=> x.s[1] > y.s[1]), P \o " order of the fitness scores")
                                ELSE {}))
               \cup (IF multi
                     THEN F(Len(rk) = Len(pop) /\ \A i \in DOMAIN pop : rk[i] = <<2 * ParetoRank(vs, i)>>,
                            P \o " Pareto rank") ELSE {})
          ELSE {})
    \cup (IF "C05" \in K /\ c.pen # "none"
          THEN F(\A i \in DOMAIN pop : LET x == I(pop[i]) IN okv(x) => (x.f = 1 <=> Feasible(c, x.v)), "C05 feasibility flag")
               \cup (IF c.algo # "ffga" /\ c.num = 1
                     THEN F(\A i \in fresh : LET x == I(pop[i]) IN
                              okv(x) /\ Len(x.q) = c.M /\ Len(x.o) = c.M
                              /\ dec(x) => \A k \in 1..c.M : SameScore(x.q[k], expect(x, k)), "C05 penalty in the fitness score")
                     ELSE {})
          ELSE {})
    \cup (IF "C04" \in K /\ ~multi
          THEN F(Len(pop) = Len(pre) /\ SubBag(old, pop), "C04 a carried-over individual was changed or lost")
               \cup F(BagEq(calls, [i \in 1..Len(fr) |-> I(fr[i]).a]), "C04 not exactly one call per new individual")
               \cup F(BagEq([i \in 1..Len(fr) |-> I(fr[i]).g], [i \in 1..Len(neu) |-> I(neu[i]).g]),
                      "C04 a new individual was replaced")
               \cup F(\A i \in DOMAIN pop : ~UnEvaluated(I(pop[i])), "C04 left without a score")
          ELSE {})

(* selection *)
(* an FFGA generation may be smaller than the tournament *)
TourSize(c, pop) == IF c.ts < Len(pop) THEN c.ts ELSE Len(pop) - 1
WinnerOK(c, I(_), pop, x, k) ==
    Cardinality({j \in DOMAIN pop : Len(I(pop[j]).s) >= k /\ I(pop[j]).s[k] <= I(x).s[k]}) >= TourSize(c, pop)
SelProp(c) == CASE c.sel = "tour" -> "C12" [] c.sel \in {"bal", "rank"} -> "C13" [] OTHER -> "C20"
SelFails(K, c, I(_), pre, pop, par, alias) ==
    LET P == SelProp(c)
        q == Pairs(c)
        same(a, b) == I(a).g = I(b).g /\ I(a).s = I(b).s /\ I(a).o = I(b).o /\ I(a).f = I(b).f /\ I(a).p = I(b).p
    IN
    WellFormedFails(K, c, I, par)
    \cup (IF P \in K
          THEN F(Len(par) = 2 * NumPairs(c), P \o " number of pairs")
               \cup F(BagEq(pre, pop), P \o " population altered by selection")
               \cup F(Range(par) \subseteq Range(pre), P \o " parent is not an unaltered copy of a member")
               \cup F(\A i \in 1..(Len(par) \div 2) : par[2 * i - 1] # par[2 * i] \/ Count(pre, par[2 * i]) > 1,
                      P \o " pair made of one member")
               \cup F(alias = 0, P \o " parents are not independent copies")
               \cup (IF c.sel = "tour"
                     THEN F(\A i \in DOMAIN par : WinnerOK(c, I, pre, par[i], 1), P \o " not a tournament winner") ELSE {})
               \cup (IF c.sel = "vtour" /\ q > 0
                     THEN F(\A i \in DOMAIN par : LET k == ((i - 1) \div (2 * q)) + 1
                                                  IN k <= c.M /\ WinnerOK(c, I, pre, par[i], k),
                            P \o " not a tournament winner of its objective") ELSE {})
          ELSE {})
    \cup (IF "C14" \in K /\ c.algo # "ffga" THEN F(Len(par) = 2 * NumPairs(c), "C14 number of selected pairs") ELSE {})
    \cup (IF "C17" \in K THEN F(alias = 0, "C17 parents share data with the population") ELSE {})

CrossFails(K, c, I(_), pre, pop, prepar, par, kid, alias) ==
    WellFormedFails(K, c, I, kid)
    \cup (IF "C09" \in K
          THEN F(2 * Len(kid) = Len(prepar), "C09 one child per pair")
               \cup F(prepar = par, "C09 parents changed")
               \cup F(BagEq(pre, pop), "C09 population changed")
               \cup (IF 2 * Len(kid) = Len(prepar)
                     THEN F(\A i \in DOMAIN kid : IsChild(c.cross, I(prepar[2 * i - 1]).g, I(prepar[2 * i]).g, I(kid[i]).g),
                            "C09 not a child of its pair")
                          \cup F(\A i \in DOMAIN kid : UnEvaluated(I(kid[i])), "C09 child inherits a score")
                     ELSE {})
          ELSE {})
    \cup (IF "C17" \in K THEN F(alias = 0, "C17 children share data with parents or population") ELSE {})

MutFails(K, c, I(_), pre, pop, prepar, par, prekid, kid) ==
    WellFormedFails(K, c, I, kid)
    \cup (IF "C10" \in K
          THEN F(Len(kid) = Len(prekid), "C10 number of children")
               \cup F(prepar = par, "C10 parents changed")
               \cup F(BagEq(pre, pop), "C10 population changed")
               \cup (IF Len(kid) = Len(prekid)
                     THEN F(\A i \in DOMAIN kid : IsMutant(c, I(prekid[i]).g, I(kid[i]).g), "C10 not a documented mutation")
                          \cup F(\A i \in DOMAIN kid : UnEvaluated(I(kid[i])), "C10 mutated child has a score")
                     ELSE {})
          ELSE {})
    \cup (IF "C11" \in K /\ Len(kid) = Len(prekid)
          THEN (IF c.lvl = 0 THEN F(\A i \in DOMAIN kid : I(kid[i]).g = I(prekid[i]).g, "C11 level 0 mutated") ELSE {})
               \cup (IF c.lvl = 1000 THEN F(\A i \in DOMAIN kid : Changed(c, I(prekid[i]).g, I(kid[i]).g),
                                            "C11 level 1 left a gene or child unmutated") ELSE {})
          ELSE {})
    \cup (IF "C10" \in K /\ c.lvl = 1000 /\ Len(kid) = Len(prekid)
          THEN F(\A i \in DOMAIN kid : Changed(c, I(prekid[i]).g, I(kid[i]).g), "C10 mutated child is unchanged") ELSE {})

(* new generation: pre, kids -> pop *)
NewFails(K, c, I(_), pre, prekid, pop) ==
    LET \* what is in pop beyond the children
        isKid(i) == UnEvaluated(I(pop[i]))
        moved == SelectSeq(pop, LAMBDA x : ~UnEvaluated(I(x)))
        S(x) == I(x).s[1]
        best == {i \in DOMAIN pre : \A j \in DOMAIN pre : S(pre[j]) <= S(pre[i])}
        t == Transfers(c)
        sc == [i \in 1..Len(pre) |-> S(pre[i])]
        th == Kth(sc, Len(pre) - t)                 \* score of the t-th best
        top == SelectSeq(pre, LAMBDA x : S(x) >= th)
        distinct == Cardinality({I(top[i]).g : i \in DOMAIN top}) = Len(top)
        evaluated == \A i \in DOMAIN pre : Len(I(pre[i]).s) >= 1
        vs == [i \in 1..Len(pre) |-> I(pre[i]).v]
    IN
    WellFormedFails(K, c, I, pop)
    \cup (IF "C02" \in K /\ c.M = 1 /\ evaluated
          THEN F(\E i \in best : pre[i] \in Range(pop), "C02 the best individual was lost")
               \cup F(Range(moved) \subseteq Range(pre), "C02 a transferred parent is not a member of the previous generation")
               \cup F(SubBag(SelectSeq(pop, LAMBDA x : UnEvaluated(I(x))), prekid), "C02 neither child nor parent")
               \cup (IF c.tp = "best" /\ t >= 1 /\ t <= Len(pre) /\ distinct
                     THEN F(Len(moved) = t /\ \A i \in DOMAIN moved : S(moved[i]) >= th, "C02 a transferred parent is not among the best")
                          \cup F(\A i \in DOMAIN pre : S(pre[i]) > th => pre[i] \in Range(moved), "C02 a better parent was not transferred")
                     ELSE {})
          ELSE {})
    \cup (IF "C04" \in K /\ c.M = 1
          THEN F(/\ Range(moved) \subseteq Range(pre)
                 /\ SubBag(SelectSeq(pop, LAMBDA x : UnEvaluated(I(x))), prekid), "C04 a carried-over individual lost or changed its results") ELSE {})
    \cup (IF "C14" \in K /\ c.algo # "ffga"
          THEN F(Len(pop) = c.N + 1, "C14 size of the new generation")
               \cup F(SubBag(prekid, pop) /\ Len(prekid) = NumPairs(c) /\ Len(SelectSeq(pop, LAMBDA x : UnEvaluated(I(x)))) = NumPairs(c),
                      "C14 number of children in the new generation")
          ELSE {})
    \cup (IF "C14" \in K /\ c.algo = "ffga"
          THEN F(SubBag(prekid, pop), "C14 children lost") ELSE {})
    \cup (IF "C20" \in K /\ c.algo = "vega" /\ evaluated
          THEN F(\E i \in best : pre[i] \in Range(pop), "C20 the best member under the first objective was lost") ELSE {})
    \cup (IF "C19" \in K /\ c.algo = "ffga" /\ c.tp = "best"
          THEN F(\A i \in Front(vs) : pre[i] \in Range(pop), "C19 a non-dominated individual was not carried over") ELSE {})

----------------------------------------------------------------------------
(* bookkeeping, single objective: st is the state before, e the recorded state after the update *)
UpdFails(K, c, I(_), st, pop, e) ==
    LET sc == [i \in 1..Len(pop) |-> I(pop[i]).s[1]]
        ok == Len(pop) > 0 /\ \A i \in DOMAIN pop : Len(I(pop[i]).s) >= 1
        mx == SetMax(Range(sc))
        first == st.gen = 0
        better == first \/ mx > st.mx
    IN
    IF ~ok THEN {"C01 C15 update before evaluation"}
    ELSE
    (IF "C01" \in K
     THEN (IF better
           THEN F(e.best \in Range(pop) /\ I(e.best).s = <<mx>>, "C01 best solution is not the best evaluated individual")
                \cup F(e.big = st.gen, "C01 generation index of the best solution")
           ELSE F(e.best = st.best, "C01 best solution replaced without improvement")
                \cup F(e.big = st.big, "C01 generation index changed without improvement"))
          \cup F(e.refs = st.refs, "C01 a best solution already read was altered")
     ELSE {})
    \cup (IF "C15" \in K
          THEN F(e.hb = Append(st.hb, mx), "C15 history of best scores")
               \cup F(Len(e.hm) = Len(st.hm) + 1 /\ SubSeq(e.hm, 1, Len(st.hm)) = st.hm
                      /\ IsKth(sc, Len(sc) \div 2, e.hm[Len(e.hm)]), "C15 history of middle scores")
               \cup F(e.hw = Append(st.hw, SetMin(Range(sc))), "C15 history of worst scores")
               \cup F(e.ni = (IF better THEN 0 ELSE st.ni + 1), "C15 no-improvement counter")
               \cup F(e.ig = st.gen + 1, "C15 generation counter")
          ELSE {})
    \cup (IF "C02" \in K /\ c.M = 1
          THEN F(Len(e.hb) < 2 \/ e.hb[Len(e.hb)] >= e.hb[Len(e.hb) - 1], "C02 the best score decreased") ELSE {})
    \cup (IF "C03" \in K /\ c.num = 1 /\ c.pen = "none" /\ Len(I(e.best).v) = 1
          THEN F(\A i \in DOMAIN pop : LET d(x) == IF Len(c.tgt) = 1 THEN Abs(c.tgt[1] - x.v[1]) ELSE x.v[1]
                                       IN Len(I(pop[i]).v) = 1 => d(I(e.best)) <= d(I(pop[i])),
                 "C03 a better score does not mean a better individual") ELSE {})

(* multi objective *)
MUpdFails(K, c, I(_), st, pop, e) ==
    LET vs == [i \in 1..Len(pop) |-> I(pop[i]).v]
        fr == SelectIdx(pop, Front(vs), 1)
        changed == st.gen = 0 \/ Range(e.front) # Range(st.front)
    IN
    IF "C19" \notin K THEN {}
    ELSE F(BagEq(e.front, fr), "C19 reported set is not the non-dominated set")
         \cup F(\A i \in DOMAIN e.frk : e.frk[i] = <<2>>, "C19 reported individual with another rank")
         \cup F(Len(e.hist) = st.gen + 1 /\ SubSeq(e.hist, 1, st.gen) = st.hist, "C19 earlier history entries changed")
         \cup F(Len(e.hist) > 0 /\ BagEq(e.hist[Len(e.hist)], fr), "C19 history entry of this generation")
         \cup (IF changed THEN F(e.ni = 0 /\ e.big = st.gen, "C19 counter or index after a change of the set")
               ELSE F(e.ni \in {0, st.ni + 1}, "C19 no-improvement counter"))
         \cup F(e.ig = st.gen + 1, "C19 generation counter")
         \* consequence of carrying the front over: no reported point is ever lost without being covered
         \cup (IF c.algo = "ffga" /\ c.tp = "best"
               THEN F(\A i \in DOMAIN st.front : \E j \in DOMAIN fr :
                        I(fr[j]).v = I(st.front[i]).v \/ Dominates(I(fr[j]).v, I(st.front[i]).v),
                      "C19 the reported set got worse") ELSE {})

(* st.gen generations completed, counter st.ni: may another generation follow / may the run end here *)
MayContinue(c, st) == st.gen < c.G /\ st.ni <= c.es
MayStop(c, st) == st.gen = c.G \/ st.ni > c.es

----------------------------------------------------------------------------
(* C22: which configurations are valid *)
LevelOK(x) == \/ (x.t = "name" /\ x.v \in {"weak", "normal", "strong"})
              \/ (x.t = "float" /\ x.n >= 0 /\ x.n <= 1000)
ConfigOK(x) ==
    /\ LevelOK(x.lvl)
    /\ x.tp \in {"best", "random"}
    /\ x.sel \in {"tour", "vtour"} => (x.ts >= 2 /\ x.ts < x.N)
    /\ x.ninp <= x.N
    /\ x.inputs = "ok"
    /\ x.pen \in {"none", "dyn", "ada", "sta"}
    /\ x.pen = "ada" => (x.b1 > 10 /\ x.b2 > 10 /\ x.b1 # x.b2)
    /\ x.pen = "sta" => x.tables = "equal"
    /\ x.signs = "known"
    /\ (IF x.form = "scalar" THEN 1 ELSE x.values) = x.expected
=============================================================================
