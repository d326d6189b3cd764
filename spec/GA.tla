--------------------------------- MODULE GA ---------------------------------
(***************************************************************************)
(* The single-objective optimisation as a state machine: one action per    *)
(* operator call of the library's main loop.  Every choice the library     *)
(* makes at random is a nondeterministic choice here, so TLC explores all  *)
(* draws of a small instance.  Scenarios (which operators, how many        *)
(* individuals, objective, constraints ...) are chosen in the initial      *)
(* state from the set given by the configuration file.                     *)
(***************************************************************************)
EXTENDS GAOps, TLC

CONSTANTS Scn,     \* set of scenario numbers
          MaxG,    \* bound on the number of generations
          AllK     \* properties whose clauses are compared with the machine's steps

VARIABLES cf, ph, gen, pop, par, kid, best, big, hb, hm, hw, ni,
          mx,     \* ghost: highest score of all individuals evaluated so far
          nev     \* ghost: number of evaluations so far
vars == <<cf, ph, gen, pop, par, kid, best, big, hb, hm, hw, ni, mx, nev>>

----------------------------------------------------------------------------
Base == [kind |-> "bin", algo |-> "so", gens |-> <<[ln |-> 0, hn |-> 7, sn |-> 1, nb |-> 3]>>, N |-> 3, G |-> 3,
         cn |-> 1, cd |-> 3, ts |-> 2, sel |-> "tour", cross |-> "one", mut |-> "bit", lvl |-> -1, tp |-> "best",
         es |-> 3, M |-> 1, cond |-> <<"opt">>, pen |-> "none", pp |-> [none |-> 0], tgt |-> <<2>>, num |-> 1, vd |-> 1,
         inputs |-> <<>>, fn |-> "id", sd |-> 1]
Dyn == [d |-> 1, cn |-> 1, cd |-> 2, al |-> 2, be |-> 2]
Ada == [d |-> 1, b1n |-> 2, b1d |-> 1, b2n |-> 3, b2d |-> 1, be |-> 1]
Sta == [tab |-> <<[cuts |-> <<2>>, r |-> <<1, 3>>]>>]
Scenarios == <<
    Base,                                                                                              \* 1
    [Base EXCEPT !.tp = "random", !.tgt = <<>>, !.es = 0],                                             \* 2
    [Base EXCEPT !.kind = "gray", !.cross = "two", !.fn = "mod"],                   \* 3
    [Base EXCEPT !.kind = "cat", !.gens = <<[n |-> 2], [n |-> 3], [n |-> 1]>>, !.cross = "uni", !.mut = "cat",
                 !.fn = "wsum", !.sel = "bal", !.es = 1],                                              \* 4
    [Base EXCEPT !.kind = "ord", !.gens = <<[lo |-> 1, hi |-> 3, n |-> 3]>>, !.cross = "order", !.mut = "swap",
                 !.fn = "wsum", !.tgt = <<>>, !.sel = "rank", !.G = 4],                                \* 5
    [Base EXCEPT !.kind = "ord", !.gens = <<[lo |-> 0, hi |-> 3, n |-> 3]>>, !.cross = "order", !.mut = "move",
                 !.fn = "wsum", !.es = 0, !.lvl = 1000],                                               \* 6
    [Base EXCEPT !.kind = "ord", !.gens = <<[lo |-> 1, hi |-> 3, n |-> 3]>>, !.cross = "order", !.mut = "inv",
                 !.fn = "wsum", !.es = 0, !.tp = "random", !.cn = 2],                                  \* 7
    [Base EXCEPT !.kind = "ord", !.gens = <<[lo |-> 1, hi |-> 3, n |-> 3]>>, !.cross = "order", !.mut = "shift",
                 !.fn = "wsum", !.N = 2, !.cn = 2, !.cd = 2, !.sel = "rank"],                                               \* 8
    [Base EXCEPT !.cond = <<"le", "opt">>, !.pen = "dyn", !.pp = Dyn, !.fn = "le", !.sd = 4, !.lvl = 0],  \* 9
    [Base EXCEPT !.cond = <<"opt", "eq">>, !.pen = "ada", !.pp = Ada, !.fn = "eq", !.sd = 2, !.lvl = 0, !.tgt = <<>>], \* 10
    [Base EXCEPT !.cond = <<"opt", "le">>, !.pen = "sta", !.pp = Sta, !.fn = "le2", !.lvl = 0],        \* 11
    [Base EXCEPT !.inputs = <<<<3400>>, <<1500>>>>, !.fn = "const", !.es = 1], \* 12
    [Base EXCEPT !.N = 4, !.cn = 1, !.cd = 2, !.ts = 3, !.lvl = 0, !.G = 2],                           \* 13
    [Base EXCEPT !.kind = "ord", !.gens = <<[lo |-> 1, hi |-> 3, n |-> 3]>>, !.cross = "order", !.mut = "swap",
                 !.fn = "wsum", !.N = 3, !.cn = 1, !.cd = 3, !.G = 6, !.es = 2, !.lvl = 0] >>          \* 14

(* the user's function, on the genotype of the scenario *)
FnValues(c, g) ==
    LET x == IF IsBinary(c) THEN Decode(c, g)[1] ELSE 0
        w == SumSeq([i \in 1..Len(g) |-> i * g[i]])
    IN CASE c.fn = "id" -> <<x>>
         [] c.fn = "mod" -> <<x % 3>>
         [] c.fn = "const" -> <<1>>
         [] c.fn = "wsum" -> <<w>>
         [] c.fn = "le" -> <<(x % 4) - 1, x \div 2>>
         [] c.fn = "le2" -> <<x \div 2, (x % 4) - 1>>
         [] c.fn = "eq" -> <<x \div 2, (x % 3) - 1>>

Genotypes(c) == IF IsBinary(c) THEN [1..GenoLen(c) -> {0, 1}]
                ELSE IF c.kind = "cat" THEN {g \in [1..Len(c.gens) -> 0..2] : InDomain(c, g)}
                ELSE {g \in [1..c.gens[1].n -> c.gens[1].lo..c.gens[1].hi] : InDomain(c, g)}
Fresh(c, g) == [g |-> g, p |-> <<>>, s |-> <<>>, q |-> <<>>, o |-> <<>>, v |-> FnValues(c, g), f |-> 1, a |-> g]
Filled(c, g) == [Fresh(c, g) EXCEPT !.p = IF IsBinary(c) THEN Decode(c, g) ELSE <<>>]

(* order preserving integer of a score: minus the scaled distance or value, penalty included *)
ScoreKey(c, y, pen) == LET w == (pen[1] * c.sd) \div pen[2]
                       IN IF c.tgt = <<>> THEN -(y * c.sd + w) ELSE -(Abs(c.tgt[1] - y) * c.sd + w)
Evaluated(c, x, n, bf) ==
    IF x.s # <<>> THEN x
    ELSE LET y == OptValues(c, x.v)
             pen == Penalty(c, x.v, n, bf)
         IN [x EXCEPT !.p = IF IsBinary(c) THEN Decode(c, x.g) ELSE <<>>,
                      !.o = y, !.q = <<Score(c, 1, y[1], pen)>>, !.s = <<ScoreKey(c, y[1], pen)>>,
                      !.f = IF Feasible(c, x.v) THEN 1 ELSE 0]

Id(x) == x
NoBest == [g |-> <<>>, p |-> <<>>, s |-> <<>>, q |-> <<>>, o |-> <<>>, v |-> <<>>, f |-> 1, a |-> <<>>]
BestFeasible == best.f = 1

----------------------------------------------------------------------------
Init == /\ cf \in {[Scenarios[i] EXCEPT !.G = IF @ > MaxG THEN MaxG ELSE @] : i \in Scn}
        /\ ph = "fill" /\ gen = 0 /\ pop = <<>> /\ par = <<>> /\ kid = <<>> /\ best = NoBest /\ big = 0
        /\ hb = <<>> /\ hm = <<>> /\ hw = <<>> /\ ni = 0 /\ mx = 0 /\ nev = 0

Keep == UNCHANGED <<cf, gen, best, big, hb, hm, hw, ni, mx, nev>>

Fill == /\ ph = "fill" /\ ph' = "fit"
        /\ \E gs \in [1..cf.N -> Genotypes(cf)] :
             /\ \A i \in DOMAIN cf.inputs : Abs(cf.inputs[i][1][2] * Decode(cf, gs[i])[1] - cf.inputs[i][1][1]) <= cf.inputs[i][1][2] \div 2 + 1
             \* the order of the random individuals is immaterial: keep one order of each
             /\ \A i \in (Len(cf.inputs) + 1)..(cf.N - 1) : FnValues(cf, gs[i])[1] <= FnValues(cf, gs[i + 1])[1]
             /\ pop' = [i \in 1..cf.N |-> Filled(cf, gs[i])]
        /\ Keep /\ UNCHANGED <<par, kid>>

Fit == /\ ph = "fit" /\ ph' = "upd"
       /\ pop' = [i \in 1..Len(pop) |-> Evaluated(cf, pop[i], gen, BestFeasible)]
       /\ nev' = nev + Cardinality({i \in DOMAIN pop : pop[i].s = <<>>})
       /\ LET m == SetMax({pop'[i].s[1] : i \in DOMAIN pop}) IN mx' = IF nev = 0 THEN m ELSE Max2(mx, m)
       /\ UNCHANGED <<cf, gen, par, kid, best, big, hb, hm, hw, ni>>

Scores == [i \in 1..Len(pop) |-> pop[i].s[1]]
Upd == /\ ph = "upd" /\ ph' = "loop" /\ gen' = gen + 1
       /\ LET m == SetMax(Range(Scores)) IN
          /\ hb' = Append(hb, m) /\ hw' = Append(hw, SetMin(Range(Scores)))
          /\ hm' = Append(hm, Kth(Scores, Len(Scores) \div 2))
          /\ IF gen = 0 \/ m > best.s[1]
             THEN \E i \in DOMAIN pop : pop[i].s[1] = m /\ best' = pop[i] /\ big' = gen /\ ni' = 0
             ELSE best' = best /\ big' = big /\ ni' = ni + 1
       /\ UNCHANGED <<cf, pop, par, kid, mx, nev>>

Bk == [gen |-> gen, ni |-> ni]
Done == ph = "loop" /\ MayStop(cf, Bk) /\ ph' = "done" /\ UNCHANGED <<pop, par, kid>> /\ Keep

(* tournament: the winner of a tournament of size ts without repetition; otherwise any member *)
CanWin(i) == cf.sel # "tour" \/ WinnerOK(cf, Id, pop, pop[i], 1)
PairIdx == {ij \in (1..Len(pop)) \X (1..Len(pop)) : ij[1] # ij[2] /\ CanWin(ij[1]) /\ CanWin(ij[2])}
Sel == /\ ph = "loop" /\ MayContinue(cf, Bk) /\ ph' = "cross"
       /\ \E f \in [1..Pairs(cf) -> PairIdx] :
            par' = [k \in 1..(2 * Pairs(cf)) |-> pop[f[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]]
       /\ UNCHANGED <<pop, kid>> /\ Keep

Cross == /\ ph = "cross" /\ ph' = "mut"
         /\ \E gs \in [1..Pairs(cf) -> UNION {CrossChildren(cf.cross, par[2 * i - 1].g, par[2 * i].g) : i \in 1..Pairs(cf)}] :
              /\ \A i \in DOMAIN gs : IsChild(cf.cross, par[2 * i - 1].g, par[2 * i].g, gs[i])
              /\ kid' = [i \in 1..Pairs(cf) |-> Fresh(cf, gs[i])]
         /\ UNCHANGED <<pop, par>> /\ Keep

Mutants(x) == {y \in Genotypes(cf) : /\ IsMutant(cf, x, y)
                                     /\ (cf.lvl = 0 => y = x)
                                     /\ (cf.lvl = 1000 => Changed(cf, x, y))}
Mut == /\ ph = "mut" /\ ph' = "new"
       /\ \E gs \in [1..Len(kid) -> UNION {Mutants(kid[i].g) : i \in DOMAIN kid}] :
            /\ \A i \in DOMAIN gs : gs[i] \in Mutants(kid[i].g)
            /\ kid' = [i \in 1..Len(kid) |-> Fresh(cf, gs[i])]
       /\ UNCHANGED <<pop, par>> /\ Keep

(* transferred parents: the best strategy replaces duplicates by arbitrary members *)
New == /\ ph = "new" /\ ph' = "fit"
       /\ LET t == Transfers(cf)
              th == Kth(Scores, Len(pop) - t)
              top == {i \in DOMAIN pop : Scores[i] >= th}
              distinct == Cardinality({pop[i].g : i \in top}) = Cardinality(top)
              bestIdx == {i \in DOMAIN pop : Scores[i] = SetMax(Range(Scores))}
          IN \E f \in [1..t -> DOMAIN pop] :
               /\ f[t] \in bestIdx
               /\ \A i \in 1..(t - 2) : f[i] <= f[i + 1]
               /\ (cf.tp = "random" => Pairwise(f))
               /\ (cf.tp = "best" /\ distinct =>
                     /\ Pairwise(f) /\ \A i \in 1..t : f[i] \in top
                     /\ \A i \in DOMAIN pop : Scores[i] > th => \E k \in 1..t : f[k] = i)
               /\ pop' = kid \o [i \in 1..t |-> pop[f[i]]]
       /\ par' = <<>> /\ kid' = <<>> /\ Keep

Next == Fill \/ Fit \/ Upd \/ Done \/ Sel \/ Cross \/ Mut \/ New
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

----------------------------------------------------------------------------
(* system properties *)
Complete == ph \in {"loop", "done"}
(* C01 *)
BestIsBest == Complete => /\ best.s = <<mx>>
                          /\ best.o = OptValues(cf, FnValues(cf, best.g))
                          /\ (best.f = 1 <=> Feasible(cf, best.v))
                          /\ big < gen /\ hb[big + 1] = mx
                          /\ \A k \in 1..big : hb[k] < mx
(* C02 *)
HistoryMonotone == \A i \in 1..(Len(hb) - 1) : hb[i] <= hb[i + 1]
Elitism == [][ph = "new" => \E i \in DOMAIN pop' : pop'[i].s = <<SetMax(Range(Scores))>> /\ pop'[i] \in Range(pop)]_vars
(* C03 *)
ValuesAreOwn == \A i \in DOMAIN pop : pop[i].s # <<>> => pop[i].o = OptValues(cf, FnValues(cf, pop[i].g))
ScoreOrder == cf.pen = "none" => \A i, j \in DOMAIN pop :
    (pop[i].s # <<>> /\ pop[j].s # <<>>) =>
      LET a == pop[i].q[1]  b == pop[j].q[1] IN (pop[i].s[1] < pop[j].s[1] <=> a[1] * b[2] < b[1] * a[2])
(* C04 *)
EvalOnce == ph \in {"upd", "loop", "done"} => nev = cf.N + (IF ph = "upd" THEN gen ELSE gen - 1) * Pairs(cf)
(* C05 *)
FeasibleUnpenalised == \A i \in DOMAIN pop : pop[i].s # <<>> /\ Feasible(cf, pop[i].v) =>
                          pop[i].q = <<Score(cf, 1, pop[i].o[1], <<0, 1>>)>>
(* C06 *)
Decoded == \A i \in DOMAIN pop : IsBinary(cf) /\ pop[i].s # <<>> => pop[i].p = Decode(cf, pop[i].g)
(* C08 *)
Closed == \A x \in Range(pop) \cup Range(par) \cup Range(kid) : InDomain(cf, x.g)
(* C14 *)
Sizes == ph \in {"upd", "loop", "done"} => Len(pop) = (IF (IF ph = "upd" THEN gen ELSE gen - 1) = 0 THEN cf.N ELSE cf.N + 1)
(* C15 *)
Histories == Complete => Len(hb) = gen /\ Len(hm) = gen /\ Len(hw) = gen /\ \A k \in 1..gen : hw[k] <= hm[k] /\ hm[k] <= hb[k]
Counter == Complete => ni = gen - 1 - big
Stops == /\ gen <= cf.G
         /\ (ph = "done" => gen = cf.G \/ ni = cf.es + 1)
         /\ (ph \in {"cross", "mut", "new"} => ni <= cf.es)
Terminates == <>(ph = "done")

(* the clauses used on recorded traces accept every step of the machine *)
ClauseFails ==
    CASE ph = "fill" -> FillFails(AllK, cf, Id, pop')
      [] ph = "fit" -> FitFails(AllK, cf, Id, pop, pop', gen, BestFeasible,
                                LET x == SelectSeq(pop, LAMBDA y : y.s = <<>>) IN [i \in 1..Len(x) |-> x[i].a], 1, <<>>)
      [] ph = "upd" -> UpdFails(AllK, cf, Id, [gen |-> gen, mx |-> IF hb = <<>> THEN 0 ELSE best.s[1], best |-> best, big |-> big,
                                               refs |-> <<>>, hb |-> hb, hm |-> hm, hw |-> hw, ni |-> ni], pop,
                                [best |-> best', big |-> big', refs |-> <<>>, hb |-> hb', hm |-> hm', hw |-> hw',
                                 ni |-> ni', ig |-> gen'])
      [] ph = "loop" /\ ph' = "cross" -> SelFails(AllK, cf, Id, pop, pop', par', 0)
      [] ph = "cross" -> CrossFails(AllK, cf, Id, pop, pop', par, par', kid', 0)
      [] ph = "mut" -> MutFails(AllK, cf, Id, pop, pop', par, par', kid, kid')
      [] ph = "new" -> NewFails(AllK, cf, Id, pop, kid, pop')
      [] OTHER -> {}
ClausesAccept == [][ClauseFails = {}]_vars
=============================================================================
