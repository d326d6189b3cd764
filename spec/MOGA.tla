-------------------------------- MODULE MOGA --------------------------------
(***************************************************************************)
(* The multi-objective optimisations (VEGA and FFGA) as a state machine,   *)
(* one action per operator call of the main loop, all random draws         *)
(* nondeterministic.                                                       *)
(***************************************************************************)
EXTENDS GAOps, TLC

CONSTANTS Scn, MaxG, AllK

VARIABLES cf, ph, gen, pop, rk, par, kid, front, fgen, hist, ni
vars == <<cf, ph, gen, pop, rk, par, kid, front, fgen, hist, ni>>

Base == [kind |-> "bin", algo |-> "ffga", gens |-> <<[ln |-> 0, hn |-> 7, sn |-> 1, nb |-> 3]>>, N |-> 3, G |-> 3,
         cn |-> 1, cd |-> 3, ts |-> 2, sel |-> "bal", cross |-> "one", mut |-> "bit", lvl |-> 0, tp |-> "best",
         es |-> 3, M |-> 2, cond |-> <<"opt", "opt">>, pen |-> "none", pp |-> [none |-> 0], tgt |-> <<>>, num |-> 1, vd |-> 1,
         inputs |-> <<>>, fn |-> "two", sd |-> 1]
Dyn == [d |-> 1, cn |-> 1, cd |-> 1, al |-> 1, be |-> 1]
Scenarios == <<
    Base,                                                                                               \* 1
    [Base EXCEPT !.tp = "random", !.es = 0, !.fn = "tie"],                                              \* 2
    [Base EXCEPT !.sel = "tour", !.es = 1, !.lvl = 1000],                                               \* 3
    [Base EXCEPT !.algo = "vega", !.sel = "vtour", !.cn = 2],                                           \* 4
    [Base EXCEPT !.algo = "vega", !.sel = "vbal", !.cn = 2, !.tgt = <<1, 2>>, !.tp = "random", !.es = 0, !.lvl = 1000], \* 5
    [Base EXCEPT !.algo = "vega", !.sel = "vrank", !.cn = 2, !.fn = "tie", !.es = 1],                   \* 6
    [Base EXCEPT !.algo = "vega", !.sel = "vtour", !.cn = 2, !.cond = <<"opt", "le", "opt">>, !.pen = "dyn", !.pp = Dyn,
                 !.fn = "con"],                                                                         \* 7
    [Base EXCEPT !.cond = <<"opt", "opt", "opt">>, !.M = 3, !.fn = "three", !.lvl = 1000, !.sel = "rank"] >>  \* 8

FnValues(c, g) ==
    LET x == Decode(c, g)[1]
    IN CASE c.fn = "two" -> <<x \div 2, (7 - x) \div 3>>
         [] c.fn = "tie" -> <<x % 2, x \div 4>>
         [] c.fn = "con" -> <<x \div 2, (x % 3) - 1, (7 - x) \div 3>>
         [] c.fn = "three" -> <<x % 3, (x * x) % 5, (7 - x) \div 4>>

Genotypes(c) == [1..GenoLen(c) -> {0, 1}]
Fresh(c, g) == [g |-> g, p |-> <<>>, s |-> <<>>, q |-> <<>>, o |-> <<>>, v |-> FnValues(c, g), f |-> 1, a |-> g]
Id(x) == x
ScoreKey(c, k, y, pen) == LET w == (pen[1] * c.sd) \div pen[2]
                          IN IF c.tgt = <<>> THEN -(y * c.sd + w) ELSE -(Abs(c.tgt[k] - y) * c.sd + w)
Evaluated(c, x, n, rank) ==
    LET y == OptValues(c, x.v)
        pen == Penalty(c, x.v, n, TRUE)
        base == [x EXCEPT !.p = Decode(c, x.g), !.o = y, !.f = IF Feasible(c, x.v) THEN 1 ELSE 0]
    IN IF c.algo = "ffga" THEN [base EXCEPT !.s = <<-rank>>, !.q = <<Norm(1, 1 + rank)>>]
       ELSE IF x.s # <<>> THEN x
       ELSE [base EXCEPT !.s = [k \in 1..c.M |-> ScoreKey(c, k, y[k], pen)], !.q = [k \in 1..c.M |-> Score(c, k, y[k], pen)]]
Vs(P) == [i \in 1..Len(P) |-> P[i].v]

Init == /\ cf \in {[Scenarios[i] EXCEPT !.G = IF @ > MaxG THEN MaxG ELSE @] : i \in Scn}
        /\ ph = "fill" /\ gen = 0 /\ pop = <<>> /\ rk = <<>> /\ par = <<>> /\ kid = <<>> /\ front = <<>> /\ fgen = 0
        /\ hist = <<>> /\ ni = 0
Keep == UNCHANGED <<cf, gen, front, fgen, hist, ni>>

Fill == /\ ph = "fill" /\ ph' = "fit"
        /\ \E gs \in [1..cf.N -> Genotypes(cf)] :
             /\ \A i \in 1..(cf.N - 1) : BinValue(gs[i]) <= BinValue(gs[i + 1])
             /\ pop' = [i \in 1..cf.N |-> [Fresh(cf, gs[i]) EXCEPT !.p = Decode(cf, gs[i])]]
        /\ Keep /\ UNCHANGED <<par, kid, rk>>
Fit == /\ ph = "fit" /\ ph' = "upd"
       /\ LET vs == Vs(pop) IN
          /\ rk' = [i \in 1..Len(pop) |-> ParetoRank(vs, i)]
          /\ pop' = [i \in 1..Len(pop) |-> Evaluated(cf, pop[i], gen, ParetoRank(vs, i))]
       /\ Keep /\ UNCHANGED <<par, kid>>
Upd == /\ ph = "upd" /\ ph' = "loop" /\ gen' = gen + 1
       /\ front' = SelectIdx(pop, {i \in DOMAIN pop : rk[i] = 1}, 1)
       /\ hist' = Append(hist, front')
       /\ IF gen = 0 \/ Range(front') # Range(front) THEN ni' = 0 /\ fgen' = gen
          ELSE \/ (ni' = ni + 1 /\ fgen' = fgen)
               \/ (ni' = 0 /\ fgen' = gen)          \* bookkeeping fields of a member changed
       /\ UNCHANGED <<cf, pop, rk, par, kid>>
Bk == [gen |-> gen, ni |-> ni]
Done == ph = "loop" /\ MayStop(cf, Bk) /\ ph' = "done" /\ UNCHANGED <<pop, rk, par, kid>> /\ Keep

CanWin(i, k) == cf.sel \notin {"tour", "vtour"} \/ WinnerOK(cf, Id, pop, pop[i], k)
PairIdx(k) == {ij \in (1..Len(pop)) \X (1..Len(pop)) : ij[1] # ij[2] /\ CanWin(ij[1], k) /\ CanWin(ij[2], k)}
Sel == /\ ph = "loop" /\ MayContinue(cf, Bk) /\ ph' = "cross"
       /\ \E f \in [1..NumPairs(cf) -> (1..Len(pop)) \X (1..Len(pop))] :
            /\ \A n \in DOMAIN f : f[n] \in PairIdx(((n - 1) \div Pairs(cf)) + 1)
            /\ par' = [k \in 1..(2 * NumPairs(cf)) |-> pop[f[(k + 1) \div 2][IF k % 2 = 1 THEN 1 ELSE 2]]]
       /\ UNCHANGED <<pop, rk, kid>> /\ Keep
Cross == /\ ph = "cross" /\ ph' = "mut"
         /\ \E gs \in [1..NumPairs(cf) -> UNION {CrossChildren(cf.cross, par[2 * i - 1].g, par[2 * i].g) : i \in 1..NumPairs(cf)}] :
              /\ \A i \in DOMAIN gs : IsChild(cf.cross, par[2 * i - 1].g, par[2 * i].g, gs[i])
              /\ kid' = [i \in 1..NumPairs(cf) |-> Fresh(cf, gs[i])]
         /\ UNCHANGED <<pop, rk, par>> /\ Keep
Mutant(x) == IF cf.lvl = 0 THEN x ELSE [i \in 1..Len(x) |-> 1 - x[i]]
Mut == /\ ph = "mut" /\ ph' = "new"
       /\ kid' = [i \in 1..Len(kid) |-> Fresh(cf, Mutant(kid[i].g))]
       /\ UNCHANGED <<pop, rk, par>> /\ Keep

LexBest == {i \in DOMAIN pop : \A j \in DOMAIN pop : pop[j].s[1] <= pop[i].s[1]}
New == /\ ph = "new" /\ ph' = "fit"
       /\ IF cf.algo = "ffga"
          THEN IF cf.tp = "best" THEN pop' = kid \o front
               ELSE pop' = kid \o pop             \* samples all of a generation of at most eleven
          ELSE \E f \in [1..Transfers(cf) -> DOMAIN pop] :
                 /\ f[Transfers(cf)] \in LexBest
                 /\ \A i \in 1..(Transfers(cf) - 2) : f[i] <= f[i + 1]
                 /\ pop' = kid \o [i \in 1..Transfers(cf) |-> pop[f[i]]]
       /\ par' = <<>> /\ kid' = <<>> /\ rk' = <<>> /\ Keep

Next == Fill \/ Fit \/ Upd \/ Done \/ Sel \/ Cross \/ Mut \/ New
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----------------------------------------------------------------------------
Complete == ph \in {"loop", "done"}
(* C18 *)
RankOne == rk # <<>> => \E i \in DOMAIN rk : rk[i] = 1
RankMonotone == rk # <<>> => \A i, j \in DOMAIN pop : Dominates(pop[i].v, pop[j].v) => rk[i] < rk[j]
ScoreByRank == cf.algo = "ffga" /\ rk # <<>> /\ ph # "fit" => \A i \in DOMAIN pop : pop[i].q = <<Norm(1, 1 + rk[i])>>
OwnValues == \A i \in DOMAIN pop : pop[i].s # <<>> => pop[i].o = OptValues(cf, FnValues(cf, pop[i].g))
(* C19 *)
FrontIsFront == Complete => /\ Range(front) = {pop[i] : i \in Front(Vs(pop))}
                            /\ \A x, y \in Range(front) : ~Dominates(x.v, y.v)
                            /\ Len(hist) = gen /\ hist[gen] = front
FrontImproves == Complete /\ cf.algo = "ffga" /\ cf.tp = "best" =>
    \A k \in 1..(gen - 1) : \A x \in Range(hist[k]) : \E y \in Range(front) : y.v = x.v \/ Dominates(y.v, x.v)
CounterBounds == Complete => ni <= gen - 1 - fgen
Stops == gen <= cf.G /\ (ph = "done" => gen = cf.G \/ ni = cf.es + 1) /\ (ph \in {"cross", "mut", "new"} => ni <= cf.es)
(* C14, C20 *)
VegaSizes == cf.algo = "vega" /\ ph \in {"upd", "loop", "done"} =>
    Len(pop) = (IF (IF ph = "upd" THEN gen ELSE gen - 1) = 0 THEN cf.N ELSE cf.N + 1)
VegaBest == [][ph = "new" /\ cf.algo = "vega" =>
                 \E i \in DOMAIN pop' : pop'[i].s # <<>> /\ pop'[i].s[1] = SetMax({pop[j].s[1] : j \in DOMAIN pop})]_vars
Terminates == <>(ph = "done")

ClauseFails ==
    CASE ph = "fill" -> FillFails(AllK, cf, Id, pop')
      [] ph = "fit" -> FitFails(AllK, cf, Id, pop, pop', gen, TRUE, <<>>, 1, [i \in 1..Len(rk') |-> <<2 * rk'[i]>>])
      [] ph = "upd" -> MUpdFails(AllK, cf, Id, [gen |-> gen, front |-> front, hist |-> hist, ni |-> ni], pop,
                                 [front |-> front', frk |-> <<>>, hist |-> hist', ni |-> ni', big |-> fgen', ig |-> gen'])
      [] ph = "loop" /\ ph' = "cross" -> SelFails(AllK, cf, Id, pop, pop', par', 0)
      [] ph = "cross" -> CrossFails(AllK, cf, Id, pop, pop', par, par', kid', 0)
      [] ph = "mut" -> MutFails(AllK, cf, Id, pop, pop', par, par', kid, kid')
      [] ph = "new" -> NewFails(AllK, cf, Id, pop, kid, pop')
      [] OTHER -> {}
ClausesAccept == [][ClauseFails = {}]_vars
=============================================================================
