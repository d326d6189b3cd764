------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation: every line of the trace file is one recorded run (or  *)
(* one batch of recorded outcomes) of the real code.  One behaviour per    *)
(* line; each step consumes one event and evaluates the clauses of GAOps   *)
(* on it.  A violated clause is printed; the driver also compares the      *)
(* number of states with the number of events, so that every event of      *)
(* every line is known to have been judged.                                *)
(***************************************************************************)
EXTENDS GAOps, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.TRACE_FILE)
K == {IOEnv.TRACE_PROP}

VARIABLES tid, l, st
vars == <<tid, l, st>>

Init0 == [gen |-> 0, mx |-> 0, best |-> 0, big |-> 0, refs |-> <<>>, hb |-> <<>>, hm |-> <<>>, hw |-> <<>>,
          ni |-> 0, front |-> <<>>, hist |-> <<>>, bf |-> TRUE, at |-> "start"]

TraceInit == tid \in DOMAIN Runs /\ l = 1 /\ st = Init0

R == Runs[tid]
C == R.cfg
Ind(x) == R.I[x]
E == R.ev[l]

(* which operator must come next *)
Follows(at, e) == CASE e = "fill" -> at = "start"
                    [] e \in {"fit", "fitx"} -> at \in {"fill", "new", "fitx"}
                    [] e = "upd" -> at = "fit"
                    [] e = "sel" -> at = "upd"
                    [] e = "cross" -> at = "sel"
                    [] e = "mut" -> at = "cross"
                    [] e = "new" -> at = "mut"
                    [] e = "done" -> at = "upd"
                    [] OTHER -> TRUE

StopProp == IF C.M > 1 THEN "C19" ELSE "C15"

(* the properties that promise that this operator delivers a result *)
Owes(e) == CASE e = "fill" -> {"C07", "C06"}
             [] e = "fit" -> {"C03", "C04", "C05", "C18", "C23"}
             [] e = "sel" -> {SelProp(C)}
             [] e = "cross" -> {"C09"}
             [] e = "mut" -> {"C10", "C11"}
             [] e = "new" -> {"C02", "C14"}
             [] e = "upd" -> IF C.M > 1 THEN {"C19"} ELSE {"C01", "C15"}
             [] OTHER -> {}

RunFails ==
    CASE E.e = "fill" -> FillFails(K, C, Ind, E.pop)
      [] E.e = "fit" -> FitFails(K, C, Ind, E.pre, E.pop, st.gen, st.bf, E.calls, E.dok, E.rk)
      [] E.e = "rep" -> ReportFails(K, C, Ind, st, E)
      [] E.e = "fitx" -> AbortFails(K, C, Ind, st, E)
      [] E.e = "upd" -> IF C.M > 1 THEN MUpdFails(K, C, Ind, st, E.pop, E)
                        ELSE UpdFails(K, C, Ind, st, E.pre, E)
      [] E.e = "sel" -> SelFails(K, C, Ind, E.pre, E.pop, E.par, E.alias)
                        \cup (IF StopProp \in K THEN F(MayContinue(C, st), StopProp \o " the run went on after its end") ELSE {})
      [] E.e = "cross" -> CrossFails(K, C, Ind, E.pre, E.pop, E.prepar, E.par, E.kid, E.alias)
      [] E.e = "mut" -> MutFails(K, C, Ind, E.pre, E.pop, E.prepar, E.par, E.prekid, E.kid)
      [] E.e = "new" -> NewFails(K, C, Ind, E.pre, E.prekid, E.pop)
      [] E.e = "done" ->
           (IF StopProp \in K THEN F(MayStop(C, st), StopProp \o " the run stopped early")
                                    \cup F(E.ig = st.gen /\ E.ni = st.ni, StopProp \o " final counters") ELSE {})
           \cup (IF "C15" \in K /\ C.M = 1 THEN F(E.hb = st.hb /\ E.hm = st.hm /\ E.hw = st.hw, "C15 final histories") ELSE {})
           \cup (IF "C01" \in K /\ C.M = 1 THEN F(E.best = st.best /\ E.big = st.big, "C01 final best solution")
                                                \cup F(E.refs = st.refs, "C01 a best solution already read was altered") ELSE {})
           \cup (IF "C19" \in K /\ C.M > 1 THEN F(E.hist = st.hist, "C19 earlier history entries changed")
                                                \cup F(BagEq(E.front, st.front), "C19 final set") ELSE {})
           \cup (IF "C04" \in K /\ C.M = 1 THEN F(E.stray = 0, "C04 function called outside the evaluation") ELSE {})
      [] E.e = "raise" -> IF "C22" \in K THEN {"C22 a valid configuration raised: " \o E.what}
                          ELSE IF K \cap Owes(E.at) # {} THEN {IOEnv.TRACE_PROP \o " no result from " \o E.at \o ": " \o E.what}
                          ELSE {}

OrderFails == IF K \cap {"C15", "C19", "C21"} # {}
              THEN F(Follows(st.at, E.e), IOEnv.TRACE_PROP \o " operator " \o E.e \o " after " \o st.at) ELSE {}

(* the specification's state after the event, taking the recorded values over *)
Step ==
    CASE E.e = "upd" ->
           IF C.M > 1
           THEN [st EXCEPT !.gen = @ + 1, !.ni = E.ni, !.front = E.front, !.hist = E.hist, !.big = E.big, !.at = "upd"]
           ELSE [st EXCEPT !.gen = @ + 1, !.ni = E.ni, !.at = "upd",
                           !.mx = LET S == {Ind(E.pre[i]).s[1] : i \in {j \in DOMAIN E.pre : Len(Ind(E.pre[j]).s) > 0}}
                                  IN IF S = {} THEN @ ELSE IF st.gen = 0 THEN SetMax(S) ELSE Max2(@, SetMax(S)),
                           !.best = E.best, !.big = E.big, !.refs = Append(@, <<E.best, E.big>>),
                           !.hb = E.hb, !.hm = E.hm, !.hw = E.hw, !.bf = Ind(E.best).f = 1]
      [] OTHER -> [st EXCEPT !.at = E.e]

----------------------------------------------------------------------------
(* other kinds of lines: batches of outcomes *)

SqrtUp(n) == CHOOSE k \in 0..2000 : k * k >= n /\ (k = 0 \/ (k - 1) * (k - 1) < n)
(* count successes in n trials, probability within slack/1000 of pn/pd: six standard deviations *)
Plausible(count, n, pn, pd, slack) ==
    LET var == (((n * pn) \div pd) * (pd - pn)) \div pd + 1
        dev == Abs(count * pd - n * pn) \div pd
    IN dev <= 6 * SqrtUp(var) + 2 + (slack * n) \div 1000

RECURSIVE Words(_)
Words(sets) == IF sets = <<>> THEN {<<>>} ELSE {<<h>> \o t : h \in Head(sets), t \in Words(Tail(sets))}
RECURSIVE Perms(_, _)
Perms(S, n) == IF n = 0 THEN {<<>>} ELSE UNION {{<<x>> \o t : t \in Perms(S \ {x}, n - 1)} : x \in S}

(* everything that must be able to occur *)
Possible ==
    CASE E.op = "cross" -> CrossChildren(C.cross, E.a, E.b)
      [] E.op = "mut" -> IF C.mut = "bit" THEN Words([i \in 1..Len(E.a) |-> {0, 1}])
                         ELSE IF C.mut = "cat" THEN Words([i \in 1..Len(E.a) |-> 0..(C.gens[i].n - 1)])
                         ELSE PermChanges(C.mut, E.a) \cup {E.a}
      [] E.op = "mut1" -> PermChanges(C.mut, E.a)        \* at level 1 every child is changed
      [] E.op = "fill" -> IF IsBinary(C) THEN Words([i \in 1..GenoLen(C) |-> {0, 1}])
                          ELSE IF C.kind = "cat" THEN Words([i \in 1..Len(C.gens) |-> 0..(C.gens[i].n - 1)])
                          ELSE Perms(C.gens[1].lo..C.gens[1].hi, C.gens[1].n)
      [] E.op = "sel" -> {i \in DOMAIN E.s : C.sel \notin {"tour", "vtour"} \/ Cardinality({j \in DOMAIN E.s : E.s[j] <= E.s[i]}) >= C.ts}
(* uniform crossover of long genotypes: every combination of values at the listed pairs of positions *)
AtFails == LET P == IOEnv.TRACE_PROP IN
           F(E.lens = <<Len(E.a)>>, P \o " length of a child")
           \cup F(\A k \in DOMAIN E.at : Range(E.seen[k]) = {E.a[E.at[k][1]], E.b[E.at[k][1]]} \X {E.a[E.at[k][2]], E.b[E.at[k][2]]},
                  P \o " values of a child at two positions")
(* large domains: every value of its own domain occurs at every position, and no other; *)
(* "mutdom": at level 1 every value but the present one                                *)
Domain(k) == IF IsBinary(C) THEN {0, 1} ELSE IF C.kind = "cat" THEN 0..(C.gens[k].n - 1) ELSE C.gens[1].lo..C.gens[1].hi
DomFails == LET P == IOEnv.TRACE_PROP IN
            F(Len(E.seen) = GenoLen(C), P \o " genotype length")
            \cup F(\A k \in DOMAIN E.seen : Range(E.seen[k]) = IF E.op = "dom" \/ Single(C, k) THEN Domain(k) ELSE Domain(k) \ {E.a[k]},
                   P \o " values that occur at a position")
CoverFails == LET P == IOEnv.TRACE_PROP IN
              IF E.op = "at" THEN AtFails ELSE IF E.op \in {"dom", "mutdom"} THEN DomFails ELSE
              F(Range(E.outs) \subseteq Possible, P \o " impossible outcome of " \o E.op)
              \cup F(Possible \subseteq Range(E.outs), P \o " an outcome of " \o E.op \o " never occurs")

(* selection frequencies: E.w holds distances to the target (score 1/(1+distance)) or order preserving scores *)
Weight(i) == IF E.by = "dist" THEN 2520 \div (1 + E.w[i]) ELSE AvgRank2(E.w, i)
Total == SumSeq([i \in 1..Len(E.w) |-> Weight(i)])
SelStatFails ==
    LET P == IOEnv.TRACE_PROP IN
    F(SumSeq(E.first) = E.n, P \o " selected something else")
    \cup F(\A i \in DOMAIN E.w : Plausible(E.first[i], E.n, Weight(i), Total, 0), P \o " selection probability")
    \cup F(E.pair = <<>> \/ \A i, j \in DOMAIN E.w : i = j \/ Plausible(E.pair[i][j], E.first[i], Weight(j), Total - Weight(i), 0),
           P \o " selection probability of the second parent")
(* tournament winners: a class of members with equal scores wins with the probability that the best of ts members, *)
(* drawn without repetition, is in it                                                                           *)
RECURSIVE Choose(_, _)
Choose(n, k) == IF n < k THEN 0 ELSE IF k = 0 THEN 1 ELSE IF 2 * k > n THEN Choose(n, n - k) ELSE (Choose(n, k - 1) * (n - k + 1)) \div k
TourStatFails ==
    LET P == IOEnv.TRACE_PROP
        n == Len(E.w)
        upto(v) == Cardinality({i \in 1..n : E.w[i] <= v})
        below(v) == Cardinality({i \in 1..n : E.w[i] < v})
        wins(v) == SumSeq([i \in 1..n |-> IF E.w[i] = v THEN E.first[i] ELSE 0])
        unit == Choose(n, E.ts) \div 10000 + 1       \* large generations: in ten thousandths, within TLC's integers
    IN F(SumSeq(E.first) = E.n, P \o " selected something else")
       \cup F(\A v \in Range(E.w) : Plausible(wins(v), E.n, (Choose(upto(v), E.ts) - Choose(below(v), E.ts)) \div unit, Choose(n, E.ts) \div unit,
                                             IF unit = 1 THEN 0 ELSE 1),
              P \o " probability of winning a tournament")
(* mutation frequencies: hits per position and jointly for neighbouring positions *)
MutStatFails ==
    LET P == IOEnv.TRACE_PROP IN
    F(\A i \in DOMAIN E.hits : Plausible(E.hits[i], E.n, E.pn, E.pd, 1), P \o " mutation probability")
    \cup F(Plausible(SumSeq(E.hits), E.n * Len(E.hits), E.pn, E.pd, 1), P \o " mutation probability over all positions")
    \cup F(\A i \in DOMAIN E.joint : Plausible(E.joint[i], E.n, (E.pn * E.pn * 1000) \div (E.pd * E.pd), 1000, 3), P \o " mutations are not independent")
(* uniformity of outcomes *)
EvenFails == LET P == IOEnv.TRACE_PROP IN
    F(\A i \in DOMAIN E.counts : Plausible(E.counts[i], E.n, E.pn[i], E.pd, 0), P \o " frequency of " \o E.what)

(* genes of more bits than TLC's integers hold: the coordinate of the decoded value is written in bits *)
WideFails == LET P == IOEnv.TRACE_PROP IN
    F(Len(E.g) = E.nb, P \o " number of bits")
    \cup F(E.p = IF E.kind = "gray" THEN GrayToBin(E.g, Len(E.g)) ELSE E.g, P \o " decoded values do not belong to the genotype")

PairFails == LET P == IOEnv.TRACE_PROP IN
    CASE E.want = "eq" -> F(E.x = E.y, P \o " " \o E.what)
      [] E.want = "ne" -> F(E.x # E.y, P \o " " \o E.what)
      [] E.want = "prefix" -> F(Len(E.x) <= Len(E.y) /\ SubSeq(E.y, 1, Len(E.x)) = E.x, P \o " " \o E.what)

----------------------------------------------------------------------------
(* invalid configurations must be rejected, valid ones accepted *)
RejectFails == F(E.ok = (IF ConfigOK(E.x) THEN 1 ELSE 0),
                 IF ConfigOK(E.x) THEN IOEnv.TRACE_PROP \o " a valid configuration raised: " \o E.what
                 ELSE IOEnv.TRACE_PROP \o " an invalid configuration was accepted: " \o E.what)

Fails == CASE C.type = "run" -> RunFails \cup OrderFails
           [] C.type = "cover" -> CoverFails
           [] C.type = "selstat" -> SelStatFails
           [] C.type = "mutstat" -> MutStatFails
           [] C.type = "even" -> EvenFails
           [] C.type = "pair" -> PairFails
           [] C.type = "reject" -> RejectFails
           [] C.type = "tourstat" -> TourStatFails
           [] C.type = "wide" -> WideFails
           [] C.type = "fail" -> {IOEnv.TRACE_PROP \o " no result: " \o E.what}

TraceNext == /\ l <= Len(R.ev)
             /\ LET f == Fails IN
                IF f = {} THEN TRUE ELSE PrintT("BAD " \o ToString(tid) \o " " \o ToString(l) \o " " \o ToString(f))
             /\ l' = l + 1
             /\ tid' = tid
             /\ st' = IF C.type = "run" THEN Step ELSE st

TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
