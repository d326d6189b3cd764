"""One driver per property: makes the real code of /repo do things and writes down what happened, as trace lines for
spec/Trace.tla.  Nothing here decides whether what happened is right.
"""
import contextlib
import functools
import copy
import hashlib
import io
import itertools
import json
import math
import os
import random
import re
import subprocess
import sys
import time

import core
import gen
import tlc
from core import Problem, Recorder, baumeva, ga, recording, set_seed, time_limit, freeze

QUICK = 'quick'


class Ctx:
    current = None

    def __init__(self, prop, seed, tier, shard=0):
        Ctx.current = self
        self.prop, self.tier, self.shard = prop, tier, shard
        self.seed = seed if shard == 0 else f'{seed}.{shard}'
        self.rng = random.Random(f'{prop}/{self.seed}')
        self.lines, self.meta = [], []
        self.cases = 0                     # cases enumerated by TLC and replayed
        self.case_states = 0
        self.notes = {}
        self.timeouts = 0
        self.used = {}
        self.t0 = time.time()
        self.next_seed = 1000 * (seed % 1000) + 17 + 10 ** 7 * shard

    def n(self, quick, thorough):
        return quick if self.tier == QUICK else thorough

    def fresh_seed(self):
        self.next_seed += 1009
        return self.next_seed

    def count(self, key, k=1):
        self.notes[key] = self.notes.get(key, 0) + k

    def add(self, line, meta=None):
        line['cfg'].setdefault('id', len(self.lines))
        self.lines.append(line)
        self.meta.append(meta)
        self.count('lines of type ' + line['cfg']['type'])

    def fail(self, what, exc):
        self.add({'cfg': {'type': 'fail'}, 'I': [], 'ev': [{'what': ascii(f'{what}: {type(exc).__name__}: {exc}'[:180])}]},
                 {'what': what})
        if isinstance(exc, core.Timeout):
            self.timeouts += 1

    @contextlib.contextmanager
    def guard(self, what, limit=20):
        """an exception of the code under test is an outcome, not an error of the driver"""
        try:
            with time_limit(limit):
                yield
        except Exception as e:            # noqa
            self.fail(what, e)

    def hung(self):
        return self.timeouts >= 3

    def run(self, s, seed=None, reseed=True, fails=None, report=None):
        seed = self.fresh_seed() if seed is None else seed
        line = gen.record_run(s, len(self.lines), seed, reseed=reseed, fails=fails, report=report)
        if line['ev'] and line['ev'][-1].get('e') == 'raise' and 'Timeout' in line['ev'][-1]['what']:
            self.timeouts += 1
        self.add(line, describe(s, seed))
        return line

    # -- enumerations by TLC
    def enumerate(self, module, cfg, cap=None):
        r = tlc.tlc(module, cfg_text=cfg, workers=1 if module == 'Cases' else 4, timeout=600 if self.tier == QUICK else 2000)
        if 'No error has been found' not in r['out'] and 'Model checking completed' not in r['out']:
            raise RuntimeError('TLC failed on ' + module + ':\n' + r['out'][-2000:])
        out = [json.loads(json.loads(l)[5:]) for l in r['out'].splitlines() if l.startswith('"CASE ')]
        out.sort(key=lambda c: json.dumps(c, sort_keys=True))
        self.case_states += r['distinct']
        self.notes.setdefault('cases enumerated by TLC', {})[module + ' ' + ' '.join(cfg.split()[3:9])[:60]] = len(out)
        if cap is not None and len(out) > cap:
            out = self.rng.sample(out, cap)
        self.cases += len(out)
        return out

    def family(self, kind, size, vals='{0}', dim=1, cap=None):
        return self.enumerate('Cases', f'SPECIFICATION Spec\nCONSTANTS\n Kind = "{kind}"\n Size = {size}\n Vals = {vals}\n'
                                       f' Dim = {dim}\nCHECK_DEADLOCK FALSE\n', cap)


def describe(s, seed):
    return {'kind': s.kind, 'gens': repr(s.problem.gens), 'N': s.N, 'G': s.G, 'children_percent': s.cp[0] / s.cp[1],
            'selection': s.sel, 'ts': s.ts, 'crossover': s.cross, 'mutation': s.mut, 'level': s.lvl, 'transfer': s.tp,
            'early_stop': s.es, 'conditions': s.conditions, 'penalty': s.pen, 'penalty params': repr(s.pencfg), 'target': s.target,
            'data': repr(s.data), 'entry': s.entry, 'algo': s.algo, 'inputs': repr(s.inputs)[:400], 'seed': seed}


# ------------------------------------------------------------------------------------------------ random runs
SHAPES = ['marathon', 'long', 'crowd', 'years']


CHEAP = ('C01', 'C02', 'C03', 'C04', 'C08', 'C14', 'C22', 'C24')       # properties whose quick checks can afford more runs


def runs(ctx, n, **kw):
    if ctx.tier == QUICK and ctx.prop in CHEAP:
        n = n * 2 if not kw.get('big') else n + 2
    for i in range(n):
        if ctx.hung():
            return
        k = dict(kw)
        if k.get('big') is SHAPES:
            k['big'] = SHAPES[i % 4]
        for f, v in list(k.items()):
            if isinstance(v, (list, tuple)):
                k[f] = ctx.rng.choice(v)
        ctx.run(gen.make_setup(ctx.rng, **k))


def multi_runs(ctx, n, sels=('vtour', 'vbal', 'vrank', 'bal', 'tour', 'rank'), **kw):
    for i in range(n):
        if ctx.hung():
            return
        if kw.get('big') in ([*SHAPES], *SHAPES):
            kw['big'] = SHAPES[i % 4]
        sel = ctx.rng.choice(list(sels))
        entry = None if sel in ('vtour', 'bal') else ctx.rng.choice(['collector', 'adv'])
        k = {f: (ctx.rng.choice(v) if isinstance(v, (list, tuple)) else v) for f, v in kw.items()}
        k.setdefault('objectives', ctx.rng.choice([2, 2, 2, 2, 3, 3, 3, 4, 5, ctx.rng.choice([6, 7, 8, 9, 12])]))
        s = gen.make_setup(ctx.rng, kind=ctx.rng.choice(['bin', 'gray']), sel=sel, entry=entry, **k)
        ctx.run(s)


# ------------------------------------------------------------------------------------------------ fixtures
def table_problem(n_bits=3, kind='bin'):
    return Problem(kind, ((0, 2 ** n_bits - 1, 1),))


def fixture(values, cp=1.0, N=None, extra=0, algo='so', target=None, kind='bin', num_bits=3, codes=None, G=10):
    """a first generation whose i-th member has gene codes[i] (default i) and objective value values[code];
    with extra=1 it counts as a later generation (one more member than num_individ)"""
    pr = table_problem(num_bits, kind)
    codes = list(range(len(values))) if codes is None else codes
    pop = pr.pop_class()()
    pop.set_params(num_individ=len(codes), gens=pr.gens, input_population=[[c] for c in codes])
    pop.fill()
    gd = (ga.GaData if algo == 'so' else ga.MultiGaData)(num_generations=G, children_percent=cp, early_stop=G)
    gd.population = pop
    fit = {'so': ga.HyperbolaFitness, 'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}[algo](
        obj_function=values if callable(values) else lambda g: values[int(round(g[0]))], obj_value=target)
    fit.execute(gd)
    gd.update()
    if extra:
        pop.num_individ = len(codes) - extra
    return gd, pr, fit


def code_of(ind, kind='bin'):
    b = int(''.join(ind['genotype']), 2)
    if kind == 'gray':
        r, g = 0, b
        while g:
            r, g = r ^ g, g >> 1
        b = r
    return b


def base_cfg(pr, **kw):
    c = {'type': 'run', 'kind': pr.kind, 'algo': 'so', 'gens': pr.cfg(), 'L': pr.length, 'N': 4, 'G': 9, 'cn': 1, 'cd': 1,
         'ts': 2, 'sel': 'tour', 'cross': 'one', 'mut': 'bit', 'lvl': -1, 'tp': 'best', 'es': 9, 'M': 1, 'cond': ['opt'],
         'pen': 'none', 'pp': {'none': 0}, 'tgt': [], 'num': 1, 'vd': 1, 'entry': 'adv', 'inputs': []}
    c.update(kw)
    return c


def grow_old(ctx, gd, p=0.6):
    """an operator's draws do not depend on how long the run has lasted or stood still"""
    R = ctx.rng
    if R.random() > p:
        return
    G, k = R.choice([(100, 60), (100, 25), (100, 99), (40, 39), (12, 11), (8, 7), (1000, 500)])
    gd.num_generations, gd.idx_generation = G, k
    gd.early_stop = R.choice([G, k, 10])
    gd.num_generation_no_improve = min(gd.early_stop, R.choice([0, 1, 6, k // 2, k - 1]))
    for h in ('historical_best', 'historical_mediocre', 'historical_worst'):
        if type(getattr(gd, h, None)) is list:
            setattr(gd, h, (getattr(gd, h) or [1]) * k)
    if gd.best_solution is None:
        gd.best_solution = dict(copy.deepcopy(gd.population[0]), score=1, obj_score=1, feasible=True)
    gd.best_solution['idx_generation'] = k - 1 - gd.num_generation_no_improve


def draw_pairs(ctx, gd, sel, times):
    """pairs of codes returned by `times` executions of a selection, all pairs in order per execution"""
    out = []
    grow_old(ctx, gd)
    other = None
    if ctx.rng.random() < 0.5:          # the same selection object also serves another run, at the same point of it
        other = copy.deepcopy(gd)
        res = [(i['score'], i['obj_score']) for i in other.population]
        ctx.rng.shuffle(res)
        for i, (a, b) in zip(other.population, res):
            i['score'], i['obj_score'] = a, b
        other.population.is_sorted = False
    for k in range(times):
        set_seed(ctx.fresh_seed())
        if other is not None and k % 40 == 0:
            sel.execute(other)
        sel.execute(gd)
        p = [code_of(i) for i in gd.parents]
        out.append(list(zip(p[::2], p[1::2])))
    return out


def stat_line(ctx, kind, w, pairs, **kw):
    n = len(w)
    first = [0] * n
    pair = [[0] * n for _ in range(n)]
    bad = 0
    for i, j in pairs:
        if i < n and j < n:
            first[i] += 1
            pair[i][j] += 1
        else:
            bad += 1
    ctx.add({'cfg': {'type': kind}, 'I': [], 'ev': [dict(w=w, first=first, pair=pair if n <= 12 else [], n=len(pairs), **kw)]}, {'w': w, **kw})


# ------------------------------------------------------------------------------------------------ replay of Sched.tla
SCHED = 'SPECIFICATION Spec\nCONSTANTS\n N = {N}\n Kids = {K}\n Gens = {G}\n Values = {V}\n Stop = {S}\n' \
        'INVARIANTS Monotone Sound\nCHECK_DEADLOCK FALSE\n'


def sched(ctx, cap, N=3, K=2, G=3, V='{0, 1, 2}', S='{0, 1}'):
    """scripts of objective values -> real runs; predicted and observed bookkeeping are compared by the specification"""
    cases = ctx.enumerate('Sched', SCHED.format(N=N, K=K, G=G, V=V, S=S), cap)
    cp = {2: 0.7, 1: 0.4, 3: 1.0}[K] if N == 3 else (K + 0.2) / N
    for c in cases:
        if ctx.hung():
            return
        kind = ctx.rng.choice(['bin', 'gray', 'cat', 'ord', 'coll'])
        it = iter(c['v'])

        def f(genes):
            return next(it)
        kw = dict(num_generations=G, num_individ=N, obj_function=f, children_percent=cp, early_stop=c['es'], tournament_size=2,
                  is_print=False)
        seed = ctx.fresh_seed()
        set_seed(seed)
        hist = []
        rec = Follow(hist, seed)
        with ctx.guard('scripted run'):
            with recording(rec):
                if kind in ('bin', 'gray'):
                    gd = baumeva.BinaryGA(gens=((0, 2 ** 50 - 1, 1), (0, 2 ** 20 - 1, 1)), is_gray=kind == 'gray',
                                          mutation_lvl=0.5, **kw).optimize()
                elif kind == 'cat':
                    gd = baumeva.CategoricalGA(gens=[(0, 10 ** 9, 1)] * 4, mutation_lvl=0.9, **dict(kw)).optimize() \
                        if False else baumeva.CategoricalGA(gens=[list(range(60))] * 12, mutation_lvl=0.9, **kw).optimize()
                elif kind == 'ord':
                    gd = baumeva.CombinatoryGA(gens=(0, 400, 40), mutation_lvl=1.0, **kw).optimize()
                else:
                    col = baumeva.CollectorGA(ga.HyperbolaFitness(obj_function=f), ga.RankedSelection(), ga.TwoPointCrossover(),
                                              ga.BinStringMutation(0.5), ga.NewGeneration('best'))
                    col.set_population(ga.BinaryPopulation, num_individ=N, num_generations=G, gens=((0, 2 ** 60 - 1, 1),),
                                       children_percent=cp, early_stop=c['es'])
                    with contextlib.redirect_stdout(io.StringIO()):
                        col.optimize()
                    gd = col.ga_data
            y = {'hb': [int(v) for v in gd.historical_best], 'hm': [int(v) for v in gd.historical_mediocre],
                 'hw': [int(v) for v in gd.historical_worst], 'ni': [h[0] for h in hist], 'bg': [h[1] for h in hist]}
            x = {k: c[k] for k in y}
            ctx.add({'cfg': {'type': 'pair'}, 'I': [], 'ev': [{'x': x, 'y': y, 'want': 'eq', 'what': 'scripted run ' + kind}]},
                    {'script': c['v'], 'early_stop': c['es'], 'kind': kind, 'seed': seed})


def by_hand(ctx, cap, N=3, K=1, G=5):
    """scripts replayed into a loop written by hand that goes on whatever the counter says: counters and histories stay exact"""
    for c in ctx.enumerate('Sched', SCHED.format(N=N, K=K, G=G, V='{0, 1, 2}', S='{99}'), cap):
        if ctx.hung():
            return
        it = iter(c['v'])
        es = ctx.rng.choice([0, 0, 1, 2, 3, G])
        with ctx.guard('loop by hand'):
            set_seed(ctx.fresh_seed())
            gd = ga.GaData(num_generations=ctx.rng.choice([1, 2, G]), children_percent=(K + 0.2) / N, early_stop=es)
            gd.population = ga.BinaryPopulation()
            gd.population.set_params(num_individ=N, gens=((0, 2 ** 60 - 1, 1),))
            gd.population.fill()
            fit = ga.HyperbolaFitness(obj_function=lambda genes: next(it))
            ops = [ga.RankedSelection(), ga.TwoPointCrossover(), ga.BinStringMutation(0.5), ga.NewGeneration('best')]
            ni, bg, avg = [], [], []
            for g in range(G):
                for o in ops if g else []:
                    set_seed(ctx.fresh_seed())              # all genotypes differ
                    o.execute(gd)
                fit.execute(gd)
                gd.update()
                ni.append(gd.num_generation_no_improve)
                bg.append(gd.best_solution['idx_generation'])
                avg.append([int(round(gd.get_avg_score() * len(gd.population))), sum(i['score'] for i in gd.population)])
            y = {'hb': [int(v) for v in gd.historical_best], 'hm': [int(v) for v in gd.historical_mediocre],
                 'hw': [int(v) for v in gd.historical_worst], 'ni': ni, 'bg': bg}
            pair(ctx, {k: c[k] for k in y}, y, 'eq', 'scripted loop by hand', {'script': c['v'], 'early_stop': es})
            pair(ctx, [a for a, _ in avg], [b for _, b in avg], 'eq', 'average score of a generation', {'script': c['v']})


def mo_sched(ctx, cap, N=3, K=2, G=2, V='{0, 1}', D=2):
    """scripts of value vectors -> real FFGA runs; the reported sets are compared with the predicted ones"""
    cases = ctx.enumerate('MOSched', f'SPECIFICATION Spec\nCONSTANTS\n N = {N}\n Kids = {K}\n Gens = {G}\n Values = {V}\n Dim = {D}\n'
                                     'INVARIANTS Covered Everything\nCHECK_DEADLOCK FALSE\n', cap)
    for c in cases:
        if ctx.hung():
            return
        it = iter([v for gen_ in c['v'] for v in gen_])
        memo = {}

        def f(genes):
            k = freeze(genes)
            if k not in memo:
                memo[k] = next(it)
            return tuple(memo[k])
        seed = ctx.fresh_seed()
        set_seed(seed)
        kind = ctx.rng.choice(['bin', 'gray'])
        wide = ((0, 2 ** 40 - 1, 1), (0, 2 ** 20 - 1, 1))
        how = ctx.rng.choice(['facade', 'tour', 'rank'] if N > 2 else ['facade', 'rank'])
        with ctx.guard('scripted multi-objective run'), recording(Generations(seed)):      # reseeded at every step: all genotypes differ
            if how == 'facade':
                gd = baumeva.FFGA(num_generations=G, num_individ=N, gens=wide, obj_function=f, is_gray=kind == 'gray', children_percent=(K + 0.2) / N,
                                  early_stop=None, mutation_lvl=0.5, is_print=False).optimize()
            else:
                sel = ga.TournamentSelection(2) if how == 'tour' else ga.RankedSelection()
                col = baumeva.CollectorGA(ga.FFGAFitness(obj_function=f), sel, ga.UniformCrossover(), ga.BinStringMutation(0.5), ga.MultiNewGeneration('best'),
                                          storage=ga.MultiGaData)
                col.set_population(ga.BinaryPopulation if kind == 'bin' else ga.BinaryGrayPopulation, num_individ=N, num_generations=G, gens=wide,
                                   children_percent=(K + 0.2) / N, early_stop=G)
                with contextlib.redirect_stdout(io.StringIO()):
                    col.optimize()
                gd = col.ga_data
            y = {'h': [sorted(list(i['obj_score']) for i in h) for h in gd.historical_best], 'n': len(gd.population),
                 'b': sorted(list(i['obj_score']) for i in gd.best_solution['pareto_set'])}
            x = {'h': [sorted(h) for h in c['h']], 'n': c['n'], 'b': sorted(c['h'][-1])}
            pair(ctx, x, y, 'eq', 'scripted FFGA run ' + how, {'script': c['v'], 'kind': kind, 'seed': seed})


class Follow:
    """minimal recorder: counters after every update"""
    at = 'start'

    def __init__(self, hist, reseed):
        self.hist, self.reseed = hist, reseed

    def before(self, k, op, gd):
        self.at = k
        self.reseed += 1                    # all genotypes differ
        set_seed(self.reseed)

    def after(self, k, op, gd):
        if k == 'upd':
            self.hist.append((gd.num_generation_no_improve, gd.best_solution['idx_generation']))


# ------------------------------------------------------------------------------------------------ digests
def digest_ind(i):
    return repr([freeze(i.get(f)) for f in ('genotype', 'phenotype', 'score', 'obj_score', 'feasible')])


def digest_gd(gd):
    """everything a user can read from a GaData, by value"""
    b = gd.best_solution
    if b is None:
        best = 'None'
    elif 'pareto_set' in b:
        best = repr((b.get('idx_generation'), sorted(digest_ind(i) for i in b['pareto_set'])))
    else:
        best = repr((b.get('idx_generation'), digest_ind(b)))
    hist = [freeze(gd.historical_best) if not (gd.historical_best and isinstance(gd.historical_best[0], list))
            else [sorted(digest_ind(i) for i in h) for h in gd.historical_best],
            freeze(gd.historical_mediocre), freeze(gd.historical_worst)]
    pops = [sorted(digest_ind(i) for i in (p or [])) for p in (gd.population, gd.parents, gd.children)]
    return [short(best), short(repr(hist)), str(gd.idx_generation), str(gd.num_generation_no_improve), short(repr(pops))]


def short(x):
    return hashlib.sha256(x.encode()).hexdigest()[:20]


class Generations:
    """recorder: one digest per generation"""
    at = 'start'

    def __init__(self, reseed=None):
        self.gens, self.first, self.reseed, self.marks = [], '', reseed, []

    def before(self, k, op, gd):
        self.at = k
        if self.reseed is not None:
            self.reseed += 1
            set_seed(self.reseed)

    def after(self, k, op, gd):
        if k == 'fill':
            self.first = short(repr(sorted(repr(freeze(i['genotype'])) for i in op)))
        if k == 'upd':
            self.marks.append(digest_gd(gd)[:4])
            self.gens.append(short(repr(digest_gd(gd)[:4] + [sorted(digest_ind(i) for i in gd.population)])))


KEEP = 'keep'


def run_digest(s, seed, entry=None, f=None, reseed=None, foreign=0):
    """list of strings describing the whole run; the last one says how it ended"""
    rec = Generations(reseed)
    how = {'facade': gen.run_facade, 'collector': gen.run_collector, 'adv': gen.run_adv}[entry or s.entry]
    for _ in range(foreign):
        random.random()
    if seed is not KEEP:
        baumeva.generator.rnd_seed = seed
    with recording(rec):
        try:
            with time_limit(20):
                s.ga_data = how(s, f or gen.objective(s, None))
            end = digest_gd(s.ga_data)
        except Exception as e:            # noqa
            end = ['raised ' + type(e).__name__ + ' ' + ascii(str(e)[:80])]
            if isinstance(e, core.Timeout) and Ctx.current is not None:
                Ctx.current.fail('a run', e)
    return [rec.first] + rec.gens + end, rec


def pair(ctx, x, y, want, what, meta=None):
    ctx.add({'cfg': {'type': 'pair'}, 'I': [], 'ev': [{'x': x, 'y': y, 'want': want, 'what': what}]}, meta)


# ------------------------------------------------------------------------------------------------ the properties
def stalls(ctx, n, multi=False, **fixed):
    """runs whose objective improves only after given numbers of generations without improvement"""
    R = ctx.rng
    for i in range(n):
        if ctx.hung():
            return
        kind = R.choice(['bin', 'gray'] if multi else ['bin', 'gray', 'cat', 'ord'])
        sel = R.choice(['bal', 'tour', 'vtour', 'vrank'] if multi else ['tour', 'rank'])
        entry = fixed.get('entry') or R.choice(['collector', 'adv', 'facade'])
        if 'sel' in fixed:
            sel = fixed['sel']
        elif entry == 'facade':
            sel = R.choice(['vtour', 'bal']) if multi else 'tour'
        s = gen.make_setup(R, kind=kind, constrained=False, objectives=2 if multi else 1, sel=sel, entry=entry)
        s.problem = Problem(kind, {'cat': [list(range(60))] * 12, 'ord': (0, 400, 40)}.get(kind) or ((0, 2 ** 20 - 1, 1),) * 3)
        s.N, s.cp, s.ts, s.data, s.inputs, s.vd, s.ret, s.target, s.float_obj = R.randint(4, 6), (1, 2), 2, None, None, 1, 'int', None, False
        s.lvl = R.choice([0.5, 0.9])
        waits = [R.choice([1, 3, 8, 9, 12, 17, 26, 33, 41])]
        while sum(waits) < 45 and (not multi or sum(waits) < 20):
            waits.append(R.choice([0, 1, 2, 7, 11, 16, 19]))
        if 'es' in fixed:
            waits = [fixed['es'] + R.choice([1, 1, 3])]
        s.G = sum(waits) + len(waits) + 2
        s.es = fixed['es'] if 'es' in fixed else R.choice([None, None, None, max(waits), max(waits) + 1, max(0, max(waits) - 1), 0, waits[0] - 1])
        s.es_eff = s.G if s.es is None else s.es
        steps = set()
        for w in waits:
            steps.add((max(steps) if steps else 0) + w + 1)
        memo, seen = {}, {}

        def result(g, s=s, memo=memo, seen=seen, steps=steps):
            k = freeze(g)
            if k not in memo:
                now = sum(1 for e in core.CURRENT.events if e['e'] == 'upd') if core.CURRENT is not None else 0
                level = 100 - 2 * sum(1 for t in steps if t <= now)
                first = now not in seen and (now in steps or now == 0)
                seen[now] = True
                v = level if first else level + 1 + R.randint(0, 6)
                memo[k] = v if not s.multi else ((v, level + R.randint(0, 3)) if first else (v, level + 4 + R.randint(0, 3)))
            return memo[k]
        s.result = result
        s.values = lambda g, memo=memo, s=s: list(memo[freeze(g)]) if s.multi else [memo[freeze(g)]]
        ctx.run(s)


def ages(ctx, per_shard, multi=False):
    """small generations, hundreds of them"""
    R = ctx.rng
    ways = [(k, e) for e in ('facade', 'collector', 'adv') for k in (['bin', 'gray'] if multi else ['bin', 'gray', 'cat', 'ord'])]
    n = per_shard if ctx.tier == QUICK else len(ways)
    for i in range(n):
        if ctx.hung():
            return
        kind, entry = ways[(ctx.shard * n + i) % len(ways)]
        sel = R.choice(['vtour', 'vrank']) if entry != 'facade' and multi else 'vtour' if multi else R.choice(['tour', 'rank'])
        s = gen.make_setup(R, kind=kind, entry=entry, constrained=False, sel=sel, big='years', objectives=2 if multi else 1)
        s.N, s.cp, s.ts, s.G, s.es = R.choice([4, 5]), (3, 5), 2, R.randint(135, 270) if not multi else R.randint(101, 140), None
        s.es_eff = s.G
        if s.inputs is not None:
            s.inputs = [gen.random_genes(R, s.problem) for _ in range(s.N)]
        ctx.run(s)


def mob(ctx, **kw):
    """a generation of a thousand"""
    s = gen.make_setup(ctx.rng, constrained=False, big='crowd', **kw)
    s.N, s.cp, s.G, s.es, s.inputs, s.ts = ctx.rng.randint(850, 1100), ctx.rng.choice([(19, 20), (1, 2), (1, 10)]), 2, None, None, 3
    s.es_eff = s.G
    if s.problem.items is None:
        ctx.run(s)


def throng(ctx, n, **kw):
    """generations of some hundreds, of even and of odd size, with scores that differ from one member to the next"""
    for k in range(n):
        if ctx.hung():
            return
        s = gen.make_setup(ctx.rng, kind=['bin', 'cat', 'ord', 'gray'][(ctx.shard + k) % 4], constrained=False, sel=['tour', 'rank'][k % 2], **kw)
        s.problem = Problem(s.kind, {'cat': [list(range(40))] * 6, 'ord': (0, 30, 8)}.get(s.kind) or ((0, 4095, 1), (0, 1023, 1)))
        s.N, s.cp, s.G, s.ts, s.lvl, s.target = 2 * ctx.rng.randint(101, 220) + k % 2, ctx.rng.choice([(19, 20), (1, 2), (1, 10)]), 3, 3, 0.3, None
        resize(ctx, s)
        top = 10 ** 6
        weights = [ctx.rng.randint(1, 997) for _ in range(64)]
        f = lambda g: sum(w * x for w, x in zip(weights, s.problem.ints(g))) % top
        s.values, s.result = (lambda g, f=f: [f(g)]), f
        ctx.run(s)


def C01(ctx):
    runs(ctx, ctx.n(150, 1500))
    runs(ctx, ctx.n(40, 500), small=True)
    runs(ctx, ctx.n(30, 300), float_obj=True, constrained=False)
    runs(ctx, ctx.n(30, 300), constrained=True)
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    runs(ctx, ctx.n(4, 40), constrained=True, big=SHAPES)
    runs(ctx, ctx.n(20, 200), float_obj=True)
    stalls(ctx, ctx.n(8, 120))
    throng(ctx, ctx.n(1, 6))
    sched(ctx, ctx.n(500, 2774))


def C02(ctx):
    runs(ctx, ctx.n(150, 1500))
    runs(ctx, ctx.n(80, 1000), small=True)
    runs(ctx, ctx.n(30, 300), constrained=True)
    runs(ctx, ctx.n(40, 400), constrained=True, small=True)
    full_offspring(ctx, ctx.n(40, 400))
    throng(ctx, ctx.n(1, 6))
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    runs(ctx, ctx.n(4, 40), constrained=True, big=SHAPES)
    runs(ctx, ctx.n(20, 200), float_obj=True)
    transfers(ctx, ctx.n(1200, 8000), dup_sizes=(4,) if ctx.tier == QUICK else (3, 4, 5))
    sched(ctx, ctx.n(200, 2774))


def full_offspring(ctx, n):
    """the whole next generation are children: the best member survives although it need not be a parent"""
    for _ in range(n):
        if ctx.hung():
            return
        s = gen.make_setup(ctx.rng)
        s.cp, s.ts, s.G, s.es, s.es_eff = (1, 1), 2, 6, None, 6
        ctx.run(s)
    # the same for longer, in domains wide enough for the best member to be alone
    for k in range(max(2, n // 10)):
        if ctx.hung():
            return
        s = gen.make_setup(ctx.rng, kind=['bin', 'gray', 'cat', 'ord'][k % 4], constrained=False, sel='tour')
        s.problem = Problem(s.kind, {'cat': [list(range(40))] * 6, 'ord': (0, 30, 8)}.get(s.kind) or ((0, 4095, 1), (0, 1023, 1)))
        s.N, s.cp, s.ts, s.G, s.lvl, s.target = ctx.rng.choice([4, 6, 9]), ctx.rng.choice([(1, 1), (1, 1), (3, 5)]), 2, ctx.rng.randint(12, 45), 0.3, None
        resize(ctx, s)
        f = gen.int_function(ctx.rng, s.problem, 'dist') if s.kind in ('cat', 'ord') else (lambda z: (z[0] * 5 + z[1] * 3) % 1009)
        s.values = lambda g, s=s, f=f: [f(s.problem.ints(g))]
        s.result = lambda g, s=s, f=f: f(s.problem.ints(g))
        ctx.run(s)


def transfers(ctx, cap, dup_sizes):
    """the new-generation operator on every small pattern of duplicates, scores, children and strategies"""
    R = ctx.rng
    for size in dup_sizes:
        for d in ctx.family('dup', size, cap=cap // len(dup_sizes)):
            if ctx.hung():
                return
            extra = R.choice([0, 1])
            N = size - extra
            kids = min(d['kids'], N)
            with ctx.guard('transfer of parents'):
                seed = ctx.fresh_seed()
                set_seed(seed)
                it = iter([-v for v in d['sc']])
                gd, pr, fit = fixture(lambda g: next(it), cp=(kids + 0.3) / N if kids < N else 1.0, extra=extra, codes=d['cls'])
                cfg = base_cfg(pr, N=N, cn=kids, cd=N, tp=d['tp'])
                rec = Recorder(pr, cfg)
                rec.reseed = seed
                sel = R.choice([ga.TournamentSelection(2), ga.RankedSelection()])
                sel = ga.RankedSelection() if N < 3 else sel
                sel.execute(gd)
                if R.random() < 0.6:        # any pairs are possible, also ones without the best members
                    weak = sorted(gd.population, key=lambda i: i['score'])[:max(2, R.randint(2, size))]
                    for k in range(0, len(gd.parents), 2):
                        gd.parents[k:k + 2] = copy.deepcopy(R.sample(weak, 2))
                R.choice([ga.OnePointCrossover, ga.UniformCrossover])().execute(gd)
                ga.BinStringMutation(R.choice([0.0, 0.0, 0.3])).execute(gd)
                with recording(rec):
                    ga.NewGeneration(d['tp']).execute(gd)
                ctx.add(rec.finish(), {'dup': d, 'extra': extra, 'seed': seed})


def C03(ctx):
    runs(ctx, ctx.n(200, 2000), constrained=False)
    runs(ctx, ctx.n(60, 600), constrained=True)
    runs(ctx, ctx.n(40, 400), float_obj=True, constrained=False)
    runs(ctx, ctx.n(4, 60), float_obj=True, constrained=False, big=SHAPES)
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    # data, targets and forms of results, all combinations
    for data, target, ret, kind in itertools.product([None, 0, '', [], 3, {'k': 1}, {}, False], [None, 0, 2, -1.5], ['int', 'float', 'one', 'numpy'],
                                                     ['bin', 'gray', 'cat', 'ord']):
        if ctx.tier == QUICK and ctx.rng.random() < 0.5:
            continue
        if ctx.hung():
            return
        s = gen.make_setup(ctx.rng, kind=kind, constrained=False, objective_params=dict(data=data, target=target, ret=ret))
        ctx.run(s)


def C04(ctx):
    runs(ctx, ctx.n(200, 2000))
    runs(ctx, ctx.n(60, 800), small=True)
    runs(ctx, ctx.n(40, 400), constrained=True)
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    runs(ctx, ctx.n(4, 40), constrained=True, big=SHAPES)
    runs(ctx, ctx.n(20, 200), float_obj=True)


def C05(ctx):
    runs(ctx, ctx.n(200, 2500), constrained=True)
    runs(ctx, ctx.n(6, 60), constrained=True, big=SHAPES)
    runs(ctx, ctx.n(3, 30), constrained=True, big='years')
    for k in range(ctx.n(4, 40)):
        s = gen.make_setup(ctx.rng, constrained=True, big='years', entry=ctx.rng.choice(['facade', 'collector', 'adv']))
        s.N, s.G, s.cp, s.ts, s.es, s.es_eff = 4, ctx.rng.randint(55, 110), (1, 1), 2, None, 200
        s.pen = ('dyn', 'dyn', 'ada', 'sta')[k % 4]
        s.penf, s.pencfg = gen.penalty_for(ctx.rng, s.cond, s.pen)
        if s.inputs is not None:
            s.inputs = [gen.random_genes(ctx.rng, s.problem) for _ in range(4)]
        s.es_eff = s.G
        ctx.run(s)
    for k in range(ctx.n(24, 200)):
        ctx.run(constraint_grid(ctx, ctx.rng.choice([['opt', 'le'], ['eq', 'opt'], ['le', 'opt'], ['opt', 'eq']]), ('dyn', 'ada', 'sta', 'usr')[k % 4], ctx.rng.choice(['facade', 'collector']), huge=True))
    for k in range(ctx.n(4, 40)):           # long runs that keep infeasible members
        s = constraint_grid(ctx, ctx.rng.choice([['opt', 'le'], ['eq', 'opt'], ['le', 'opt'], ['opt', 'eq']]), ('ada', 'ada', 'dyn', 'sta')[k % 4], ctx.rng.choice(['facade', 'collector', 'adv']))
        s.G = s.es_eff = ctx.rng.randint(45, 80)
        ctx.run(s)
    for k in range(ctx.n(12, 100)):
        ctx.run(constraint_grid(ctx, ctx.rng.choice([['opt', 'le'], ['eq', 'opt'], ['le', 'opt', 'eq'], ['opt', 'eq']]), ('dyn', 'ada')[k % 2], ctx.rng.choice(['facade', 'collector', 'adv']), halves=True))
    for k in range(ctx.n(10, 100)):         # one penalty object serving several runs
        s = gen.make_setup(ctx.rng, constrained=True, small=True)
        if k % 2:
            s = constraint_grid(ctx, ctx.rng.choice([['opt', 'le'], ['eq', 'opt'], ['le', 'opt', 'eq']]), 'ada', ctx.rng.choice(['facade', 'collector', 'adv']))
            s.N, s.inputs, s.cp = 5, None, (1, 1)
        s.penf = lambda one=s.penf(): one
        for _ in range(3):
            ctx.run(s)
    unbounded_violations(ctx)
    scaled(ctx, ctx.n(40, 400))
    runs(ctx, ctx.n(40, 500), constrained=True, float_obj=True)
    multi_runs(ctx, ctx.n(10, 100), constrained=True, float_obj=True, sels=('vtour', 'vrank', 'bal'))
    multi_runs(ctx, ctx.n(40, 500), constrained=True, sels=('vtour', 'vbal', 'vrank', 'bal'))
    # every position of the objective and every sign, with all small constraint values present
    lays = [l for k in ((2, 3) if ctx.tier == QUICK else (2, 3, 4)) for l in ctx.family('layout', k)]
    lays.append(['opt'])
    for lay in lays:
        for pen in ['dyn', 'ada', 'sta', 'usr']:
            if ctx.hung():
                return
            if lay == ['opt']:
                continue
            for entry in ['facade', 'collector'] if ctx.tier == QUICK else ['facade', 'collector', 'adv', 'facade']:
                ctx.run(constraint_grid(ctx, lay, pen, entry))
    # a violation that no interval of the constraint's table holds
    for sign, viol, top in itertools.product(('<=', '!='), (1.5, 3, 7), (0.5, 1, 2.5, 3, 5)):
        pen = ga.StaticPenalty(*(({0: [(0, top)]}, {0: [2]}, {}, {}) if sign == '!=' else ({}, {}, {0: [(0, top)]}, {0: [2]})))
        try:
            with time_limit(20), contextlib.redirect_stdout(io.StringIO()):
                ga_ = baumeva.CategoricalGA(num_generations=1, num_individ=4, gens=[[viol], ['a', 'b'], [0, 1]], obj_function=lambda g: (g[2], g[0]),
                                            penalty=pen, conditions=['optimize', sign], is_print=False)
                ga_.optimize()
            got = 'result'
        except core.Timeout:
            got = 'timeout'
        except Exception:                 # noqa
            got = 'raised'
        pair(ctx, got, 'raised' if viol > top else 'result', 'eq', f'violation {viol} with one interval up to {top}')


def scaled(ctx, n):
    """violations, intervals and coefficients scaled by powers of two (down to 2^-60): flag and penalty as at scale one, which the runs judge"""
    R = ctx.rng
    for _ in range(n):
        if ctx.hung():
            return
        sign, kind, e = R.choice(['<=', '!=']), R.choice(['sta', 'sta', 'dyn', 'ada']), R.choice([20, 35, 44, 52, 60, -12])
        # values on both sides of the borders, and the borders themselves
        tops = sorted(R.sample([1, 2, 3, 5, 8], 3))
        coefs = [R.choice([1, 2, 3, 0.5]) for _ in tops]
        power = R.choice([1, 2, 3])
        values = [0] + [t + d for t in [0] + tops[:-1] for d in (0.0625, 1)] + tops + ([-1, -7] if sign == '<=' else [-1, -tops[-1]])
        seen = []
        for k in (0, e):
            z = 2.0 ** -k
            if kind == 'sta':
                table = {0: [(lo * z, hi * z) for lo, hi in zip([0] + tops, tops)]}
                r = {0: [c / z for c in coefs]}
                pen = ga.StaticPenalty(table, r, {}, {}) if sign == '!=' else ga.StaticPenalty({}, {}, table, r)
            elif kind == 'dyn':
                pen = ga.DynamicPenalty(delta=2.0 ** (k * power), c=1, alpha=1, betta=power)
            else:
                pen = ga.AdaptivePenalty(delta=2.0 ** (k * power), betta=power)
            with ctx.guard('scaled penalties'):
                set_seed(7)
                gd = ga.GaData(num_generations=3)
                gd.idx_generation, gd.best_solution = 2, {'feasible': R.random() < 0.5 if k == 0 else seen[0]['best']}
                gd.population = ga.CatPopulation()
                gd.population.set_params(num_individ=len(values), gens=[list(range(len(values))), ['a', 'b'], ['u', 'v']],
                                         input_population=[[i, 'a', 'u'] for i in range(len(values))])
                gd.population.fill()
                ga.HyperbolaFitness(obj_function=lambda g: (1, values[g[0]] * z), penalty=pen, conditions=['optimize', sign]).execute(gd)
                seen.append({'best': gd.best_solution['feasible'], 'members': [[i['genotype'][0], repr(float(i['score'])), i['feasible']] for i in gd.population]})
        if len(seen) == 2:
            pair(ctx, seen[0], seen[1], 'eq', f'violations scaled by a power of two, {kind} {sign}', {'scale': e, 'tops': tops, 'coefs': coefs, 'power': power})


def unbounded_violations(ctx):
    """a constraint value without bound is a violation like any other; so is no bound the other way"""
    inf = math.inf
    for sign, pen in itertools.product(('<=', '!='), ('dyn', 'ada', 'usr')):
        vals = [inf, -inf, 0, -1, 2]
        lay = ['opt', 'le' if sign == '<=' else 'eq']
        penf, _ = gen.penalty_for(ctx.rng, lay, pen)
        if pen == 'usr':
            penf, _ = gen.user_penalty([2])
        with ctx.guard('constraint values without bound'), contextlib.redirect_stdout(io.StringIO()):
            run = baumeva.CategoricalGA(num_generations=1, num_individ=5, gens=[[0], vals, [0, 1]], obj_function=lambda g: (g[0], g[1]),
                                        penalty=penf(), conditions=['optimize', sign], is_print=False, input_population=[[0, v, 0] for v in vals])
            gd = run.optimize()
            got = sorted([ascii(i['genotype'][1]), bool(i['feasible'])] for i in gd.population)
            pair(ctx, got, sorted([ascii(v), v <= 0 if sign == '<=' else v == 0] for v in vals), 'eq', f'feasibility of unbounded values ({sign}, {pen})')


def constraint_grid(ctx, lay, pen, entry, huge=False, halves=False):
    """a categorical problem whose genes are the constraint values themselves; the first generation holds every one"""
    rng = ctx.rng
    s = gen.make_setup(rng, kind='cat', constrained=False, entry=entry)
    cons = [c for c in lay if c != 'opt']
    small = rng.choice([1, 1, 2])       # constraint values in steps of 1 or 1/2
    gens = [[0, 1, 2, 3]] + [[v / 2 for v in range(-3, 5)] if small == 2 else [-2, -1, 0, 1, 2, 3] if pen != 'sta' else list(range(-6, 8)) for _ in cons] + [[0, 1]]
    s.problem = pr = Problem('cat', gens)
    s.cond, s.conditions = lay, [gen.SIGNS[c] for c in lay]
    s.pen = pen
    s.penf, s.pencfg = gen.penalty_for(rng, lay, pen, huge=huge, halves=halves)
    if halves:
        small = 1
        for k in range(len(cons)):
            gens[1 + k] = pr.pools[1 + k] = [-9, -4, 0, 1, 4, 9, 16]
    if huge:                            # violations far from the usual ones (bounded by the arithmetic of TLC)
        top = 20000 if pen == 'usr' or s.pencfg.get('be') == 1 else 3000
        gens[1] = [-top, -7, 0, 9, 100, 101, top // 3, top - 1, top]
        small = 1
        pr.pools[1] = gens[1]
    grid = list(itertools.product(*gens[1:-1]))
    if len(grid) > 36:
        grid = rng.sample(grid, 36)
    s.inputs = [[rng.randint(0, 3)] + list(g) + [rng.randint(0, 1)] for g in grid]
    s.N = max(4, len(grid))
    s.inputs = s.inputs[:s.N]
    s.G, s.es, s.es_eff, s.cp, s.ts, s.lvl = 5, None, 5, (1, 2), 2, 0.3
    if s.N % 2:
        s.cp = (1, 1)
    s.sel, s.cross, s.mut = 'tour', 'uni', 'cat'
    s.target = rng.choice([None, 0, 1, 2]) if not huge else None
    s.data, s.vd, s.float_obj = None, small, False
    zero = rng.choice([True, False])     # also functions returning floats

    def values(g):
        it = iter(g[1:])
        return [g[0] if c == 'opt' else next(it) for c in lay]
    s.values = values
    s.result = lambda g: tuple(float(v) for v in values(g)) if zero else list(values(g))
    return s


def grid_inputs(pr):
    """every grid point of every gene (genes combined by running through them in parallel)"""
    sizes = [2 ** b for b in pr.bits]
    m = max(sizes)
    out = []
    for k in range(m):
        out.append([lo + (k * 7 % sz if i else k % sz) * (hi - lo) / (sz - 1) for i, ((lo, hi, st), sz) in
                    enumerate(zip(pr.gens, sizes))])
    return [[min(max(x, min(g[0], g[1])), max(g[0], g[1])) for x, g in zip(v, pr.gens)] for v in out]


def fill_line(ctx, pr, N, inputs):
    s = gen.Setup()
    s.kind, s.problem, s.inputs = pr.kind, pr, inputs
    cfg = base_cfg(pr, N=N, inputs=gen.input_cfg(s))
    rec = Recorder(pr, cfg)
    rec.reseed = ctx.fresh_seed()
    with recording(rec):
        try:
            with time_limit(20):
                pop = pr.pop_class()()
                pop.set_params(num_individ=N, gens=pr.gens, input_population=inputs)
                pop.fill()
        except Exception as e:            # noqa
            rec.failed(e)
    ctx.add(rec.finish(), {'gens': repr(pr.gens), 'kind': pr.kind, 'N': N, 'inputs': repr(inputs)[:200]})


def C06(ctx):
    layouts = [(g,) for g in gen.BIN_GENES] + [((0, 1, 0.001),), ((-16, 16, 0.5), (0, 1, 1), (5, 8, 1))]
    layouts += [tuple(ctx.rng.choice(gen.BIN_GENES) for _ in range(k)) for k in (2, 2, 3, 3, 4, 5)]
    # every number of steps up to 70 (thorough 300), so that every threshold of the number of bits is crossed
    for k in range(1, ctx.n(70, 300)):
        lo = ctx.rng.choice([0, -3, 10])
        layouts.append(((lo, lo + k, 1),))
    for k in range(1, ctx.n(20, 60)):
        lo, st = ctx.rng.choice([(0, 0.5), (-2, 0.25), (1, 2), (0, 3), (-7, 4)])
        layouts.append(((lo, lo + k * st, st), (0, 2, 1)))
        if k > 1:
            layouts.append(((lo, lo + (k - 0.5) * st, st),))
    for kind in ('bin', 'gray'):
        for g in layouts:
            if ctx.hung():
                return
            pr = Problem(kind, g)
            if max(pr.bits) <= 10:
                inp = grid_inputs(pr)
                fill_line(ctx, pr, len(inp), inp)
            fill_line(ctx, pr, 6, None)
    # wide genes: ends, neighbours of powers of two, random points
    for kind in ('bin', 'gray'):
        for g in gen.BIN_WIDE + gen.TINY_GENES + [(0, 2 ** 17, 1), (-100, 100, 0.001)]:
            pr = Problem(kind, (g, (0, 3, 1)))
            top = 2 ** pr.bits[0] - 1
            ks = sorted({0, 1, 2, top, top - 1, top // 2, top // 2 + 1} | {2 ** j for j in range(pr.bits[0])}
                        | {2 ** j - 1 for j in range(pr.bits[0])} | {ctx.rng.randint(0, top) for _ in range(20)})
            inp = [[min(max(g[0] + k * (g[1] - g[0]) / top, g[0]), g[1]), k % 4] for k in ks]
            fill_line(ctx, pr, len(inp), inp)
    # genes of up to 52 bits
    for _ in range(ctx.n(30, 300)):
        wide_genes(ctx)
    runs(ctx, ctx.n(120, 1500), kind=('bin', 'gray'))
    runs(ctx, ctx.n(6, 40), kind=('bin', 'gray'), big=SHAPES)
    multi_runs(ctx, ctx.n(30, 300))


def wide_genes(ctx):
    R = ctx.rng
    kind = R.choice(['bin', 'gray'])
    bits = [R.choice([R.randint(14, 45), R.randint(31, 52)]) for _ in range(R.randint(1, 3))]
    gens = tuple((lo, lo + 2 ** b - 1, 1) for b, lo in ((b, R.choice([0, 0, -(2 ** (b - 1)), 5])) for b in bits))
    with ctx.guard('genes of many bits'):
        set_seed(ctx.fresh_seed())
        pop = (ga.BinaryPopulation if kind == 'bin' else ga.BinaryGrayPopulation)()
        pop.set_params(num_individ=12, gens=gens, input_population=R.choice([None, [[g[0] for g in gens], [g[1] for g in gens], [R.randint(g[0], g[1]) for g in gens]]]))
        pop.fill()
        for i in pop:
            pos = 0
            for j, (b, (lo, hi, _)) in enumerate(zip(bits, gens)):
                g = i['genotype'][pos:pos + b]
                pos += b
                x = i['phenotype'][j]
                ctx.add({'cfg': {'type': 'wide'}, 'I': [], 'ev': [{'kind': kind, 'nb': b, 'g': [{'0': 0, '1': 1}.get(c, 9) for c in g],
                         'p': [int(c) for c in format(int(round(x)) - lo, f'0{b}b')] if abs(x - round(x)) < 1e-2 and lo <= round(x) <= hi else []}]},
                        {'gens': repr(gens), 'individual': repr(i)[:300]})
            pair(ctx, [pos, len(bits)], [len(i['genotype']), len(i['phenotype'])], 'eq', 'lengths of genotype and decoded values', {'gens': repr(gens)})


def wide_inputs(ctx):
    """inputs for genes of many bits, on their points: decoded to themselves"""
    R = ctx.rng
    kind = R.choice(['bin', 'gray'])
    bits = [R.choice([R.randint(14, 45), R.randint(31, 52)]) for _ in range(R.randint(1, 3))]
    gens = tuple((lo, lo + 2 ** b - 1, 1) for b, lo in ((b, R.choice([0, 0, -(2 ** (b - 1)), 5])) for b in bits))
    ins = [[R.choice([lo, hi, lo + 1, lo + R.randint(0, 300), R.randint(lo, hi), hi - 1, lo + 2 ** R.randint(0, b - 1)]) for b, (lo, hi, _) in zip(bits, gens)] for _ in range(8)]
    with ctx.guard('inputs for genes of many bits'):
        set_seed(ctx.fresh_seed())
        pop = (ga.BinaryPopulation if kind == 'bin' else ga.BinaryGrayPopulation)()
        pop.set_params(num_individ=10, gens=gens, input_population=ins)
        pop.fill()
        pair(ctx, sorted([str(int(round(x))) for x in i['phenotype']] for i in pop if [round(x) for x in i['phenotype']] in ins),
             sorted([str(x) for x in i] for i in ins), 'eq', 'inputs of wide genes', {'gens': repr(gens), 'kind': kind, 'inputs': repr(ins)})


def C07(ctx):
    for _ in range(ctx.n(25, 300)):
        wide_inputs(ctx)
    for _ in range(ctx.n(250, 3000)):
        if ctx.hung():
            return
        kind = ctx.rng.choice(['bin', 'gray', 'cat', 'ord'])
        pr = gen.make_problem(ctx.rng, kind)
        N = ctx.rng.choice([1, 2, 5, 10, 25])
        k = ctx.rng.choice([0, 1, N // 2, N])
        inp = [gen.random_genes(ctx.rng, pr) for _ in range(k)] or None
        if pr.items is not None:
            inp = [gen.random_genes(ctx.rng, pr) for _ in range(N)]
        if inp and kind in ('bin', 'gray'):
            for ind in inp:                # points close to the middle between two grid points
                if ctx.rng.random() < 0.3:
                    i = ctx.rng.randrange(len(ind))
                    (lo, hi, st), nb = pr.gens[i], pr.bits[i]
                    h = (hi - lo) / (2 ** nb - 1)
                    ind[i] = min(max(lo + (ctx.rng.randint(0, 2 ** nb - 2) + 0.5 + ctx.rng.choice([-.1, .1, .02, -.02, .3, -.3])) * h, lo), hi)
        if inp and ctx.rng.random() < 0.3:
            inp = [tuple(i) for i in inp]
        if inp and ctx.rng.random() < 0.2:
            inp = tuple(inp)
        fill_line(ctx, pr, N, inp)
    for _ in range(ctx.n(16, 160)):           # large input populations, many genes
        kind = ctx.rng.choice(['bin', 'gray', 'cat', 'ord'])
        many = ctx.rng.random() < 0.6
        if kind in ('bin', 'gray'):
            pr = Problem(kind, tuple(ctx.rng.choice(gen.BIN_GENES) for _ in range(ctx.rng.randint(8, 24)))) if many else gen.make_problem(ctx.rng, kind)
        else:
            pr = gen.long_problem(ctx.rng, kind) if many else gen.make_problem(ctx.rng, kind)
        N = ctx.rng.choice([33, 40, 64, 77, 101] if many else [33, 70, 101, 130, 150])
        k = N if pr.items is not None else ctx.rng.choice([31, N - 1, N, N, N // 2])
        inp = [gen.random_genes(ctx.rng, pr) for _ in range(min(k, N))]
        if ctx.rng.random() < 0.3:            # equal inputs stay as many as they are
            inp = [list(inp[ctx.rng.randrange(max(2, len(inp) // 3))]) for _ in inp]
        fill_line(ctx, pr, N, inp)
    for _ in range(ctx.n(30, 300)):           # finer grids
        pr = Problem(ctx.rng.choice(['bin', 'gray']), tuple(ctx.rng.choice(gen.BIN_WIDE + gen.TINY_GENES + [(0, 2 ** ctx.rng.randint(13, 20) - 1, 1)] * 6) for _ in range(ctx.rng.randint(1, 5))))
        inp = [gen.random_genes(ctx.rng, pr) for _ in range(8)]
        fill_line(ctx, pr, ctx.rng.choice([8, 12, 40]), inp)
    runs(ctx, ctx.n(40, 400))
    # every individual of a small domain must be able to occur, also after input individuals
    doms = [('bin', ((0, 7, 1),)), ('bin', ((0, 3, 1), (0, 1, 1))), ('gray', ((0, 7, 1),)), ('gray', ((-1, 2, 1), (0, 1, 0.5))), ('bin', ((0, 5, 1),)),
            ('cat', [['a', 'b', 'c'], (1, 3, 1), ['x']]), ('cat', [(0, 10, 5), (0, 4, 3)]), ('cat', ((-2, 2, 2), ['p', 'q'], (5, 5, 1))),
            ('cat', [(-9, -2, 1), (-6, -2, 2), [None]]), ('cat', [(-4, 0, 4), (-7, -7, 1), (-10, -1, 4)]), ('ord', (-5, -2, 3)), ('ord', (-3, -1, 3)),
            ('bin', ((-9, -2, 1),)), ('gray', ((-1.5, -0.5, 0.5), (-1, 0, 1))),
            ('ord', (0, 2, 3)), ('ord', (1, 4, 2)), ('ord', (0, 3, 4)), ('ord', (-1, 1, 3))]
    for kind, g in doms:
        pr = Problem(kind, g)
        for with_inputs in (False, True):
            with ctx.guard('filling', 30):
                def draw():
                    set_seed(ctx.fresh_seed())
                    pop = pr.pop_class()()
                    inp = [gen.random_genes(ctx.rng, pr)] * 3 if with_inputs else None
                    pop.set_params(num_individ=50, gens=g, input_population=inp)
                    pop.fill()
                    return [tuple(pr.geno(i['genotype'])) for i in list(pop)[3 if with_inputs else 0:]]
                ctx.add({'cfg': base_cfg(pr, type='cover'), 'I': [], 'ev': [{'op': 'fill', 'outs': collect(draw)}]},
                        {'gens': repr(g), 'inputs': with_inputs})
    # large domains: every value at every position
    R = ctx.rng
    for kind, g in [('cat', [list(range(1000, 1000 + R.randint(60, 150))), (0, R.randint(60, 150), 1), (-300, 300, 7), ['only'], list('abcdefghijklmnopqrstuvwxyz')]),
                    ('ord', (R.choice([0, -20, 1000]),) * 2), (R.choice(['bin', 'gray']), ((0, 2 ** 30 - 1, 1), (-5, 5, 0.001), (0, 1, 0.25), (0, 4095, 1)))]:
        if kind == 'ord':
            g = (g[0], g[0] + R.randint(50, 140), R.randint(3, 9))
        pr = Problem(kind, g)
        with ctx.guard('filling', 40):
            seen = [set() for _ in range(pr.length)]
            for _ in range(10):
                set_seed(ctx.fresh_seed())
                pop = pr.pop_class()()
                pop.set_params(num_individ=500, gens=g)
                pop.fill()
                for i in pop:
                    c = pr.geno(i['genotype'])
                    for k, v in enumerate(c[:len(seen)]):
                        seen[k].add(v)
                    if len(c) != pr.length:
                        seen.append({-9})
            ctx.add({'cfg': base_cfg(pr, type='cover'), 'I': [], 'ev': [{'op': 'dom', 'seen': [sorted(x) for x in seen]}]}, {'gens': repr(g)[:200]})
    # inputs that must be rejected (and the closest ones that must not)
    for kind, (how, k) in itertools.product(['bin', 'gray', 'cat', 'ord'], [('ok', 4), ('ok', 5), ('ok', 6), ('ok', 9), ('short', 1), ('long', 1),
                                            ('low', 1), ('high', 1), ('short', 4), ('long', 4), ('low', 4), ('high', 4), ('barelylow', 2), ('barelyhigh', 2), ('hairlow', 3), ('hairhigh', 3), ('low', 1), ('high', 1)]):
        if how != 'ok' and kind in ('cat', 'ord'):
            continue
        for g in {'bin': [((0, 7, 1), (-2, 2, 0.5)), ((-5, -1, 1), (0, 5, 1))], 'cat': [[['a', 'b'], (0, 3, 1)]], 'ord': [(0, 4, 3)]}.get(kind if kind != 'gray' else 'bin'):
            pr = Problem(kind, g)
            inp = [gen.random_genes(ctx.rng, pr) for _ in range(k)]
            which = ctx.rng.randrange(k)
            bad_input(inp[which], how, g, ctx.rng)
            ok, what = 1, 'accepted'
            try:
                with time_limit(20):
                    pop = pr.pop_class()()
                    pop.set_params(num_individ=5, gens=g, input_population=inp)
                    pop.fill()
            except core.Timeout as e:
                ctx.fail('filling', e)
                continue
            except Exception as e:         # noqa
                ok, what = 0, str(e)[:80]
            x = reject_base(N=5, ninp=k, inputs='ok' if how == 'ok' else 'bad')
            ctx.add({'cfg': {'type': 'reject'}, 'I': [], 'ev': [{'x': x, 'ok': ok, 'what': ascii(f'{kind} {how} {k} inputs: {what}')}]}, {'inputs': repr(inp)})


def reject_base(**kw):
    x = {'lvl': {'t': 'float', 'v': '', 'n': 350}, 'tp': 'best', 'sel': 'tour', 'ts': 2, 'N': 5, 'ninp': 0, 'inputs': 'ok', 'pen': 'none',
         'b1': 11, 'b2': 12, 'tables': 'equal', 'signs': 'known', 'form': 'seq', 'values': 1, 'expected': 1}
    x.update(kw)
    return x


def bad_input(ind, how, g, rng):
    if how == 'ok':
        return
    i = rng.randrange(len(ind))
    lo, hi, st = g[i]
    if how == 'short':
        del ind[i]
    elif how == 'long':
        ind.insert(i, ind[i] if i < len(ind) else 0)
        ind[-1] = g[-1][0]
    elif how == 'low':
        ind[i] = lo - st
    elif how == 'high':
        ind[i] = hi + st
    elif how == 'barelylow':
        ind[i] = lo - st * 0.01
    elif how == 'barelyhigh':
        ind[i] = hi + st * 0.01
    elif how == 'hairlow':
        ind[i] = math.nextafter(lo, -math.inf)
    elif how == 'hairhigh':
        ind[i] = math.nextafter(hi, math.inf)


def C08(ctx):
    runs(ctx, ctx.n(260, 2500))
    runs(ctx, ctx.n(60, 800), kind='ord', entry=('collector', 'adv', 'facade'))
    runs(ctx, ctx.n(60, 800), kind='cat')
    runs(ctx, ctx.n(40, 500), small=True)
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    runs(ctx, ctx.n(4, 40), kind='ord', big='long', entry=('collector', 'adv', 'facade'))
    for kind in ('cat', 'bin', 'ord'):
        for _ in range(ctx.n(3, 30)):
            s = gen.make_setup(ctx.rng, kind=kind, big='long', entry=ctx.rng.choice(['collector', 'adv', 'facade']))
            s.lvl = ctx.rng.choice([1.0, 0.5, 0.2])
            ctx.run(s)
    multi_runs(ctx, ctx.n(30, 300))


def collect(draw):
    """outcomes of draw() (a batch per call) until nothing new has come for a long time"""
    outs, idle = set(), 0
    while idle < 60 * len(outs) + 1000:
        batch = draw()
        new = set(batch) - outs
        outs |= new
        idle = 0 if new else idle + len(batch)
    return sorted(map(list, outs))


def marker_population(pr, inds, num=None):
    pop = pr.pop_class()()
    pop.set_params(num_individ=len(inds), gens=pr.gens, input_population=inds)
    pop.fill()
    if num is not None:
        pop.num_individ = num
    return pop


def cross_outcomes(ctx, op, pr, a, b, K=40, pick=None):
    """genotypes of all children of the pair (a, b)"""
    gd = ga.GaData(num_generations=3, children_percent=1.0)
    set_seed(ctx.fresh_seed())
    gd.population = marker_population(pr, [a, b])
    for i in gd.population:
        i['score'], i['obj_score'] = 1, 1
    gd.parents = marker_population(pr, [a, b] * K)
    grow_old(ctx, gd)
    cr = getattr(ga, gen.CROSS[op])()
    if ctx.rng.random() < 0.6:              # an operator that has served populations of other lengths
        cr = ctx.used.setdefault(op, cr)

    def draw():
        set_seed(ctx.fresh_seed())
        cr.execute(gd)
        return [tuple(pr.geno(i['genotype'])) for i in gd.children if pick is None or i is gd.children[pick]]
    return collect(draw)


def C09(ctx):
    for op in ('one', 'two', 'uni'):
        for L in range(3, ctx.n(7, 9)):
            pools = [['a%d' % i, 'b%d' % i] for i in range(L)]
            pr = Problem('cat', pools)
            pairs = [([p[0] for p in pools], [p[1] for p in pools])]
            for _ in range(ctx.n(1, 6)):
                pairs.append(([ctx.rng.choice(p) for p in pools], [ctx.rng.choice(p) for p in pools]))
            for a, b in pairs:
                with ctx.guard('crossover ' + op):
                    outs = cross_outcomes(ctx, op, pr, a, b)
                    ctx.add({'cfg': base_cfg(pr, type='cover', cross=op), 'I': [], 'ev': [{'op': 'cross', 'a': pr.geno(a), 'b': pr.geno(b), 'outs': outs}]},
                            {'op': op, 'a': a, 'b': b})
        for kind in ('bin', 'gray'):
            pr = Problem(kind, ((0, 15, 1),))
            for _ in range(ctx.n(3, 20)):
                a, b = [ctx.rng.randint(0, 15)], [ctx.rng.randint(0, 15)]
                with ctx.guard('crossover ' + op):
                    outs = cross_outcomes(ctx, op, pr, a, b)
                    bits = lambda x: [int(c) for c in format(x[0] ^ (x[0] >> 1) if kind == 'gray' else x[0], '04b')]
                    ctx.add({'cfg': base_cfg(pr, type='cover', cross=op), 'I': [], 'ev': [{'op': 'cross', 'a': bits(a), 'b': bits(b), 'outs': outs}]},
                            {'op': op, 'a': a, 'b': b, 'kind': kind})
    for size, extra in ((3, 0), (4, 0), (3, 1), (5, 0)) if ctx.tier == QUICK else ((3, 0), (4, 0), (3, 1), (3, 2), (4, 1), (5, 0), (6, 0)):
        for b in ctx.family('perm', size, dim=extra, cap=ctx.n(24, 150)):
            pr = Problem('ord', (0, size - 1 + extra, size))
            with ctx.guard('order crossover'):
                outs = cross_outcomes(ctx, 'order', pr, list(range(size)), b)
                ctx.add({'cfg': base_cfg(pr, type='cover', cross='order'), 'I': [],
                         'ev': [{'op': 'cross', 'a': list(range(size)), 'b': b, 'outs': outs}]}, {'b': b})
    # every child can come from every pair of a generation
    for op, kind in (('one', 'cat'), ('two', 'bin'), ('uni', 'gray'), ('order', 'ord')):
        for K, pick in ((1, 0), (2, 1), (4, 2), (7, -1)):
            if ctx.tier == QUICK and ctx.shard != (K + len(op)) % 4:
                continue
            pr = Problem('cat', [['a%d' % i, 'b%d' % i] for i in range(4)]) if kind == 'cat' else Problem('ord', (0, 3, 4)) if kind == 'ord' else Problem(kind, ((0, 15, 1),))
            a, b = {'cat': (['a0', 'a1', 'a2', 'a3'], ['b0', 'b1', 'b2', 'b3']), 'ord': ([0, 1, 2, 3], [2, 0, 3, 1])}.get(kind, ([0], [10 if kind == 'gray' else 15]))
            ca, cb = (pr.geno(a), pr.geno(b)) if kind in ('cat', 'ord') else ([0] * 4, [1] * 4)
            with ctx.guard('crossover ' + op, 30):
                outs = cross_outcomes(ctx, op, pr, a, b, K=K, pick=pick)
                ctx.add({'cfg': base_cfg(pr, type='cover', cross=op), 'I': [], 'ev': [{'op': 'cross', 'a': ca, 'b': cb, 'outs': outs}]},
                        {'op': op, 'a': a, 'b': b, 'pairs': K, 'pair': pick})
    long_crossovers(ctx)
    runs(ctx, ctx.n(3, 30), kind='ord', big='long', entry=('collector', 'adv', 'facade'))
    for _ in range(ctx.n(2, 20)):
        s = gen.make_setup(ctx.rng, kind='ord', constrained=False, entry=ctx.rng.choice(['collector', 'adv', 'facade']), sel='tour')
        L = ctx.rng.randint(44, 75)
        s.problem = Problem('ord', (-3, L + ctx.rng.choice([-4, -4, 9]), L))
        s.N, s.ts, s.G, s.cp, s.lvl = 12, 2, 3, (1, 1), 0.1
        resize(ctx, s)
        ctx.run(s)
    runs(ctx, ctx.n(200, 2000), entry=('collector', 'adv', 'facade'))
    runs(ctx, ctx.n(40, 400), kind='ord')
    runs(ctx, ctx.n(8, 80), big='long', entry=('collector', 'adv', 'facade'))
    runs(ctx, ctx.n(4, 60), big=SHAPES)
    multi_runs(ctx, ctx.n(20, 200))


def long_crossovers(ctx):
    """long genotypes: all children of one-point, two-point and order crossover, values at pairs of positions of uniform crossover"""
    R = ctx.rng
    for op, L in (('one', R.randint(30, 60)), ('one', R.randint(9, 20)), ('two', R.randint(9, 16)), ('two', ctx.n(12, 20))):
        pr = Problem('cat', [['a%d' % i, 'b%d' % i] for i in range(L)])
        a, b = [p[0] for p in pr.pools], [p[1] for p in pr.pools]
        with ctx.guard('crossover ' + op, 40):
            outs = cross_outcomes(ctx, op, pr, a, b)
            ctx.add({'cfg': base_cfg(pr, type='cover', cross=op), 'I': [], 'ev': [{'op': 'cross', 'a': pr.geno(a), 'b': pr.geno(b), 'outs': outs}]},
                    {'op': op, 'L': L})
    for L in (R.randint(9, 14), ctx.n(11, 16)):
        pr = Problem('ord', (0, L - 1 + R.choice([0, 3]), L))
        a, b = gen.random_genes(R, pr), gen.random_genes(R, pr)
        with ctx.guard('order crossover', 40):
            outs = cross_outcomes(ctx, 'order', pr, a, b)
            ctx.add({'cfg': base_cfg(pr, type='cover', cross='order'), 'I': [], 'ev': [{'op': 'cross', 'a': a, 'b': b, 'outs': outs}]}, {'a': a, 'b': b})
    L = R.randint(140, 200)
    pr = Problem('cat', [['a%d' % i, 'b%d' % i] for i in range(L)])
    a, b = [p[0] for p in pr.pools], [p[1] for p in pr.pools]
    for op in ('one', 'two'):               # a cut between any two neighbouring positions
        with ctx.guard('crossover ' + op, 60):
            kids = cross_sample(ctx, op, pr, a, b, 10000)
            at = [(i, i + 1) for i in range(L - 1)]
            seen = [sorted(map(list, {(k[i], k[j]) for k in kids if len(k) == L})) for i, j in at]
            ctx.add({'cfg': base_cfg(pr, type='cover', cross=op), 'I': [],
                     'ev': [{'op': 'at', 'a': pr.geno(a), 'b': pr.geno(b), 'at': [[i + 1, j + 1] for i, j in at], 'seen': seen, 'lens': sorted({len(k) for k in kids})}]},
                    {'op': op, 'L': L})
    for L in (R.randint(14, 20), R.randint(30, 60), R.randint(140, 200)):
        if R.random() < 0.5:
            pr = Problem('cat', [['a%d' % i, 'b%d' % i] for i in range(L)])
            a, b = [p[0] for p in pr.pools], [p[1] for p in pr.pools]
            ca, cb = pr.geno(a), pr.geno(b)
        else:
            pr = Problem('bin', ((0, 15, 1),) * (L // 4))
            a, b = [0] * (L // 4), [15] * (L // 4)
            ca, cb = [0] * pr.length, [1] * pr.length
        with ctx.guard('crossover uni', 40):
            kids = cross_sample(ctx, 'uni', pr, a, b, 600)
            n = pr.length
            at = [(i, (i + d) % n) for i in range(n) for d in (1, R.randint(2, n - 2))]
            seen = [sorted(map(list, {(k[i], k[j]) for k in kids if len(k) == n})) for i, j in at]
            ctx.add({'cfg': base_cfg(pr, type='cover', cross='uni'), 'I': [],
                     'ev': [{'op': 'at', 'a': ca, 'b': cb, 'at': [[i + 1, j + 1] for i, j in at], 'seen': seen, 'lens': sorted({len(k) for k in kids})}]},
                    {'op': 'uni', 'L': n})


def cross_sample(ctx, op, pr, a, b, n, K=40):
    gd = ga.GaData(num_generations=3, children_percent=1.0)
    set_seed(ctx.fresh_seed())
    gd.population = marker_population(pr, [a, b])
    for i in gd.population:
        i['score'], i['obj_score'] = 1, 1
    gd.parents = marker_population(pr, [a, b] * K)
    grow_old(ctx, gd)
    cr = getattr(ga, gen.CROSS[op])()
    kids = []
    while len(kids) < n:
        set_seed(ctx.fresh_seed())
        cr.execute(gd)
        kids += [tuple(pr.geno(i['genotype'])) for i in gd.children]
    return kids


def mutation_fixture(ctx, pr, inds, children):
    gd = ga.GaData(num_generations=3, children_percent=1.0)
    set_seed(ctx.fresh_seed())
    gd.population = marker_population(pr, inds)
    gd.parents = marker_population(pr, inds)
    gd.children = marker_population(pr, children)
    grow_old(ctx, gd)
    return gd


def C10(ctx):
    for op, kind, L in [(o, 'ord', L) for o in ('swap', 'move', 'inv', 'shift') for L in range(3, ctx.n(7, 8))] + \
                       [(o, 'ord', L) for k, o in enumerate(('swap', 'move', 'inv')) for L in (12, (20 if k != ctx.shard else 32) if ctx.tier == QUICK else 40)] + [('shift', 'ord', ctx.n(11, 16))] + [('shift', 'ord', 19)] * (ctx.tier != QUICK or ctx.shard == 1) + [('shift', 'ord', 28)] * (ctx.tier != QUICK or ctx.shard == 3) + \
                       [('bit', 'bin', 3), ('bit', 'gray', 4), ('bit', 'bin', 5), ('cat', 'cat', 3), ('cat', 'cat', 4), ('cat', 'cat', 6)]:
        for extra in ((0, 2) if kind == 'ord' and L < 8 else (0,)):
            if kind == 'ord':
                pr = Problem('ord', (0, L - 1 + extra, L))
                a = ctx.rng.sample(range(L + extra), L)
                code = a
            elif kind == 'cat':
                pr = Problem('cat', [['a', 'b'], (1, 3, 1), ['z'], ['x', 'y', 'w'], (0, 4, 2)][:L] if L < 6 else
                             [[1, '1', 2], ['z'], [2.5, '2.5'], [None, 'None', 0], [(1, 2), 'b'], [0, 1]])
                a = gen.random_genes(ctx.rng, pr)
                code = pr.geno(a)
            else:
                pr = Problem(kind, ((0, 2 ** L - 1, 1),))
                a = [ctx.rng.randint(0, 2 ** L - 1)]
                code = [int(c) for c in format(a[0] ^ (a[0] >> 1) if kind == 'gray' else a[0], f'0{L}b')]
            for lv in ((0.8, 1.0) if kind == 'ord' and L < 8 else (1.0,) if kind == 'ord' else (0.5,)):
                with ctx.guard('mutation ' + op, 30):
                    mu = getattr(ga, gen.MUTS[op])(lv)
                    if ctx.rng.random() < 0.6:
                        mu = ctx.used.setdefault((op, lv), mu)

                    def draw():
                        gd = mutation_fixture(ctx, pr, [a, a], [a] * 40)
                        mu.execute(gd)
                        return [tuple(pr.geno(i['genotype'])) for i in gd.children]
                    ctx.add({'cfg': base_cfg(pr, type='cover', mut=op), 'I': [],
                             'ev': [{'op': 'mut1' if lv == 1.0 else 'mut', 'a': code, 'outs': collect(draw)}]},
                            {'op': op, 'a': repr(a), 'level': lv})
    runs(ctx, ctx.n(220, 2200), entry=('collector', 'adv', 'facade'))
    runs(ctx, ctx.n(80, 800), kind='ord', entry=('collector', 'adv'))
    runs(ctx, ctx.n(8, 80), big='long', entry=('collector', 'adv', 'facade'))
    runs(ctx, ctx.n(4, 60), big=SHAPES)
    for lvl in (1.0, 0.0, 'strong'):
        for _ in range(ctx.n(30, 300)):
            s = gen.make_setup(ctx.rng, kind=ctx.rng.choice(['bin', 'cat', 'ord', 'ord', 'ord']), entry=ctx.rng.choice(['collector', 'adv']))
            s.lvl = lvl
            ctx.run(s)
    crowds_at_level_one(ctx)
    for kind in ('bin', 'gray', 'cat', 'ord'):
        for _ in range(ctx.n(1, 10)):
            s = gen.make_setup(ctx.rng, kind=kind, entry=ctx.rng.choice(['collector', 'adv']), big='long')
            s.lvl = 1.0
            ctx.run(s)
    # long lists and ranges: every other value can come
    pools = [list(range(1000, 1000 + ctx.rng.randint(60, 150))), (0, ctx.rng.randint(60, 150), 1), (-300, 300, 7), ['only'], list('abcdefghijklmnopqrstuvwxyz')]
    pr = Problem('cat', pools)
    a = gen.random_genes(ctx.rng, pr)
    with ctx.guard('categorical mutation', 40):
        mu, seen = ga.CategoricalMutation(1.0), [set() for _ in pools]
        for _ in range(120):
            gd = mutation_fixture(ctx, pr, [a, a], [a] * 40)
            mu.execute(gd)
            for i in gd.children:
                for k, v in enumerate(pr.geno(i['genotype'])):
                    seen[k].add(v)
        ctx.add({'cfg': base_cfg(pr, type='cover', mut='cat'), 'I': [], 'ev': [{'op': 'mutdom', 'a': pr.geno(a), 'seen': [sorted(x) for x in seen]}]},
                {'gens': repr(pools)[:200]})


def crowds_at_level_one(ctx):
    """hundreds of children, all of them mutated"""
    for k in range(ctx.n(3, 30)):
        s = gen.make_setup(ctx.rng, kind=('cat', 'bin', 'ord')[k % 3], entry=ctx.rng.choice(['collector', 'adv', 'facade']), big='crowd')
        s.lvl, s.N, s.cp, s.G, s.inputs = 1.0, ctx.rng.randint(150, 300), (1, 1), 2, None
        s.es_eff = s.es if s.es is not None else s.G
        if s.problem.items is None:
            ctx.run(s)


LEVELS11 = [0.0, 0.001, 0.01, 0.05, 0.1, 0.25, 0.35, 0.5, 0.75, 0.9, 0.999, 1.0]


def mut_stat(ctx, op, pr, inds, level, pn, pd, execs, mu=None, what=''):
    """hits per position (or per child) over many executions; children are mutated again and again"""
    with ctx.guard(f'mutation {op} {level}', 20):
        mu = mu or getattr(ga, gen.MUTS[op])(level)
        per_child = op in ('swap', 'move', 'inv', 'shift')
        L = pr.length
        pos = [0] if per_child else [i for i in range(L) if pr.kind != 'cat' or len(pr.pools[i]) > 1]
        hits, joint, n = [0] * len(pos), [0] * max(0, len(pos) - 1), 0
        K = ctx.rng.choice([40, 40, 11, 75, 130])
        gd = mutation_fixture(ctx, pr, inds, [inds[0]] * K)
        for _ in range(max(1, execs * 40 // K)):
            pre = [list(i['genotype']) for i in gd.children]
            set_seed(ctx.fresh_seed())
            mu.execute(gd)
            post = [list(i['genotype']) for i in gd.children]
            for x, y in zip(pre, post):
                d = [x != y] if per_child else [x[i] != y[i] for i in pos]
                n += 1
                for i, h in enumerate(d):
                    hits[i] += h
                    if i and h and d[i - 1]:
                        joint[i - 1] += 1
            if per_child:                   # neighbouring children
                dd = [x != y for x, y in zip(pre, post)]
                joint = joint or [0]
                joint[0] += sum(1 for i in range(0, len(dd) - 1, 1) if dd[i] and dd[i + 1]) + (1 if dd[-1] and dd[0] else 0)
        ctx.add({'cfg': {'type': 'mutstat'}, 'I': [], 'ev': [{'hits': hits, 'joint': joint, 'n': n, 'pn': pn, 'pd': pd}]},
                {'op': op, 'level': level, 'gens': repr(pr.gens)[:100], 'what': what})


def C11(ctx):
    R = ctx.rng
    ex = ctx.n(250, 1500)
    binp = Problem('bin', ((0, 1023, 1),))
    grp = Problem('gray', ((0, 7, 1), (0, 15, 1)))
    catp = Problem('cat', [list('abcd'), (1, 9, 1), ['z'], ['x', 'y'], (0, 4, 2), list('pqrstu')])
    ordp = Problem('ord', (0, 9, 7))
    jobs = []
    for lv in LEVELS11:
        jobs += [('bit', binp, lv), ('cat', catp, lv)]
        ops = ['swap', 'move', 'inv', 'shift']
        jobs += [(o, ordp, lv) for o in (ops if ctx.tier != QUICK else R.sample(ops, 2))]
    for op, pr, lv in jobs:
        inds = [gen.random_genes(R, pr) for _ in range(2)]
        mut_stat(ctx, op, pr, inds, lv, int(round(lv * 1000)), 1000, ex)
    # levels with three decimals, many children
    for op, pr, lv in [(R.choice(['swap', 'move', 'inv', 'shift']), ordp, lv) for lv in (0.005, 0.015, 0.995)] + [('bit', grp, 0.005), ('cat', catp, 0.995)]:
        inds = [gen.random_genes(R, pr) for _ in range(2)]
        mut_stat(ctx, op, pr, inds, lv, int(round(lv * 1000)), 1000, ctx.n(1000, 1400))
    # named levels, on several lengths, with one operator object serving several of them
    for name, a in (('weak', 3), ('normal', 10), ('strong', 30)):
        shared = {'bit': ga.BinStringMutation(name), 'cat': ga.CategoricalMutation(name)}
        for g in [((0, 7, 1),), ((0, 1023, 1),), ((0, 2 ** 15, 1), (0, 15, 1)), ((0, 15, 1),) * 6][:ctx.n(3, 4)]:
            pr = Problem(R.choice(['bin', 'gray']), g)
            inds = [gen.random_genes(R, pr) for _ in range(2)]
            mut_stat(ctx, 'bit', pr, inds, name, min(a, 10 * pr.length), 10 * pr.length, ex)
            mut_stat(ctx, 'bit', pr, inds, name, min(a, 10 * pr.length), 10 * pr.length, ex, mu=shared['bit'], what='shared operator')
        for g in [[list('abc')] * 3, [list('abc'), (1, 9, 1), ['z'], ['x', 'y'], (0, 4, 2)], [list('ab')] * 12, [(0, 9, 1)] * 31][:ctx.n(3, 4)]:
            pr = Problem('cat', g)
            inds = [gen.random_genes(R, pr) for _ in range(2)]
            mut_stat(ctx, 'cat', pr, inds, name, min(a, 10 * pr.length), 10 * pr.length, ex)
            mut_stat(ctx, 'cat', pr, inds, name, min(a, 10 * pr.length), 10 * pr.length, ex, mu=shared['cat'], what='shared operator')
        for op in ('swap', 'move', 'inv', 'shift'):
            for L in (4, 9, 25)[:ctx.n(2, 3)]:
                pr = Problem('ord', (0, L + 3, L))
                mut_stat(ctx, op, pr, [gen.random_genes(R, pr) for _ in range(2)], name, a, 100, ctx.n(200, 1500))
    # genotypes of some hundred bits or genes: 'weak' is one in a thousand there
    for name, a in (('weak', 3), ('normal', 10), ('strong', 30)):
        if ctx.tier == QUICK and ('weak', 'normal', 'strong')[ctx.shard % 3] != name:
            continue
        pr = Problem('bin', ((0, 2 ** 30 - 1, 1),) * 10)
        mut_stat(ctx, 'bit', pr, [gen.random_genes(R, pr) for _ in range(2)], name, a, 10 * pr.length, ctx.n(40, 250))
        pr = Problem('cat', [list('abc')] * 300)
        mut_stat(ctx, 'cat', pr, [gen.random_genes(R, pr) for _ in range(2)], name, a, 10 * pr.length, ctx.n(40, 250))
    crowds_at_level_one(ctx)
    for lvl in (0.0, 1.0):
        for _ in range(ctx.n(60, 600)):
            s = gen.make_setup(R)
            s.lvl = lvl
            ctx.run(s)
    for _ in range(ctx.n(10, 100)):
        s = gen.make_setup(R, kind=R.choice(['bin', 'gray']), objectives=2, sel=R.choice(['vtour', 'bal']))
        s.lvl = R.choice([0.0, 1.0])
        ctx.run(s)


def C12(ctx):
    runs(ctx, ctx.n(200, 2000), sel='tour')
    runs(ctx, ctx.n(40, 400), sel='tour', small=True)
    runs(ctx, ctx.n(6, 60), sel='tour', big=SHAPES)
    multi_runs(ctx, ctx.n(30, 300), sels=('tour',))
    for size in ((4,) if ctx.tier == QUICK else (3, 4, 5)):
        pats = ctx.family('weak', size, cap=ctx.n(40, 541))
        for s in pats:
            for ts in range(2, size):
                for extra in (0, 1):
                    if size - extra <= ts or ctx.hung():
                        continue
                    with ctx.guard('tournament selection'):
                        set_seed(ctx.fresh_seed())
                        val = spread(ctx.rng)
                        gd, pr, _ = fixture([val(v) for v in s], cp=1.0, extra=extra)
                        ps = draw_pairs(ctx, gd, ga.TournamentSelection(ts), ctx.n(100, 300))
                        flat = [p for e in ps for p in e]
                        ctx.add({'cfg': base_cfg(pr, type='cover', sel='tour', ts=ts), 'I': [],
                                 'ev': [{'op': 'sel', 's': s, 'outs': sorted({i + 1 for p in flat for i in p})}]}, {'scores': s, 'ts': ts})
                        stat_line(ctx, 'tourstat', s, flat, ts=ts)
    for N, ts in ((8, 2), (8, 3), (8, 7), (6, 5), (6, 3), (60, 3), (60, 58), (40, 2), (125, 3)):
        if N > 8 and ctx.tier == QUICK and ctx.shard != ts % 4:
            continue
        with ctx.guard('tournament selection', 30):
            set_seed(ctx.fresh_seed())
            sc = ctx.rng.sample(range(N), N)
            val = spread(ctx.rng)
            gd, pr, _ = fixture([val(v) for v in sc], cp=1.0, num_bits=3 if N <= 8 else 7)
            ps = draw_pairs(ctx, gd, ga.TournamentSelection(ts), ctx.n(400, 3000) if N <= 8 else 100)
            flat = [p for e in ps for p in e]
            stat_line(ctx, 'tourstat', sc, flat, ts=ts)
            if N > 8:                       # the weakest possible winners are too rare
                continue
            ctx.add({'cfg': base_cfg(pr, type='cover', sel='tour', ts=ts), 'I': [],
                     'ev': [{'op': 'sel', 's': sc, 'outs': sorted({i + 1 for p in flat for i in p})}]}, {'scores': sc, 'ts': ts})


EPS = [1, 1, 1e-4, 1e-9, 1e-13, 1e-17, 1e6]


def spread(rng):
    """objective values in the (reversed) order of given numbers: near to or far from each other"""
    base, eps = rng.choice([(0, e) for e in EPS] + [(5, 1), (-7, 1), (1, 1e-13), (-1000, 1e-11), (1, 1e-15)])
    return lambda v: base - v * eps


DIST = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9]


def C13(ctx):
    runs(ctx, ctx.n(120, 1200), sel=('bal', 'rank'), entry=('collector', 'adv'))
    runs(ctx, ctx.n(40, 400), sel=('bal', 'rank'), entry=('collector', 'adv'), small=True)
    runs(ctx, ctx.n(6, 60), sel=('bal', 'rank'), entry=('collector', 'adv'), big=SHAPES)
    multi_runs(ctx, ctx.n(40, 400), sels=('bal', 'rank'))
    t = ctx.n(400, 2000)
    for size in ((4,) if ctx.tier == QUICK else (3, 4, 5)):
        for s in ctx.family('weak', size, cap=ctx.n(20, 200)):
            if ctx.hung():
                return
            extra = ctx.rng.choice([0, 1])
            with ctx.guard('ranked selection', 30):
                set_seed(ctx.fresh_seed())
                val = spread(ctx.rng)
                gd, pr, _ = fixture([val(v) for v in s], cp=1.0, extra=extra)
                flat = [p for e in draw_pairs(ctx, gd, ga.RankedSelection(), t) for p in e]
                stat_line(ctx, 'selstat', s, flat, by='rank')
                cover(ctx, pr, 'rank', s, flat)
            with ctx.guard('balanced selection', 30):
                set_seed(ctx.fresh_seed())
                dist = sorted(ctx.rng.sample(DIST, max(s) + 1), reverse=True)
                w = [dist[v] for v in s]
                tgt = ctx.rng.choice([0, 4, -3])
                gd, pr, _ = fixture([tgt + ctx.rng.choice([-1, 1]) * d for d in w], cp=1.0, extra=extra, target=tgt)
                flat = [p for e in draw_pairs(ctx, gd, ga.BalancedSelection(), t) for p in e]
                stat_line(ctx, 'selstat', w, flat, by='dist')
                cover(ctx, pr, 'bal', [-d for d in w], flat)
    # ties at every place, and members with next to no chance, with more draws
    for s in [[0, 0, 1, 2], [0, 1, 1, 2], [0, 1, 2, 2], [0, 0, 1, 1], [0, 0, 0, 1], [0, 1, 1, 1], [0, 0, 1, 2, 2], [0, 1, 1, 2, 2]]:
        with ctx.guard('ranked selection', 30):
            set_seed(ctx.fresh_seed())
            ctx.rng.shuffle(s)
            val = spread(ctx.rng)
            gd, pr, _ = fixture([val(v) for v in s], cp=1.0, extra=ctx.rng.choice([0, 1]))
            stat_line(ctx, 'selstat', s, [p for e in draw_pairs(ctx, gd, ga.RankedSelection(), 1600) for p in e], by='rank')
    for w in [[0, 3, 10 ** 6, 10 ** 6], [1, 10 ** 6, 1, 1, 4], [0, 0, 10 ** 5, 10 ** 7]]:
        with ctx.guard('balanced selection', 30):
            set_seed(ctx.fresh_seed())
            ctx.rng.shuffle(w)
            gd, pr, _ = fixture(w, cp=1.0, target=0)
            stat_line(ctx, 'selstat', w, [p for e in draw_pairs(ctx, gd, ga.BalancedSelection(), 1600) for p in e], by='dist')
    # large generations
    k = ctx.shard
    for _ in range(ctx.n(1, 6)):
        k = (k + 1) % 4
        n = ctx.rng.randint(*[(35, 64), (101, 128), (101, 128), (260, 320)][k])
        bits, times = (7, 150) if n < 128 else (9, 60)
        with ctx.guard('ranked selection', 40):
            set_seed(ctx.fresh_seed())
            s = [ctx.rng.randint(0, n // 2) for _ in range(n)]
            val = spread(ctx.rng)
            gd, pr, _ = fixture([val(v) for v in s], cp=1.0, num_bits=bits)
            flat = [p for e in draw_pairs(ctx, gd, ga.RankedSelection(), times) for p in e]
            stat_line(ctx, 'selstat', s, flat, by='rank')
        with ctx.guard('balanced selection', 40):
            set_seed(ctx.fresh_seed())
            w = [ctx.rng.choice(DIST) for _ in range(n)]
            gd, pr, _ = fixture(w, cp=1.0, target=0, num_bits=bits)
            flat = [p for e in draw_pairs(ctx, gd, ga.BalancedSelection(), times) for p in e]
            stat_line(ctx, 'selstat', w, flat, by='dist')
    # FFGA: scores are 1/(1+rank), the generation is ordered by Pareto rank
    for vec in ctx.family('vec', 3, '{0,1}', 2, cap=ctx.n(6, 64)):
        vec = vec + [[2, 2], [0, 3]]
        with ctx.guard('selection in FFGA', 30):
            set_seed(ctx.fresh_seed())
            gd, pr, _ = fixture(vec, cp=1.0, algo='ffga')
            rk = [1 + sum(all(a <= b for a, b in zip(v, u)) and v != u for v in vec) for u in vec]
            flat = [p for e in draw_pairs(ctx, gd, ga.BalancedSelection(), t) for p in e]
            stat_line(ctx, 'selstat', rk, flat, by='dist')
            flat = [p for e in draw_pairs(ctx, gd, ga.RankedSelection(), t) for p in e]
            stat_line(ctx, 'selstat', [-r for r in rk], flat, by='rank')


def cover(ctx, pr, sel, s, flat, **kw):
    ctx.add({'cfg': base_cfg(pr, type='cover', sel=sel, **kw), 'I': [],
             'ev': [{'op': 'sel', 's': s, 'outs': sorted({i + 1 for p in flat for i in p})}]}, {'scores': s})


def C14(ctx):
    runs(ctx, ctx.n(150, 1500))
    runs(ctx, ctx.n(40, 400), small=True)
    multi_runs(ctx, ctx.n(60, 600), sels=('vtour', 'vbal', 'vrank'))
    multi_runs(ctx, ctx.n(10, 100), sels=('bal', 'tour'))
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    mob(ctx, kind=['bin', 'cat', 'ord', 'gray'][ctx.shard % 4], sel='tour', entry=['facade', 'collector', 'adv', 'facade'][ctx.shard % 4])
    # every share of children of small generations
    for N in range(3, ctx.n(9, 16)):
        for k in range(1, N + 1):
            for frac in (0.0, 0.5):
                if ctx.hung():
                    return
                cn, cd = int(100 * k + 100 * frac), 100 * N
                if cn > cd or gen.quota(cn, cd, N) is None:
                    continue
                s = gen.make_setup(ctx.rng, constrained=False, sel=ctx.rng.choice(['tour', 'rank']), entry=ctx.rng.choice(['facade', 'collector', 'adv']))
                s.N, s.cp, s.ts, s.G, s.es, s.es_eff = N, (cn, cd), 2, 4, None, 4
                s.inputs = [gen.random_genes(ctx.rng, s.problem) for _ in range(N)] if s.problem.items else None
                ctx.run(s)
    for N in range(4, ctx.n(10, 16)):
        for M in (2, 3):
            for k in range(1, N // M + 1):
                cn, cd = 100 * k * M + 30, 100 * N
                if cn > cd or gen.quota(cn, cd, N, M) is None or ctx.hung():
                    continue
                s = gen.make_setup(ctx.rng, kind=ctx.rng.choice(['bin', 'gray']), objectives=M, constrained=False,
                                   sel=ctx.rng.choice(['vtour', 'vrank']), entry=ctx.rng.choice(['collector', 'adv']))
                s.N, s.cp, s.ts, s.G, s.es, s.es_eff, s.inputs = N, (cn, cd), 2, 3, None, 3, None
                ctx.run(s)
    transfers(ctx, ctx.n(200, 3000), dup_sizes=(4,) if ctx.tier == QUICK else (3, 4, 5))


def C15(ctx):
    runs(ctx, ctx.n(180, 1800))
    runs(ctx, ctx.n(60, 600), small=True)
    runs(ctx, ctx.n(30, 300), float_obj=True, constrained=False)
    runs(ctx, ctx.n(20, 200), constrained=True)
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    runs(ctx, ctx.n(4, 40), constrained=True, big=SHAPES)
    runs(ctx, ctx.n(20, 200), float_obj=True)
    stalls(ctx, ctx.n(10, 120))
    throng(ctx, ctx.n(2, 10))
    ages(ctx, 3)
    sched(ctx, ctx.n(600, 2774))
    by_hand(ctx, ctx.n(250, None))
    if ctx.tier != QUICK:
        sched(ctx, 4000, N=3, K=1, G=6, V='{0, 1, 2}', S='{0, 1, 2}')
        sched(ctx, 4000, N=4, K=2, G=3, V='{0, 1, 2}', S='{1}')
    # long stagnation: stops exactly after early_stop+1 generations without improvement, or at the end
    for es, G, entry in itertools.product([None, 0, 1, 4, 10], [1, 2, 3, 13, 25], ['facade', 'collector', 'adv']):
        if ctx.hung():
            return
        s = gen.make_setup(ctx.rng, small=True, constrained=False, entry=entry, sel='tour')
        s.G, s.es, s.es_eff = G, es, es if es is not None else G
        if ctx.rng.random() < 0.6:
            s.values = lambda g, d=(s.data if isinstance(s.data, int) else 0): [3 + d]
            s.result = lambda g, f=s.values: f(g)[0]
            s.vd = 1
            s.target = None if s.target is None else int(s.target)
        ctx.run(s)


def C16(ctx):
    R = ctx.rng
    cases = ctx.enumerate('Seed', 'SPECIFICATION Spec\nCONSTANTS\n Seeds = {"none", "0", "1", "-7", "123456789", "2147483649", "18446744073709551617"}\n MaxForeign = 2\n Program <- Prog\n Rounds = 1\n'
                                  'INVARIANTS Reproducible Different Emit\nCHECK_DEADLOCK FALSE\n', ctx.n(250, None))
    setups = []
    for i in range(ctx.n(10, 60)):
        r = R.random()
        if r < 0.7:
            s = gen.make_setup(random.Random(f'{ctx.seed}/16/{i}'))
        else:
            sel = R.choice(['vtour', 'vbal', 'vrank', 'bal', 'tour', 'rank'])
            s = gen.make_setup(random.Random(f'{ctx.seed}/16/{i}'), kind=R.choice(['bin', 'gray']), objectives=2, sel=sel,
                               entry=None if sel in ('vtour', 'bal') else 'collector')
        setups.append(s)
    big = baumeva_wide(random.Random(f'{ctx.seed}/16/wide'))
    for c in cases:
        if ctx.hung():
            return
        seeds = [None if x == 'none' else int(x) for x in c['seed']]
        eq = c['want'] == 'eq'
        s = R.choice(setups) if eq else big
        ds = []
        for k in (0, 1):
            d, rec = run_digest(s, seeds[k], foreign=c['foreign'][k][0])
            ds.append(d if eq else rec.first)
            if R.random() < 0.5:            # something else in between
                other = R.choice(setups)
                run_digest(other, R.choice([None, 5]))
        pair(ctx, ds[0], ds[1], c['want'], 'two runs with seeds %s after %s foreign draws' % (c['seed'], c['foreign']), describe(s, str(c['seed'])))
    # the seed is set once, before the first of two runs
    for c in ctx.enumerate('Seed', 'SPECIFICATION Spec\nCONSTANTS\n Seeds = {"none", "0", "-7", "18446744073709551617"}\n MaxForeign = 1\n Program <- Short\n Rounds = 2\n'
                                   'INVARIANTS Reproducible Different Sticky Emit\nCHECK_DEADLOCK FALSE\n', ctx.n(60, None)):
        if ctx.hung():
            return
        seeds = [None if x == 'none' else int(x) for x in c['seed']]
        for k in (0, 1):
            s = R.choice(setups) if seeds[k] is not None else big
            baumeva.generator.rnd_seed = seeds[k]
            ds = []
            for r in (0, 1):
                d, rec = run_digest(s, KEEP, foreign=c['foreign'][k][r])
                ds.append(d if seeds[k] is not None else rec.first)
                if r == 0 and R.random() < 0.5:
                    run_digest(R.choice(setups), KEEP)
            pair(ctx, ds[0], ds[1], 'eq' if seeds[k] is not None else 'ne', 'two runs after the seed was set once', describe(s, str(seeds[k])))
            pair(ctx, str(seeds[k]), str(baumeva.generator.rnd_seed), 'eq', 'the seed after two runs', describe(s, str(seeds[k])))
    # whole configurations, repeated in this process
    for i in range(ctx.n(60, 600)):
        if ctx.hung():
            return
        s = gen.make_setup(random.Random(f'{ctx.seed}/16b/{i}/{ctx.shard}'), **({} if i % 10 else {'big': ['crowd', 'long', 'marathon', 'years'][i // 10 % 4]}))
        seed = R.choice([0, 1, -1, 42, 2 ** 40, -(2 ** 33), R.randint(-10 ** 6, 10 ** 6)])
        a, _ = run_digest(s, seed)
        random.seed(R.random())
        b, _ = run_digest(s, seed)
        pair(ctx, a, b, 'eq', 'repeated seeded run', describe(s, seed))
    # every combination of operators, on short and ordinary genotypes
    for kind in ('bin', 'gray', 'cat', 'ord'):
        for sel, cr, mu, short_ in itertools.product(('tour', 'bal', 'rank'), ('order',) if kind == 'ord' else ('one', 'two', 'uni'),
                                                     ('swap', 'move', 'inv', 'shift') if kind == 'ord' else ('cat',) if kind == 'cat' else ('bit',), (3, 4, 5, 0) if kind == 'ord' else (R.choice([3, 4]), 0)):
            if ctx.hung():
                return
            s = gen.make_setup(R, kind=kind, constrained=False, entry=R.choice(['collector', 'adv']), sel=sel)
            s.problem = Problem(kind, {'cat': [list('fabdec')] * short_, 'ord': (0, short_ - 1 + R.choice([0, 1]), short_)}.get(kind) or ((0, 2 ** short_ - 1, 1),)) if short_ else \
                Problem(kind, {'cat': [list('fabdec'), (0, 9, 3)] * 5, 'ord': (0, 9, R.randint(5, 10))}.get(kind) or ((0, 255, 1), (-2, 2, 0.5)))
            s.cross, s.mut, s.lvl, s.N, s.ts, s.G, s.cp, s.target = cr, mu, R.choice([1.0, 'strong', 0.5]), R.choice([4, 12]), R.choice([2, 3]), 8, (1, 1), 0
            resize(ctx, s)
            seed = R.randint(0, 10 ** 6)
            a, _ = run_digest(s, seed)
            b, _ = run_digest(s, seed)
            pair(ctx, a, b, 'eq', 'repeated seeded run', describe(s, seed))
    for kind, multi in itertools.product(('bin', 'gray', 'cat', 'ord'), (0, 1)):           # generations of about a hundred
        if multi and kind not in ('bin', 'gray') or ctx.hung():
            continue
        s = gen.make_setup(R, kind=kind, big='crowd', objectives=1 + multi, sel=R.choice(['vtour', 'vrank', 'bal']) if multi else R.choice(['tour', 'rank']), entry='collector')
        s.N, s.G, s.es, s.es_eff = R.randint(64, 160), 3, None, 3
        s.inputs = [gen.random_genes(R, s.problem) for _ in range(s.N)] if s.problem.items is not None else None
        seed = R.randint(0, 10 ** 6)
        a, _ = run_digest(s, seed)
        b, _ = run_digest(s, seed)
        pair(ctx, a, b, 'eq', 'repeated seeded run', describe(s, seed))
    # another process
    jobs = [[i, R.choice([0, 1, -3, 77, 10 ** 12]), R.choice(['so', 'mo'])] for i in range(ctx.n(30, 200))]
    here = []
    for j in jobs:
        if ctx.hung():
            return
        here.append(job_digest(ctx.seed, j))
    for hs in ('0', '4711'):
        env = dict(os.environ, PYTHONHASHSEED=hs)
        p = subprocess.run([sys.executable, os.path.join(os.path.dirname(__file__), 'drive.py'), 'digest', str(ctx.seed), json.dumps(jobs)],
                           env=env, stdout=subprocess.PIPE, timeout=300)
        there = json.loads(p.stdout.decode())
        for j, a, b in zip(jobs, here, there):
            pair(ctx, a, b, 'eq', 'the same run in another process', {'job': j, 'hashseed': hs})


def baumeva_wide(rng):
    s = gen.make_setup(rng, kind='bin', constrained=False, entry='facade')
    s.problem = Problem('bin', ((0, 2 ** 20 - 1, 1), (0, 2 ** 20 - 1, 1)))
    s.values = lambda g: [int(g[0]) % 7]
    s.result = lambda g: int(g[0]) % 7
    s.data, s.inputs, s.float_obj = None, None, False
    return s


def job_digest(seed, job):
    i, sd, mode = job
    rng = random.Random(f'{seed}/16p/{i}')
    if mode == 'so':
        s = gen.make_setup(rng)
    else:
        sel = rng.choice(['vtour', 'vbal', 'vrank', 'bal', 'tour', 'rank'])
        s = gen.make_setup(rng, kind=rng.choice(['bin', 'gray']), objectives=2, sel=sel, entry=None if sel in ('vtour', 'bal') else 'collector')
    return run_digest(s, sd)[0]


def C17(ctx):
    R = ctx.rng
    runs(ctx, ctx.n(80, 800))                      # alias clauses
    multi_runs(ctx, ctx.n(30, 300))
    for i in range(ctx.n(120, 1200)):
        if ctx.hung():
            return
        multi = R.random() < 0.3
        s = gen.make_setup(R, entry='facade', kind=R.choice(['bin', 'gray']), objectives=2, sel=R.choice(['vtour', 'bal'])) if multi \
            else gen.make_setup(R, entry='facade')
        isolated_facade(ctx, s)
    for i in range(ctx.n(8, 60)):
        if ctx.hung():
            return
        isolated_facade(ctx, gen.make_setup(R, entry='facade', big=SHAPES[i % 4]))
    for i in range(ctx.n(8, 60)):
        s = gen.make_setup(R, entry='facade', constrained=False, kind=['bin', 'gray', 'cat', 'ord'][i % 4])
        s.N, s.ts = R.randint(14, 60), 3
        s.inputs = [gen.random_genes(R, s.problem) for _ in range(R.randint(13, s.N))]
        isolated_facade(ctx, s)
    for i in range(ctx.n(30, 300)):
        if ctx.hung():
            return
        shared_penalty(ctx, gen.make_setup(R, entry='facade', constrained=True, small=R.random() < 0.5))
    for i in range(ctx.n(60, 600)):
        if ctx.hung():
            return
        isolated_collector(ctx)
    # interleaved runs, schedules enumerated by TLC
    sch = ctx.enumerate('Inter', 'SPECIFICATION Spec\nCONSTANTS\n StepsA = 15\n StepsB = 15\n MaxSwitch = %d\nINVARIANTS Isolated Emit\nCHECK_DEADLOCK FALSE\n'
                        % ctx.n(3, 5), ctx.n(120, 1500))
    for w in sch:
        if ctx.hung():
            return
        interleaved(ctx, w)


def snapshot(objs):
    return short(repr([freeze(o) if not isinstance(o, dict) else sorted((repr(k), repr(freeze(v))) for k, v in o.items()) for o in objs]))


def caller_objects(s):
    gens = copy.deepcopy(s.problem.gens)
    if isinstance(gens, tuple) and s.kind == 'cat':
        gens = list(gens)
    inputs = copy.deepcopy(s.inputs)
    if inputs is not None:
        inputs = [list(i) for i in inputs]
    data = s.data if s.data is not None else None
    if data is not None:
        data = {'rows': [1, 2, [3]], 'n': 4}
    conds = list(s.conditions) if s.conditions is not None else None
    tgt = copy.deepcopy(s.target)
    return gens, inputs, data, conds, tgt


def facade_kwargs(s, objs, f, pen):
    gens, inputs, data, conds, tgt = objs
    kw = dict(num_generations=s.G, num_individ=s.N, gens=gens, obj_function=f, obj_value=tgt, input_data=data, penalty=pen, conditions=conds,
              children_percent=s.cp[0] / s.cp[1], early_stop=s.es, input_population=inputs, tournament_size=s.ts, mutation_lvl=s.lvl,
              transfer_parents=s.tp, is_print=False)
    if s.kind in ('bin', 'gray'):
        kw['is_gray'] = s.kind == 'gray'
    return kw


def facade_class(s):
    if s.multi:
        return baumeva.VEGA if s.algo == 'vega' else baumeva.FFGA
    return {'bin': baumeva.BinaryGA, 'gray': baumeva.BinaryGA, 'cat': baumeva.CategoricalGA, 'ord': baumeva.CombinatoryGA}[s.kind]


def isolated_facade(ctx, s):
    objs = caller_objects(s)
    f = (lambda d, g: s.result(g)) if objs[2] is not None else (lambda g: s.result(g))
    before = snapshot(objs)
    meta = describe(s, None)
    seed = ctx.fresh_seed()
    with ctx.guard('optimize twice'):
        baumeva.generator.rnd_seed = seed
        opt = facade_class(s)(**facade_kwargs(s, objs, f, s.penf() if s.penf else None))
        g1 = opt.optimize()
        pair(ctx, before, snapshot(objs), 'eq', "the caller's objects after a run", meta)
        d1 = digest_gd(g1)
        baumeva.generator.rnd_seed = seed
        g2 = opt.optimize()
        pair(ctx, d1, digest_gd(g2), 'eq', 'optimize() again from the same configuration', meta)
        pair(ctx, d1, digest_gd(g1), 'eq', 'a returned GaData after another run', meta)
        pair(ctx, before, snapshot(objs), 'eq', "the caller's objects after two runs", meta)
        # the same objects used by another optimisation
        baumeva.generator.rnd_seed = seed
        opt3 = facade_class(s)(**facade_kwargs(s, objs, f, s.penf() if s.penf else None))
        g3 = opt3.optimize()
        pair(ctx, d1, digest_gd(g3), 'eq', 'another object built from the same arguments', meta)
        pair(ctx, d1, digest_gd(g1), 'eq', 'a returned GaData after a run of another object', meta)


def shared_penalty(ctx, s):
    """one penalty object serving several optimisations"""
    if s.penf is None:
        return
    s.G = s.es_eff = ctx.rng.randint(3, 6)
    s.es = None
    objs = caller_objects(s)
    f = (lambda d, g: s.result(g)) if objs[2] is not None else (lambda g: s.result(g))
    shared = s.penf()
    with ctx.guard('a penalty object used by several optimisations'):
        for k in range(4):
            seed = ctx.fresh_seed()
            digests = []
            for pen in (shared, s.penf()):
                baumeva.generator.rnd_seed = seed
                digests.append(digest_gd(facade_class(s)(**facade_kwargs(s, objs, f, pen)).optimize()))
            pair(ctx, digests[1], digests[0], 'eq', 'a run with a penalty object used before', describe(s, seed))


def isolated_collector(ctx):
    """a collector used again (other or same problem) behaves like a new one"""
    R = ctx.rng
    multi = R.random() < 0.3
    kind = R.choice(['bin', 'gray']) if multi else R.choice(['bin', 'gray', 'cat', 'ord'])
    sel = R.choice(['vtour', 'vbal', 'vrank', 'bal', 'tour', 'rank']) if multi else None
    a = gen.make_setup(R, kind=kind, entry='collector', constrained=False, objectives=2 if multi else 1, sel=sel)
    b = gen.make_setup(R, kind=kind, entry='collector', constrained=False, objectives=2 if multi else 1, sel=sel)
    for s in (a, b):
        s.data = None
    fa, fb = a.result, b.result
    cur = {'f': fa}
    a.ts = b.ts = 2
    b.sel, b.cross, b.mut, b.lvl, b.tp, b.target = a.sel, a.cross, a.mut, a.lvl, a.tp, a.target
    seed = ctx.fresh_seed()
    meta = {'a': describe(a, seed), 'b': describe(b, seed)}

    def setpop(col, s):
        baumeva.generator.rnd_seed = seed
        col.set_population(population=s.problem.pop_class(), num_individ=s.N, num_generations=s.G, gens=s.problem.gens,
                           input_population=gen.inputs_copy(s), children_percent=s.cp[0] / s.cp[1], early_stop=s.es_eff)
        with contextlib.redirect_stdout(io.StringIO()):
            col.optimize()
        return col.ga_data

    def collector(f):
        fit, se, cr, mu, ne = gen.build_ops(a, f)
        kw = dict(fitness=fit, selection=se, crossover=cr, mutation=mu, new_generation=ne)
        if multi:
            kw['storage'] = ga.MultiGaData
        return baumeva.CollectorGA(**kw)
    with ctx.guard('collector used twice'):
        col = collector(lambda g: cur['f'](g))
        g1 = setpop(col, a)
        d1 = digest_gd(g1)
        cur['f'] = fb
        g2 = setpop(col, b)
        d2 = digest_gd(g2)
        pair(ctx, d1, digest_gd(g1), 'eq', 'a GaData after the collector was used again', meta)
        solo = digest_gd(setpop(collector(fb), b))
        pair(ctx, solo, d2, 'eq', 'a collector used again against a new one', meta)


def interleaved(ctx, word):
    R = ctx.rng
    ss = []
    for k in (0, 1):
        while True:
            s = gen.make_setup(R, entry='adv')
            if R.random() < 0.25:
                s = gen.make_setup(R, entry='adv', kind=R.choice(['bin', 'gray']), objectives=2, sel=R.choice(['vtour', 'vbal', 'vrank', 'bal', 'rank']))
            s.G, s.es, s.es_eff = 3, None, 3
            if s.problem.items is None or True:
                break
        ss.append(s)
    if R.random() < 0.3:
        ss[1] = copy.copy(ss[0])
    seeds = [ctx.fresh_seed(), ctx.fresh_seed()]
    meta = {'schedule': ''.join(word), 'a': describe(ss[0], seeds[0]), 'b': describe(ss[1], seeds[1])}

    def stepper(k):
        hold = []
        g = gen.adv_steps(ss[k], gen.objective(ss[k], None), hold)
        return hold, g

    def advance(k, g, i):
        set_seed(seeds[k] * 31 + i)
        try:
            next(g)
        except StopIteration:
            pass
    with ctx.guard('interleaved runs'):
        solo = []
        for k in (0, 1):
            hold, g = stepper(k)
            for i in range(16):
                advance(k, g, i)
            solo.append(digest_gd(hold[0]))
        gs = [stepper(0), stepper(1)]
        pc = [0, 0]
        for ch in word:
            k = 0 if ch == 'a' else 1
            advance(k, gs[k][1], pc[k])
            pc[k] += 1
        for k in (0, 1):
            advance(k, gs[k][1], pc[k])
            pair(ctx, solo[k], digest_gd(gs[k][0][0]), 'eq', 'a run whose steps interleave with another one', meta)


def pareto_fixture_line(ctx, vec, algo, cond=None, target=None):
    """evaluation of a generation with the given value vectors"""
    M = len(vec[0])
    pr = table_problem(3 if len(vec) <= 8 else 5, ctx.rng.choice(['bin', 'gray']))
    codes = list(range(len(vec)))
    cond = cond or ['opt'] * M
    m = cond.count('opt')
    s = gen.Setup()
    s.kind, s.problem, s.inputs = pr.kind, pr, [[c] for c in codes]
    kw, pen, pp = {}, 'none', {'none': 0}
    if 'le' in cond or 'eq' in cond:
        pen = 'dyn'
        kw = dict(penalty=ga.DynamicPenalty(), conditions=[gen.SIGNS[c] for c in cond])
        pp = dict(d=1, cn=1, cd=2, al=2, be=2)
    cfg = base_cfg(pr, algo=algo, N=len(vec), M=m, cond=cond, sel='bal' if algo == 'ffga' else 'vtour', inputs=gen.input_cfg(s), pen=pen, pp=pp,
                   tgt=list(target) if target else [])
    rec = Recorder(pr, cfg, values=lambda g: list(vec[int(round(g[0])) % len(vec)]), multi=True)
    rec.reseed = ctx.fresh_seed()
    with recording(rec):
        try:
            with time_limit(20):
                pop = pr.pop_class()()
                pop.set_params(num_individ=len(vec), gens=pr.gens, input_population=[[c] for c in codes])
                pop.fill()
                gd = ga.MultiGaData(num_generations=9, children_percent=1.0, early_stop=9)
                gd.population = pop
                form = ctx.rng.choice([list, tuple])

                def f(g):
                    rec.called(g, True)
                    return form(vec[int(round(g[0]))])
                fit = {'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}[algo](obj_function=f, obj_value=target, **kw)
                fit.execute(gd)
                gd.update()
        except Exception as e:            # noqa
            rec.failed(e)
    ctx.add(rec.finish(), {'vectors': vec, 'algo': algo})


def pareto_cases(ctx, cap):
    fams = [(3, '{0,1,2}', 2), (4, '{0,1}', 2), (3, '{0,1}', 3), (3, '{0,1}', 4), (2, '{0,1}', 6)]
    if ctx.tier != QUICK:
        fams += [(4, '{0,1,2}', 2), (2, '{0,1,2}', 3), (3, '{0,1,2}', 3)]
    for size, vals, dim in fams:
        for vec in ctx.family('vec', size, vals, dim, cap=cap):
            if ctx.hung():
                return
            algo = ctx.rng.choice(['ffga', 'vega'])
            off = ctx.rng.choice([0, -1, 3])
            vec = [[x + off for x in v] for v in vec]
            cond = None
            if dim == 3 and ctx.rng.random() < 0.6:
                cond = ctx.rng.choice([['opt', 'opt', 'le'], ['opt', 'le', 'opt'], ['eq', 'opt', 'opt']])
            tgt = None
            if algo == 'vega' and ctx.rng.random() < 0.5:
                tgt = [ctx.rng.choice([0, 1, -2]) for _ in range(cond.count('opt') if cond else dim)]
            pareto_fixture_line(ctx, vec, algo, cond, tgt)


def C18(ctx):
    multi_runs(ctx, ctx.n(160, 1600))
    multi_runs(ctx, ctx.n(40, 400), constrained=True)
    multi_runs(ctx, ctx.n(30, 300), small=True)
    multi_runs(ctx, ctx.n(6, 40), big=SHAPES, constrained=False)
    multi_runs(ctx, ctx.n(3, 20), sels=('bal', 'tour', 'rank'), big='crowd', constrained=False)
    multi_runs(ctx, ctx.n(15, 150), float_obj=True, constrained=False)
    pareto_cases(ctx, ctx.n(120, 1500))


def C19(ctx):
    multi_runs(ctx, ctx.n(160, 1600))
    multi_runs(ctx, ctx.n(60, 600), small=True)
    multi_runs(ctx, ctx.n(60, 600), sels=('bal', 'tour', 'rank'))
    multi_runs(ctx, ctx.n(6, 40), big=SHAPES, constrained=False)
    pareto_cases(ctx, ctx.n(60, 1000))
    stalls(ctx, ctx.n(8, 100), multi=True)
    for entry, sel, es in [(e, x, k) for e in ('facade', 'collector', 'adv') for x in ('bal', 'vtour') for k in (0, 1, 2)]:
        stalls(ctx, ctx.n(1, 6), multi=True, entry=entry, sel=sel, es=es)
    mo_sched(ctx, ctx.n(150, 1024))
    mo_sched(ctx, ctx.n(100, 4096), N=3, K=1, G=4)
    if ctx.tier != QUICK:
        mo_sched(ctx, 4000, N=2, K=2, G=3, V='{0, 1}', D=2)
        mo_sched(ctx, 4000, N=3, K=1, G=3, V='{0, 1}', D=3)
    # stagnation and stopping
    for es, G in itertools.product([None, 0, 1, 3], [1, 2, 6, 10]):
        for sel in ('bal', 'vtour', 'tour', 'vrank'):
            if ctx.hung():
                return
            s = gen.make_setup(ctx.rng, kind='bin', small=True, constrained=False, objectives=2, sel=sel, entry=ctx.rng.choice(['collector', 'adv']))
            s.G, s.es, s.es_eff, s.data, s.vd = G, es, es if es is not None else G, None, 1
            if ctx.rng.random() < 0.6:
                s.values = lambda g: [1, 2]
                s.result = lambda g: (1, 2)
            ctx.run(s)


def C20(ctx):
    R = ctx.rng
    multi_runs(ctx, ctx.n(160, 1600), sels=('vtour', 'vbal', 'vrank'))
    multi_runs(ctx, ctx.n(40, 400), sels=('vtour', 'vbal', 'vrank'), small=True)
    multi_runs(ctx, ctx.n(6, 40), sels=('vtour', 'vbal', 'vrank'), big=SHAPES)
    t = ctx.n(400, 2000)
    pats = ctx.family('weak', 4, cap=None)
    for _ in range(ctx.n(14, 120)):
        if ctx.hung():
            return
        M = R.choice([2, 2, 3, 3, 4, 5, 7])
        ss = [R.choice(pats) for _ in range(M)]
        n = {2: 4, 3: 6, 4: 8, 5: 5, 7: 7}[M]
        ss = [p + [R.choice(p) for _ in range(n - 4)] for p in ss]
        for p in ss:                         # every objective gets pairs; now and then several members share the best place
            if R.random() < 0.4:
                p[R.randrange(n)] = max(p)
        for k in range(M):
            if R.random() < 0.25:
                ss[k] = R.choice([[1] * n, [0] + [1] * (n - 1), [1] * (n - 1) + [0]])
        extra = R.choice([0, 1]) if (n - 1) // M else 0
        q = (n - extra) // M
        with ctx.guard('VEGA ranked selection', 30):
            set_seed(ctx.fresh_seed())
            val = spread(R)
            gd, pr, _ = fixture([[val(p[i]) for p in ss] for i in range(n)], cp=1.0, algo='vega', extra=extra)
            ex = draw_pairs(ctx, gd, ga.VEGARankedSelection(M), t)
            for k in range(M):
                stat_line(ctx, 'selstat', ss[k], [p for e in ex for p in e[k * q:(k + 1) * q]], by='rank', obj=k)
        with ctx.guard('VEGA balanced selection', 30):
            set_seed(ctx.fresh_seed())
            ws = []
            for p in ss:
                dist = sorted(R.sample(DIST, max(p) + 1), reverse=True)
                ws.append([dist[v] for v in p])
            tgt = [R.choice([0, 3, -2]) for _ in range(M)]
            gd, pr, _ = fixture([[tgt[k] + R.choice([-1, 1]) * ws[k][i] for k in range(M)] for i in range(n)], cp=1.0, algo='vega', target=tgt, extra=extra)
            ex = draw_pairs(ctx, gd, ga.VEGABalancedSelection(M), t)
            for k in range(M):
                stat_line(ctx, 'selstat', ws[k], [p for e in ex for p in e[k * q:(k + 1) * q]], by='dist', obj=k)
        for ts in (2, 3)[:n - extra - 2]:
            with ctx.guard('VEGA tournament selection', 30):
                set_seed(ctx.fresh_seed())
                val = spread(R)
                gd, pr, _ = fixture([[val(p[i]) for p in ss] for i in range(n)], cp=1.0, algo='vega', extra=extra)
                ex = draw_pairs(ctx, gd, ga.VEGATournamentSelection(M, ts), t)
                for k in range(M):
                    fl = [p for e in ex for p in e[k * q:(k + 1) * q]]
                    stat_line(ctx, 'tourstat', ss[k], fl, ts=ts, obj=k)
                    cover(ctx, pr, 'vtour', ss[k], fl, ts=ts)
    # large generations
    for _ in range(ctx.n(1, 6)):
        if ctx.hung():
            return
        n, M, extra = R.randint(*[(96, 128), (101, 127), (104, 127), (130, 300)][ctx.shard % 4]), R.choice([2, 3]), R.choice([0, 1])
        q = (n - extra) // M
        ws = [[R.choice(DIST) for _ in range(n)] for _ in range(M)]
        for name, mk, by in (('vrank', lambda: ga.VEGARankedSelection(M), 'rank'), ('vbal', lambda: ga.VEGABalancedSelection(M), 'dist'),
                             ('vtour', lambda: ga.VEGATournamentSelection(M, 3), 'tour')):
            with ctx.guard('VEGA selection ' + name, 60):
                set_seed(ctx.fresh_seed())
                gd, pr, _ = fixture([[w[i] for w in ws] for i in range(n)], cp=1.0, algo='vega', target=[0] * M if by == 'dist' else None, num_bits=7 if n <= 128 else 9, extra=extra)
                ex = draw_pairs(ctx, gd, mk(), 80)
                for k in range(M):
                    fl = [p for e in ex for p in e[k * q:(k + 1) * q]]
                    if by == 'tour':
                        stat_line(ctx, 'tourstat', [-x for x in ws[k]], fl, ts=3, obj=k)
                    else:
                        stat_line(ctx, 'selstat', ws[k] if by == 'dist' else [-x for x in ws[k]], fl, by=by, obj=k)


def C21(ctx):
    R = ctx.rng
    for i in range(ctx.n(150, 1500)):
        if ctx.hung():
            return
        if R.random() < 0.3:
            s = gen.make_setup(R, kind=R.choice(['bin', 'gray']), objectives=R.choice([2, 3]) if R.random() < 0.3 else 2, sel=R.choice(['vtour', 'bal']), entry='facade')
        else:
            s = gen.make_setup(R, entry='facade')
        seed = R.randint(0, 10 ** 6)
        a, _ = run_digest(s, seed, entry='facade')
        b, _ = run_digest(s, seed, entry='adv')
        c, _ = run_digest(s, seed, entry='collector')
        pair(ctx, b, a, 'eq', f'simple class against the loop written by hand: {s.kind} {s.algo}', describe(s, seed))
        pair(ctx, b, c, 'eq', f'collector against the loop written by hand: {s.kind} {s.algo}', describe(s, seed))
    # documented defaults
    for cls, kind, algo, g in [(baumeva.BinaryGA, 'bin', 'so', ((0, 255, 1),)), (baumeva.CategoricalGA, 'cat', 'so', [list('abcd')] * 6),
                               (baumeva.CombinatoryGA, 'ord', 'so', (0, 7, 8)), (baumeva.VEGA, 'bin', 'vega', ((0, 255, 1),)),
                               (baumeva.FFGA, 'bin', 'ffga', ((0, 255, 1),))]:
        for i in range(ctx.n(2, 8)):
            s = gen.make_setup(random.Random(f'{ctx.seed}/21/{i}'), kind=kind, constrained=False, entry='facade', objectives=1 if algo == 'so' else 2,
                               sel={'so': None, 'vega': 'vtour', 'ffga': 'bal'}[algo])
            s.problem = Problem(kind, g)
            s.N, s.G, s.cp, s.es, s.es_eff, s.inputs, s.ts, s.lvl, s.tp, s.data, s.target = 20, 30, (95, 100), 10, 10, None, 3, 'normal', 'best', None, None
            s.conditions, s.penf = None, None
            fs = [gen.int_function(R, s.problem, 'dist') for _ in range(s.M)]
            s.result = (lambda g, fs=fs, s=s: tuple(f(s.problem.ints(g)) for f in fs)) if s.multi else (lambda g, fs=fs, s=s: fs[0](s.problem.ints(g)))
            if s.multi:
                s.result = lambda g: (int(g[0]) % 16, abs(int(g[0]) // 16 - 9))
            seed = 100 + i
            b, _ = run_digest(s, seed, entry='adv')
            rec = Generations()
            baumeva.generator.rnd_seed = seed
            out = io.StringIO()
            try:
                with recording(rec), contextlib.redirect_stdout(out), time_limit(20):
                    gd = cls(num_generations=30, num_individ=20, gens=g, obj_function=s.result).optimize()
                a = [rec.first] + rec.gens + digest_gd(gd)
            except Exception as e:        # noqa
                a = ['raised ' + ascii(str(e)[:80])]
            pair(ctx, b, a, 'eq', 'default parameters of ' + cls.__name__, {'class': cls.__name__})
            pair(ctx, 'printed', 'printed' if out.getvalue().strip() else 'silent', 'eq', 'default printing of ' + cls.__name__)
    # printing
    for i in range(ctx.n(40, 200)):
        if ctx.hung():
            return
        s = gen.make_setup(R, kind=R.choice(['bin', 'gray']), objectives=2, sel=R.choice(['vtour', 'bal']), entry='facade') if R.random() < 0.4 \
            else gen.make_setup(R, entry='facade')
        for on in (True, False):
            out = io.StringIO()
            baumeva.generator.rnd_seed = 7
            with ctx.guard('printing'):
                with contextlib.redirect_stdout(out):
                    gd = gen.run_facade(s, gen.objective(s, None), is_print=on)
                pair(ctx, 'printed' if on else 'silent', 'printed' if out.getvalue().strip() else 'silent', 'eq', 'summary printed exactly if asked', describe(s, 7))
    runs(ctx, ctx.n(60, 600), entry='facade')
    one_at_a_time(ctx)
    by_position(ctx, ctx.n(25, 250))
    assembled(ctx, ctx.n(2, 12))


class Callee:
    """objective functions that are no plain functions"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def method(self, *a):
        return self.f(*a)


def by_position(ctx, n):
    """simple classes called with positional arguments, and with any kind of callable"""
    R = ctx.rng
    for i in range(n):
        if ctx.hung():
            return
        if R.random() < 0.35:
            s = gen.make_setup(R, kind=R.choice(['bin', 'gray']), objectives=2, sel=R.choice(['vtour', 'bal']), entry='facade')
        else:
            s = gen.make_setup(R, entry='facade', constrained=R.choice([None, True]))
        seed = R.randint(0, 10 ** 6)
        a, _ = run_digest(s, seed, entry='facade')
        s.positional = True
        b, _ = run_digest(s, seed, entry='facade')
        s.positional = False
        f = gen.objective(s, None)
        g = R.choice([Callee(f), Callee(f).method, functools.partial(f), lambda *x: f(*x)])
        c, _ = run_digest(s, seed, entry=R.choice(['facade', 'adv', 'collector']), f=g)
        pair(ctx, a, b, 'eq', f'arguments by position: {s.kind} {s.algo}', describe(s, seed))
        pair(ctx, a, c, 'eq', f'another kind of callable: {s.kind} {s.algo}', describe(s, seed))


def assembled(ctx, n):
    """operators made by keyword with everything spelled out, by position, and with their documented defaults: the same run"""
    R = ctx.rng

    def run(seed, make, pop):
        rec = Generations()
        baumeva.generator.rnd_seed = seed
        try:
            with recording(rec), contextlib.redirect_stdout(io.StringIO()), time_limit(20):
                col = make()
                pop(col)
                col.optimize()
            return [rec.first] + rec.gens + digest_gd(col.ga_data)
        except Exception as e:            # noqa
            return ['raised ' + type(e).__name__ + ' ' + ascii(str(e)[:80])]
    for _ in range(n):
        if ctx.hung():
            return
        seed = R.randint(0, 10 ** 6)
        t, d, top = R.randint(0, 30), R.randint(1, 5), R.randint(20, 60)
        for kind in ('bin', 'gray', 'cat', 'ord', 'vega', 'ffga'):
            multi = kind in ('vega', 'ffga')
            cls = {'gray': ga.BinaryGrayPopulation, 'cat': ga.CatPopulation, 'ord': ga.OrderCatPopulation}.get(kind, ga.BinaryPopulation)
            gens = {'cat': [list(range(9)), (0, 30, 5), [4, 2, 8, 7]] * 2, 'ord': (0, 9, 9)}.get(kind, ((0, 63, 1), (-4, 4, 0.25)))
            ins = None if kind != 'ord' else [R.sample(range(10), 9) for _ in range(3)]
            def f(data, g):
                v = sum((k + data) * x for k, x in enumerate(g))
                return (v, g[0] - 6) if not multi else (v, abs(g[0] - 20), g[0] - 40)
            cond = ['optimize', '<='] if not multi else ['optimize', 'optimize', '<=']
            goal = t if not multi else [t, 3] if kind == 'vega' else None
            G = 40 if not multi else 14
            F = {'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}.get(kind, ga.HyperbolaFitness)
            mutation = {'cat': [ga.CategoricalMutation], 'ord': [ga.SwapMutation, ga.MovementMutation, ga.InversionMutation, ga.ShiftMutation]}.get(kind, [ga.BinStringMutation])
            M = R.choice(mutation)
            C = ga.OrderCrossover if kind == 'ord' else R.choice([ga.OnePointCrossover, ga.TwoPointCrossover, ga.UniformCrossover])
            N = ga.MultiNewGeneration if kind == 'ffga' else ga.NewGeneration
            S = ga.MultiGaData if multi else ga.GaData
            penalties = [lambda: ga.DynamicPenalty(delta=1, c=0.5, alpha=2, betta=2), lambda: ga.DynamicPenalty(1, 0.5, 2, 2), lambda: ga.DynamicPenalty()]
            if not multi and R.random() < 0.5:
                penalties = [lambda: ga.AdaptivePenalty(delta=1, betta_1=1.1, betta_2=1.2, betta=2), lambda: ga.AdaptivePenalty(1, 1.1, 1.2, 2), lambda: ga.AdaptivePenalty()]
            if R.random() < 0.4:
                q = [R.choice([0.5, 2, 3]), R.choice([0.25, 1.5]), R.choice([1, 3]), R.choice([1, 3])]
                penalties = [lambda: ga.DynamicPenalty(delta=q[0], c=q[1], alpha=q[2], betta=q[3]), lambda: ga.DynamicPenalty(*q), lambda: ga.DynamicPenalty(betta=q[3], alpha=q[2], c=q[1], delta=q[0])]
            sels = [lambda: ga.TournamentSelection(tournament_size=3), lambda: ga.TournamentSelection(3), lambda: ga.TournamentSelection()] if kind != 'vega' else \
                [lambda: ga.VEGATournamentSelection(num_objectives=2, tournament_size=3), lambda: ga.VEGATournamentSelection(2, 3), lambda: ga.VEGATournamentSelection(2)]
            fits = [lambda p: F(obj_function=f, obj_value=goal, input_data=d, penalty=p, conditions=list(cond)), lambda p: F(f, goal, d, p, list(cond))]
            muts = [lambda: M(mutation_lvl='normal'), lambda: M('normal'), lambda: M()]
            news = [lambda: N(transfer_parents='best'), lambda: N('best'), lambda: N()]
            cols = [lambda *o: baumeva.CollectorGA(fitness=o[0], selection=o[1], crossover=o[2], mutation=o[3], new_generation=o[4], storage=S), lambda *o: baumeva.CollectorGA(*o, S)] + \
                [lambda *o: baumeva.CollectorGA(*o)] * (not multi)
            pops = [lambda c: c.set_population(population=cls, num_individ=12, num_generations=G, gens=gens, input_population=ins, children_percent=0.95, early_stop=10),
                    lambda c: c.set_population(cls, 12, G, gens, ins, 0.95, 10), lambda c: c.set_population(cls, 12, G, gens, ins)]
            def make(fi=0, p=0, se=0, m=0, ne=0, co=0):
                return lambda: cols[co](fits[fi](penalties[p]()), sels[se](), C(), muts[m](), news[ne]())
            base = run(seed, make(), pops[0])
            slots = {'fi': fits, 'p': penalties, 'se': sels, 'm': muts, 'ne': news, 'co': cols}
            for slot, options in slots.items():
                for k in range(1, len(options)):
                    pair(ctx, base, run(seed, make(**{slot: k}), pops[0]), 'eq', f'parameters of {slot} by position or by default {k}: {kind}', {'kind': kind, 'seed': seed})
            for k in (1, 2):
                pair(ctx, base, run(seed, make(), pops[k]), 'eq', f'parameters of set_population by position or by default {k}: {kind}', {'kind': kind, 'seed': seed})
            # the storage's own parameters
            x, y, z = S(num_generations=G, children_percent=0.95, early_stop=10), S(G, 0.95, 10), S(G)
            for w in (y, z):
                pair(ctx, [x.num_generations, str(x.children_percent), x.early_stop], [w.num_generations, str(w.children_percent), w.early_stop], 'eq', 'parameters of the storage')


def one_at_a_time(ctx):
    """long enough runs of every simple class, each parameter varied on its own"""
    R = ctx.rng
    grid = [('lvl', v) for v in ('weak', 'normal', 'strong', 0.0, 0.01, 0.05, 0.2, 0.5, 0.95, 1.0)] + [('ts', v) for v in (2, 3, 4, 9, 18, 19)] + \
        [('tp', v) for v in ('best', 'random')] + [('cp', v) for v in ((1, 10), (3, 10), (1, 2), (95, 100), (1, 1))] + \
        [('es', v) for v in (None, 0, 1, 4, 9, 13)] + [('target', v) for v in (None, 0, 3, -40)] + [('data', v) for v in (None, 0, '', 2, 'data')] + \
        [('G', v) for v in (1, 2, 3, 20)] + [('N', v) for v in (4, 5, 33, 70)] + [('inputs', v) for v in (None, 1, 7, 20)]
    if ctx.tier == QUICK:
        grid = [g for i, g in enumerate(grid) if i % 4 == ctx.shard % 4]
    for kind, algo, g in (('bin', 'so', ((0, 255, 1), (-4, 4, 0.25))), ('gray', 'so', ((0, 255, 1), (-4, 4, 0.25))), ('cat', 'so', [list('fabdec')] * 9),
                          ('ord', 'so', (0, 9, 10)), ('bin', 'vega', ((0, 255, 1),)), ('gray', 'ffga', ((0, 255, 1),))):
        for par, v in grid:
            if ctx.hung():
                return
            s = gen.make_setup(R, kind=kind, constrained=False, entry='facade', objectives=1 if algo == 'so' else 2,
                               sel={'so': None, 'vega': 'vtour', 'ffga': 'bal'}[algo])
            s.problem, s.N, s.G, s.cp, s.es, s.es_eff, s.inputs, s.ts, s.lvl, s.tp, s.data, s.target = \
                Problem(kind, g), 20, 12, (9, 10), None, 12, None, 3, 'normal', 'best', None, None
            if par == 'inputs':
                v = v and [gen.random_genes(R, s.problem) for _ in range(v)]
            if par == 'target' and s.multi:
                v = v if v is None else [v, v + 1]
            setattr(s, par, v)
            s.es_eff = s.es if s.es is not None else s.G
            s.conditions, s.penf = None, None
            fs = [gen.int_function(R, s.problem, 'large') for _ in range(s.M)]
            s.result = (lambda x, fs=fs, s=s: tuple(f(s.problem.ints(x)) for f in fs)) if s.multi else (lambda x, fs=fs, s=s: fs[0](s.problem.ints(x)))
            seed = R.randint(0, 10 ** 6)
            a, _ = run_digest(s, seed, entry='facade')
            b, _ = run_digest(s, seed, entry='adv')
            pair(ctx, b, a, 'eq', f'simple class against the loop written by hand: {s.kind} {s.algo}', describe(s, seed))


def sizes(ctx, ops=True):
    """every genotype length, generation size and run length of a range, in short runs"""
    R = ctx.rng
    for L in range(3, 42):
        if ctx.tier == QUICK and L % 3 != ctx.shard % 3:
            continue
        for kind in ('bin', 'gray', 'cat', 'ord'):
            if ctx.hung():
                return
            s = gen.make_setup(R, kind=kind, constrained=False, entry=R.choice(['adv', 'adv', 'collector', 'facade']))
            s.problem = Problem(kind, {'cat': [list('pqrst'[:R.randint(2, 5)]) for _ in range(L)], 'ord': (1, L + R.choice([0, 2]), L)}.get(kind)
                                or tuple([(0, 1, 1)] * (L % 4) + [(0, 15, 1)] * (L // 4)))
            resize(ctx, s)
            s.lvl = R.choice([0.5, 1.0, 'strong'])
            ctx.run(s)
    for N in range(3, 80):
        if ctx.tier == QUICK and N % 4 != ctx.shard % 4:
            continue
        if ctx.hung():
            return
        s = gen.make_setup(R, constrained=False)
        s.N, s.G = N, 3
        s.cp = R.choice([c for c in gen.CPS if (gen.quota(c[0], c[1], N) or 0) >= 1])
        s.ts = R.randint(2, N - 1)
        resize(ctx, s)
        ctx.run(s)


def resize(ctx, s):
    """an objective and inputs that fit the problem and the generation size of s"""
    f = gen.int_function(ctx.rng, s.problem, 'mod')
    s.data, s.vd, s.inputs, s.float_obj = None, 1, None, False
    if s.problem.items is not None:
        s.inputs = [gen.random_genes(ctx.rng, s.problem) for _ in range(s.N)]
    if s.target is not None:
        s.target = int(s.target)
    s.values = lambda g: [f(s.problem.ints(g))]
    s.result = lambda g: f(s.problem.ints(g))
    s.es = s.es_eff = s.G


def C22(ctx):
    R = ctx.rng
    runs(ctx, ctx.n(150, 2000))
    runs(ctx, ctx.n(60, 600), small=True)
    runs(ctx, ctx.n(40, 400), constrained=True)
    runs(ctx, ctx.n(6, 60), big=SHAPES)
    sizes(ctx)
    multi_runs(ctx, ctx.n(80, 800))
    multi_runs(ctx, ctx.n(30, 300), small=True)
    # ranges and steps far from the usual ones
    for g in [((0, 2 ** 46, 1),), ((-10 ** 12, 10 ** 12, 0.5), (0, 1, 1)), ((0, 1, 1e-12),), ((-1e-9, 1e-9, 1e-13), (0, 7, 1)), ((0, 1, 0.3),) * 40]:
        for gray, cls in itertools.product((False, True), (baumeva.BinaryGA, baumeva.VEGA)):
            with ctx.guard(f'{cls.__name__} with genes {g[:2]}'):
                set_seed(ctx.fresh_seed())
                gd = cls(num_generations=3, num_individ=6, gens=g, obj_function=(lambda x: [sum(x), -sum(x)]) if cls is baumeva.VEGA else (lambda x: sum(x)),
                         is_gray=gray, is_print=False, early_stop=None).optimize()
                pair(ctx, [gd.idx_generation, len(gd.population)], [3, 7], 'eq', 'generations completed with unusual genes')
    cases = ctx.enumerate('Config', 'SPECIFICATION Spec\nCONSTANTS\n Dev = 1\nCHECK_DEADLOCK FALSE\n')
    two = ctx.enumerate('Config', 'SPECIFICATION Spec\nCONSTANTS\n Dev = 2\nCHECK_DEADLOCK FALSE\n', ctx.n(700, 12000))
    for c in cases + two:
        if ctx.hung():
            return
        config_case(ctx, c['x'])
    # the same with generations of other sizes: what is relative to the size moves along
    for c in cases * ctx.n(1, 10):
        x = dict(c['x'])
        d = R.choice([R.randint(4, 12), R.randint(13, 60)])
        x.update(ts=x['ts'] + d if x['ts'] >= x['N'] - 1 else x['ts'], ninp=x['ninp'] + d if x['ninp'] >= x['N'] - 1 else x['ninp'], N=x['N'] + d)
        if x['ts'] == c['x']['ts'] and x['ninp'] == c['x']['ninp'] and R.random() < 0.8 or ctx.hung():
            continue
        config_case(ctx, x)


def config_case(ctx, x):
    R = ctx.rng
    kind = x['kind']
    g = {'bin': ((0, 7, 1), (-2, 2, 0.5)), 'gray': ((0, 7, 1), (-2, 2, 0.5)), 'cat': [list('abc'), (0, 3, 1), list('xy')], 'ord': (0, 5, 4)}[kind]
    pr = Problem(kind, g)
    lv = x['lvl']
    level = {'name': lv['v'], 'float': lv['n'] / 1000, 'int': lv['n'], 'nan': float('nan'), 'none': None, 'list': [0.5], 'bool': True, 'above': math.nextafter(1, 2), 'below': -5e-324,
             'inf': math.inf}[lv['t']]
    cons = x['pen'] in ('dyn', 'ada', 'sta')
    multi = x['entry'] in ('vega', 'ffga')
    conds = ['optimize', '<=', '!='] + ['optimize'] * multi if cons else None
    if cons and x['signs'] != 'known':
        conds[R.choice([1, 2])] = {'ge': '>=', 'eqeq': '==', 'empty': ''}[x['signs']]
    inp = [gen.random_genes(R, pr) for _ in range(x['ninp'])] or None
    if inp and x['inputs'] != 'ok':
        bad_input(inp[R.randrange(len(inp))], x['inputs'], g, R)
    ret = [1, -1, 0, 2, 3, 4][:max(0, x['values'])] if x['form'] == 'seq' else 1

    def f(genes):
        if x['form'] == 'scalar':
            return 1
        z = len(repr(genes)) % 3
        return [z + v for v in ret] if R.random() < 0.5 else tuple(z + v for v in ret)
    state = R.getstate()
    ok, what = 1, 'completed'

    def build_pen():
        if x['pen'] == 'dyn':
            return ga.DynamicPenalty()
        if x['pen'] == 'ada':
            return ga.AdaptivePenalty(betta_1=x['b1'] / 10, betta_2=x['b2'] / 10)
        if x['pen'] == 'sta':
            iv = [(0, 2.5), (2.5, float('inf'))]
            ei, er, ii, ir = {1: list(iv)}, {1: [2, 3]}, {0: list(iv)}, {0: [1, 4]}
            t = x['tables']
            if t == 'eqlong':
                ei[7] = list(iv)
            elif t == 'eqshort':
                er[7] = [2, 3]
            elif t == 'inlong':
                ii[7] = list(iv)
            elif t == 'inshort':
                ir[7] = [1, 4]
            return ga.StaticPenalty(ei, er, ii, ir)
        return {'none': None, 'obj': object(), 'class': ga.DynamicPenalty, 'str': 'dynamic'}[x['pen']]
    if x['pen'] in ('obj', 'class', 'str'):
        conds = R.choice([None, ['optimize', '<=', '!='] + ['optimize'] * multi])
    try:
        with time_limit(20), contextlib.redirect_stdout(io.StringIO()):
            set_seed(ctx.fresh_seed())
            pen = build_pen()
            if multi:
                (baumeva.VEGA if x['entry'] == 'vega' else baumeva.FFGA)(
                    num_generations=3, num_individ=x['N'], gens=g, obj_function=f, penalty=pen, conditions=conds, early_stop=None, is_gray=kind == 'gray',
                    input_population=inp, tournament_size=x['ts'], mutation_lvl=level, transfer_parents=x['tp'], children_percent=0.8).optimize()
            elif x['entry'] == 'facade':
                cls = {'bin': baumeva.BinaryGA, 'gray': baumeva.BinaryGA, 'cat': baumeva.CategoricalGA, 'ord': baumeva.CombinatoryGA}[kind]
                kw = {'is_gray': kind == 'gray'} if kind in ('bin', 'gray') else {}
                cls(num_generations=3, num_individ=x['N'], gens=g, obj_function=f, obj_value=0, penalty=pen, conditions=conds, early_stop=None,
                    input_population=inp, tournament_size=x['ts'], mutation_lvl=level, transfer_parents=x['tp'], children_percent=0.8, **kw).optimize()
            else:
                fit = ga.HyperbolaFitness(obj_function=f, obj_value=0, penalty=pen, conditions=conds)
                sel = ga.TournamentSelection(x['ts']) if x['sel'] == 'tour' else ga.RankedSelection()
                cr = ga.OrderCrossover() if kind == 'ord' else R.choice([ga.OnePointCrossover, ga.TwoPointCrossover, ga.UniformCrossover])()
                mu = {'bin': ga.BinStringMutation, 'gray': ga.BinStringMutation, 'cat': ga.CategoricalMutation}.get(kind) or \
                    R.choice([ga.SwapMutation, ga.MovementMutation, ga.InversionMutation, ga.ShiftMutation])
                mu = mu(level)
                new = ga.NewGeneration(x['tp'])
                if x['entry'] == 'collector':
                    col = baumeva.CollectorGA(fit, sel, cr, mu, new)
                    col.set_population(pr.pop_class(), num_individ=x['N'], num_generations=3, gens=g, input_population=inp, children_percent=0.8, early_stop=3)
                    col.optimize()
                else:
                    gd = ga.GaData(num_generations=3, children_percent=0.8, early_stop=3)
                    pop = pr.pop_class()()
                    pop.set_params(num_individ=x['N'], gens=g, input_population=inp)
                    pop.fill()
                    gd.population = pop
                    fit.execute(gd)
                    gd.update()
                    for _ in range(2):
                        for op in (sel, cr, mu, new, fit):
                            op.execute(gd)
                        gd.update()
    except core.Timeout as e:
        ctx.fail('configuration', e)
        return
    except Exception as e:                # noqa
        ok, what = 0, f'{type(e).__name__}: {e}'[:100]
    ctx.add({'cfg': {'type': 'reject'}, 'I': [], 'ev': [{'x': x, 'ok': ok, 'what': ascii(f'{kind} {x["entry"]} {x}'[:300] + ' -> ' + what)}]}, {'x': x})


def known_K1(seed):
    """AdaptivePenalty in a multi-objective run: the best solution is a set, the penalty asks whether 'it' is feasible"""
    set_seed(seed)
    try:
        with time_limit(20), contextlib.redirect_stdout(io.StringIO()):
            baumeva.VEGA(num_generations=3, num_individ=6, gens=((0, 7, 1),), obj_function=lambda g: (g[0], 7 - g[0], g[0] - 3), penalty=ga.AdaptivePenalty(),
                         conditions=['optimize', 'optimize', '<='], tournament_size=2, early_stop=None, is_print=False).optimize()
    except KeyError as e:
        return repr(e)
    except Exception as e:                # noqa
        return 'other: ' + repr(e)
    return None


# ------------------------------------------------------------------------------------------------ failing user functions
def C23(ctx):
    R = ctx.rng
    # recorded runs: members and record are judged at every failure
    for i in range(ctx.n(140, 1400)):
        if ctx.hung():
            return
        s = random_task(R, 0.35, entry='adv')
        total = s.N + (s.G - 1) * s.N if not s.multi else s.N * s.N * min(s.G, 3)
        at = sorted(R.randint(1, max(2, total)) for _ in range(R.choice([1, 1, 2, 4])))
        if R.random() < 0.3:
            at += [at[-1] + 1, at[-1] + 2]               # again while trying again
        kinds = [R.choice(gen.Failing.KINDS) for _ in at]
        ctx.run(s, fails=(at, kinds))
        pair(ctx, [ascii(e) for e in s.f.raised], [ascii(e) for e in s.caught], 'eq', 'exceptions raised and exceptions that reached the caller', describe(s, 0))
    # every placement of up to two failures, enumerated by TLC: the run goes on as if nothing had happened
    cases = ctx.enumerate('Crash', 'SPECIFICATION Spec\nCONSTANTS\n N = 4\n Kids = 3\n Gens = 3\n MaxFail = %d\nINVARIANTS ExactlyOnce CallsAddUp\n'
                                   'CHECK_DEADLOCK FALSE\n' % ctx.n(2, 3), ctx.n(150, 600))
    for c in cases:
        if ctx.hung():
            return
        s = gen.make_setup(R, constrained=R.random() < 0.3, entry='adv')
        s.N, s.G, s.cp, s.es, s.es_eff, s.ts, s.inputs = 4, 3, (4, 5), None, 3, 2, None if s.problem.items is None else s.inputs[:4]
        if s.problem.items is not None:
            s.inputs = [gen.random_genes(R, s.problem) for _ in range(4)]
        undisturbed(ctx, s, c['fails'])
    for i in range(ctx.n(60, 600)):
        if ctx.hung():
            return
        s = random_task(R, 0.5, entry='adv')
        undisturbed(ctx, s, sorted(R.randint(1, s.N * 3) for _ in range(R.choice([1, 2, 3]))))
    # simple classes and collector: the failure reaches the caller, the next run is complete
    for i in range(ctx.n(120, 1200)):
        if ctx.hung():
            return
        s = random_task(R, 0.3, entry=R.choice(['facade', 'collector']))
        aborted_run(ctx, s)


def random_task(R, multi, entry=None):
    if R.random() >= multi:
        return gen.make_setup(R, entry=entry)
    sel = R.choice(['vtour', 'bal'] if entry == 'facade' else ['vtour', 'vbal', 'vrank', 'bal', 'tour', 'rank'])
    return gen.make_setup(R, entry=entry, kind=R.choice(['bin', 'gray']), objectives=R.choice([2, 2, 3]), sel=sel)


def undisturbed(ctx, s, fails):
    seed = ctx.fresh_seed()
    R = ctx.rng
    kinds = [R.choice(gen.Failing.KINDS) for _ in fails] or [RuntimeError]
    order = [[], []]

    def logged(k):
        f = gen.objective(s, None)

        def g(*a):
            order[k].append(ascii(a[-1]))
            return f(*a)
        return g
    x, _ = run_digest(s, seed, entry='adv', f=logged(0))
    rec = Generations()
    f = gen.Failing(logged(1), fails, kinds)
    caught = []
    baumeva.generator.rnd_seed = seed
    with recording(rec):
        try:
            with time_limit(20):
                gd = gen.run_retry(s, f, caught)
            end = digest_gd(gd)
        except BaseException as e:            # noqa
            end = ['raised ' + ascii(e)[:100]]
    y = [rec.first] + rec.gens + end
    pair(ctx, x, y, 'eq', 'a run whose function raised and was evaluated again, against the undisturbed run', dict(describe(s, seed), fails=fails))
    if not s.multi:                     # a function with a memory sees the same calls
        pair(ctx, order[0], [c for k, c in enumerate(order[1], 1) if k not in set(fails)], 'eq', 'calls of a function that raised, against the undisturbed run',
             dict(describe(s, seed), fails=fails))
    pair(ctx, [ascii(e) for e in f.raised], [ascii(e) for e in caught], 'eq', 'exceptions raised and exceptions that reached the caller',
         dict(describe(s, seed), fails=fails))


def aborted_run(ctx, s):
    R, seed = ctx.rng, ctx.fresh_seed()
    clean, crec = run_digest(s, seed)
    kind = R.choice(gen.Failing.KINDS)
    f = gen.Failing(gen.objective(s, None), [R.randint(1, s.N * R.randint(1, 3))], [kind])
    rec = Generations()
    baumeva.generator.rnd_seed = seed
    got = None
    with recording(rec):
        try:
            with time_limit(20):
                if s.entry == 'facade':
                    gen.run_facade(s, f)
                else:
                    gen.run_collector(s, f)
        except BaseException as e:            # noqa
            got = e
    raised = f.raised[0] if f.raised else None
    if raised is None and got is not None:
        ctx.fail('a run that did not fail', got)
        return
    pair(ctx, [ascii(raised), 1], [ascii(got), 1 if got is raised else 0], 'eq', 'the exception that ended the run', describe(s, seed))
    if raised is None:
        return
    # generations completed before the failure are those of the undisturbed run
    pair(ctx, rec.gens, crec.gens, 'prefix', 'generations completed before the failure', describe(s, seed))
    g = len(rec.gens)
    if s.entry == 'collector' and g:
        gd = s.collector.ga_data
        pair(ctx, rec.marks[-1], digest_gd(gd)[:4], 'eq', 'best solution, histories and counters after the failure', describe(s, seed))
    # the same object again
    baumeva.generator.rnd_seed = seed
    f.at = set()
    rec = Generations()
    with recording(rec):
        try:
            with time_limit(20):
                if s.entry == 'facade':
                    gd = s.facade.optimize()
                else:
                    gen.again_collector(s)
                    gd = s.collector.ga_data
            end = digest_gd(gd)
        except BaseException as e:            # noqa
            end = ['raised ' + ascii(e)[:100]]
    pair(ctx, clean, [rec.first] + rec.gens + end, 'eq', 'the run after a failed one', describe(s, seed))


# ------------------------------------------------------------------------------------------------ printed reports
def C24(ctx):
    R = ctx.rng
    for i in range(ctx.n(220, 2500)):
        if ctx.hung():
            return
        s = random_task(R, 0.35)
        ctx.run(s, report=s.entry == 'collector' or R.random() < 0.75)
    for i in range(ctx.n(40, 400)):
        if ctx.hung():
            return
        s = gen.make_setup(R, float_obj=True, constrained=False)
        ctx.run(s, report=True)
    for i in range(ctx.n(6, 40)):
        if ctx.hung():
            return
        sel = R.choice(['vtour', 'vbal', 'vrank', 'bal', 'tour', 'rank'])
        s = gen.make_setup(R, big=SHAPES[i % 4], constrained=False) if i % 2 else \
            gen.make_setup(R, big=['long', 'crowd', 'marathon'][i // 2 % 3], constrained=False, objectives=R.choice([2, 2, 3, 6, 9]), kind=R.choice(['bin', 'gray']), sel=sel,
                           entry=R.choice(['adv', 'collector']))
        ctx.run(s, report=True)
    reports(ctx, ctx.n(250, None))


def reports(ctx, cap):
    """reports asked for at any moment of two optimisations side by side, as predicted by Report.tla"""
    R = ctx.rng
    cases = ctx.enumerate('Report', 'SPECIFICATION Spec\nCONSTANTS\n Steps = 6\n MaxPrint = 3\nINVARIANTS Sane Forward\nCHECK_DEADLOCK FALSE\n', cap)
    for c in cases:
        if ctx.hung():
            return
        with ctx.guard('reports of two optimisations'):
            x, y = [], []
            sides = {w: Side(ctx, R.random() < 0.35) for w in (1, 2)}
            for who, what in c['script']:
                side = sides[who]
                if what != 'print':
                    side.step(what == 'better')
                    continue
                before = side.digest()
                out = io.StringIO()
                with contextlib.redirect_stdout(out):
                    side.gd.print_best_solution()
                want = c['out'][len(x)]
                x.append([want['at'], want['best'] if not side.multi else side.gd.best_solution['idx_generation'], 1] + side.expected())
                y.append(side.read(out.getvalue()) + [int(before == side.digest())])
                y[-1] = [y[-1][0], y[-1][1], y[-1][-1]] + y[-1][2:-1]
            pair(ctx, x, y, 'eq', 'reports at any moment', {'script': c['script']})


class Side:
    """one optimisation written by hand whose generations improve exactly when they are told to"""

    def __init__(self, ctx, multi):
        self.ctx, self.multi, self.level = ctx, multi, 1000
        R = ctx.rng
        self.gd = (ga.MultiGaData if multi else ga.GaData)(num_generations=R.choice([1, 3, 9]), children_percent=0.7, early_stop=R.choice([0, 1, 5]))
        kind = R.choice(['bin', 'gray'] if multi else ['bin', 'gray', 'cat', 'ord'])
        self.gd.population = {'bin': ga.BinaryPopulation, 'gray': ga.BinaryGrayPopulation, 'cat': ga.CatPopulation, 'ord': ga.OrderCatPopulation}[kind]()
        gens = {'cat': [list(range(60)), (0, 40, 2), ['x', 'y', 'z']] * 2, 'ord': (3, 40, 9)}.get(kind) or ((0, 2 ** 24 - 1, 1), (-1, 2, 0.25))
        self.gd.population.set_params(num_individ=4, gens=gens)
        self.gd.population.fill()
        self.fit = (ga.FFGAFitness if multi else ga.HyperbolaFitness)(obj_function=self.value)
        self.ops = [ga.TournamentSelection(2), ga.OrderCrossover() if kind == 'ord' else ga.UniformCrossover(),
                    ga.SwapMutation(1.0) if kind == 'ord' else ga.CategoricalMutation(0.9) if kind == 'cat' else ga.BinStringMutation(0.5),
                    ga.MultiNewGeneration() if multi else ga.NewGeneration()]
        self.memo = {}

    def value(self, genes):
        v = self.level if self.better else self.level + 500
        return v if not self.multi else self.memo.setdefault(freeze(genes), (v, v + 1))         # several calls per member

    def step(self, better):
        if better:
            self.level -= self.ctx.rng.randint(1, 7)
        self.better = better
        if self.gd.idx_generation:
            for o in self.ops:
                set_seed(self.ctx.fresh_seed())
                o.execute(self.gd)
        self.fit.execute(self.gd)
        self.gd.update()

    def digest(self):
        return repr((self.gd.__dict__, list(self.gd.population)))

    def expected(self):
        b = self.gd.best_solution
        if self.multi:
            return [[repr(i['phenotype']) for i in b['pareto_set']], [repr(i['obj_score']) for i in b['pareto_set']]]
        return [repr(b['genotype']), repr(b.get('phenotype')), repr(b['score']), repr(b['obj_score']), repr(b['feasible'])]

    def read(self, text):
        one, blocks = {}, {}
        cur = None
        for ln in text.splitlines():
            t = ln.strip()
            if ln.startswith('\t\t') and cur is not None:
                blocks[cur].append(t)
            elif ':' in t:
                k, v = (z.strip() for z in t.split(':', 1))
                cur = k if not v else None
                if cur is not None:
                    blocks[cur] = []
                one.setdefault(('\t' in ln[:1]) * 'best ' + k.lower(), v)
        head = [int(one.get('index generation', -9)), int(one.get('best index generation', -9))]
        if self.multi:
            return head + [blocks.get('phenotypes', []), blocks.get('objective scores', [])]
        return head + [one.get('best genotype', 'None'), one.get('best phenotype', 'None'), one.get('best fitness score', 'missing'), one.get('best objective score', 'missing'), one.get('best feasible region', 'missing')]


# ------------------------------------------------------------------------------------------------ C25
class Calls:
    """the log of one run of a collector: operators of the user's own, which do or do not rely on the library's"""

    def __init__(self, case, thin, rng):
        self.log, self.data, self.depth = [], [], 0
        self.case, self.thin, self.bare = case, thin, thin and rng.random() < 0.5
        self.script = list(case['script'])
        self.error = rng.choice(gen.Failing.KINDS)('operator of the user')
        self.params = None

    def call(self, name, original, gd=None):
        """one outermost call of an operator"""
        if self.depth:
            return original()
        self.log.append(name)
        if gd is not None:
            self.data.append(gd)
        if self.case['raised'] == name and len(self.log) == len(self.case['log']):
            raise self.error
        if self.thin and name not in ('params', 'fill'):
            return None
        self.depth += 1
        try:
            return original()
        finally:
            self.depth -= 1

    def operator(self, cls, name, *a, **kw):
        calls = self

        class Own(cls):
            def execute(self, ga_data, *args, **kwargs):
                return calls.call(name, lambda: super(Own, self).execute(ga_data, *args, **kwargs), ga_data)
        if self.bare:                   # nothing but the method that is called
            base = {'fit': ga.BaseFitness, 'sel': ga.BaseSelection, 'cross': ga.BaseCrossover, 'mut': ga.BaseMutation, 'new': ga.NewGeneration}[name]

            class Own(base):            # noqa
                def __init__(self):
                    pass

                def execute(self, ga_data):
                    return calls.call(name, lambda: None, ga_data)
            a, kw = (), {}
        Own.__abstractmethods__ = frozenset()
        return Own(*a, **kw)

    def population(self, cls):
        calls = self

        class Own(cls):
            def set_params(self, num_individ, gens, input_population=None):
                calls.params = (num_individ, gens, input_population)
                return calls.call('params', lambda: super(Own, self).set_params(num_individ=num_individ, gens=gens, input_population=input_population))

            def fill(self, *a, **kw):
                return calls.call('fill', lambda: super(Own, self).fill(*a, **kw))
        return Own

    def storage(self, cls):
        calls = self

        class Own(cls):
            def update(self, *a, **kw):
                def own():
                    super(Own, self).update(*a, **kw)
                before = self.idx_generation
                calls.call('upd', own, self)
                self.idx_generation = before + 1
                self.num_generation_no_improve = calls.script.pop(0) if calls.script else 0

            def print_best_solution(self, *a, **kw):
                return calls.call('print', lambda: super(Own, self).print_best_solution(*a, **kw), self)
        return Own


def C25(ctx):
    cases = ctx.enumerate('Loop', 'SPECIFICATION Spec\nCONSTANTS\n MaxG = %d\n MaxNI = 2\n Stops = {0, 1, 2}\n Raising = TRUE\n'
                                  'INVARIANTS Balanced Bounded\nCHECK_DEADLOCK FALSE\n' % ctx.n(4, 6), ctx.n(400, 3000))
    long = [{'G': g, 'es': es, 'raised': '', 'script': sc} for g, es, sc in
            [(30, 10, [0] + [min(k, 40) for k in range(40)]), (25, 30, list(range(60))), (15, 3, [0, 1, 2, 3] * 10)]]
    for c in long:
        c['script'] = c['script'][:next((k for k in range(1, c['G']) if c['script'][k] > c['es']), c['G'] - 1) + 1]
        c['log'] = ['params', 'fill', 'fit', 'upd'] + ['sel', 'cross', 'mut', 'new', 'fit', 'upd'] * (len(c['script']) - 1) + ['print']
    for c in cases + long * ctx.n(3, 10):
        if ctx.hung():
            return
        collector_calls(ctx, c)


def collector_calls(ctx, c):
    R = ctx.rng
    thin = R.random() < 0.5
    calls = Calls(c, thin, R)
    seed = ctx.fresh_seed()
    N, cp = R.choice([4, 6, 9]), R.choice([0.5, 0.75, 1.0])
    kind = R.choice(['bin', 'gray', 'cat'])
    multi = kind != 'cat' and R.random() < 0.4
    pop, gens, mut = {'bin': (ga.BinaryPopulation, [(0, 7, 1), (0, 3, 1)], ga.BinStringMutation), 'gray': (ga.BinaryGrayPopulation, [(0, 7, 1), (1, 2, 0.25)], ga.BinStringMutation),
                      'cat': (ga.CatPopulation, [['a', 'b', 'c'], [1, 2]], ga.CategoricalMutation)}[kind]
    if multi:
        fit, sel, store = ga.FFGAFitness, ga.BalancedSelection, ga.MultiGaData

        def f(x):
            return [sum(x), x[0] - x[1]]
    else:
        fit, sel, store = ga.HyperbolaFitness, ga.TournamentSelection, ga.GaData

        def f(x):
            return sum(1 for g in x if g in (1, 'a', 2))
    inputs = R.choice([None, {'bin': [[5, 1]], 'cat': [['b', 2]]}.get(kind)])
    new = ga.MultiNewGeneration if multi else ga.NewGeneration
    with ctx.guard('collector with operators of the user'):
        baumeva.generator.rnd_seed = seed
        col = baumeva.CollectorGA(calls.operator(fit, 'fit', obj_function=f),
                                  calls.operator(sel, 'sel'), calls.operator(ga.OnePointCrossover, 'cross'),
                                  calls.operator(mut, 'mut', R.choice(['normal', 0.0, 1.0, 0.3])), calls.operator(new, 'new', 'best'), calls.storage(store))
        raised = ''
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                col.set_population(calls.population(pop), num_individ=N, num_generations=c['G'], gens=gens, input_population=inputs,
                                   children_percent=cp, early_stop=c['es'])
                col.optimize()
        except BaseException as e:            # noqa
            if e is not calls.error:
                raise
            raised = calls.log[-1]
        y = {'log': list(calls.log), 'raised': raised, 'same': all(d is calls.data[0] for d in calls.data),
             'params': ascii(calls.params)}
        x = {'log': c['log'], 'raised': c['raised'], 'same': True, 'params': ascii((N, gens, inputs))}
        if col.ga_data is not None and c['raised'] not in ('params', 'fill'):
            y['data'] = [col.ga_data is calls.data[0], col.ga_data.num_generations, col.ga_data.early_stop, ascii(col.ga_data.children_percent)]
            x['data'] = [True, c['G'], c['es'], ascii(cp)]
        pair(ctx, x, y, 'eq', f'calls of a collector ({kind}, {"own operators" if thin else "derived operators"})',
             {'case': c, 'seed': seed, 'kind': kind, 'thin': thin, 'multi': multi, 'N': N})


DRIVERS = {k: v for k, v in list(globals().items()) if re.fullmatch(r'C\d\d', k)}
