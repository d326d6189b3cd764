"""Configurations and runs.  All choices come from a random.Random given by the caller (derived from VERIF_SEED)."""
import copy
import io
import contextlib
import math
import random

from core import (Problem, Recorder, baumeva, ga, recording, time_limit, as_list)

BIN_GENES = [(0, 7, 1), (0, 15, 1), (-8, 7, 1), (-3, 4, 1), (0, 1, 0.25), (0, 1, 0.5), (-1, 1, 0.1), (2, 10, 3),
             (0, 5, 1), (100, 103, 1), (0, 1, 1), (-5, -2, 0.5), (0, 6, 2), (-16, 16, 0.5), (0, 3, 1), (5, 8, 1),
             (0, 12, 1), (-0.5, 0.5, 0.125), (1, 3, 0.01), (0, 31, 1), (0, 9, 1)]
BIN_WIDE = [(-16, 16, 0.01), (0.00001, 100, 0.01), (-5, 5, 0.001), (0, 100, 0.01), (0, 4095, 1), (-1000, 1000, 3)]
CPS = [(95, 100), (1, 2), (3, 4), (1, 1), (3, 10), (9, 10), (3, 5), (1, 5), (2, 5), (17, 20), (99, 100)]
SELS = {'tour': 'TournamentSelection', 'bal': 'BalancedSelection', 'rank': 'RankedSelection',
        'vtour': 'VEGATournamentSelection', 'vbal': 'VEGABalancedSelection', 'vrank': 'VEGARankedSelection'}
CROSS = {'one': 'OnePointCrossover', 'two': 'TwoPointCrossover', 'uni': 'UniformCrossover', 'order': 'OrderCrossover'}
MUTS = {'bit': 'BinStringMutation', 'cat': 'CategoricalMutation', 'swap': 'SwapMutation', 'move': 'MovementMutation',
        'inv': 'InversionMutation', 'shift': 'ShiftMutation'}
LEVELS = [0.0, 1.0, 0.5, 0.1, 0.35, 'weak', 'normal', 'strong', 0.05, 0.9]


def quota(cn, cd, n, parts=1):
    """int(children_percent*n/parts) - None where the float product is not safely on one side"""
    exact = cn * n / (cd * parts)
    k = (cn * n) // (cd * parts)
    if int(cn / cd * n / parts) != k or int(n * (cn / cd) / parts) != k:
        return None
    return k


def make_problem(rng, kind, small=False):
    if kind in ('bin', 'gray'):
        while True:
            n = rng.choice([1, 1, 2, 2, 3, 4])
            genes = tuple(rng.choice(BIN_GENES) for _ in range(n))
            if not small and rng.random() < 0.1:
                genes += (rng.choice(BIN_WIDE),)
            if rng.random() < 0.3:
                genes = list(genes)
            p = Problem(kind, genes)
            if p.length >= 3 and (not small or p.length <= 4):
                return p
    if kind == 'cat':
        n = rng.choice([3, 3, 4, 5, 6])
        gens = []
        for _ in range(n):
            r = rng.random()
            if r < 0.3:
                gens.append(rng.choice([(1, 10, 1), (0, 20, 5), (-3, 3, 2), (5, 5, 1), (0, 1, 1), (2, 9, 3), (0, 4, 3), (1000, 1012, 3), (-700, -690, 5)]))
            elif r < 0.45:
                gens.append([rng.choice(['x', 7, 2.5, None, '', 0, (), False])])
            elif r < 0.5:
                gens.append(rng.choice([[1, '1', 2], ['2.5', 2.5], [None, 0, 'None', '']]))
            elif r < 0.6:
                gens.append(['a', 3, 2.5, 'zz', (1, 2)][:rng.randint(2, 5)])
            else:
                letters = list('abcdefgh'[:rng.randint(2, 2 if small else 6)] if small or rng.random() < 0.8 else 'abcdefghijklmnop'[:rng.randint(7, 16)])
                if rng.random() < 0.35:
                    letters = rng.sample(rng.choice([range(-20, 200), range(500, 900), [x / 8 for x in range(40)], [w + 'en' for w in 'abcdefghijklmnop']]), len(letters))
                rng.shuffle(letters)
                gens.append(letters)
        if not any(len(g) > 1 for g in gens if isinstance(g, list)):
            gens[0] = ['p', 'q']
        return Problem('cat', gens if rng.random() < 0.5 else tuple(gens))
    r = rng.random()
    if small:
        return Problem('ord', (0, 2, 3))
    if r < 0.15:
        k = rng.randint(3, 8)
        return Problem('ord', (0, k - 1, k), items=list('ALGORITHMS')[:k])
    lo = rng.choice([0, 0, 1, 3, -4, 700])
    n = rng.randint(3, 8)
    extra = rng.choice([0, 0, 1, 4, 12])
    return Problem('ord', (lo, lo + n - 1 + extra, n))


def long_problem(rng, kind):
    """genotypes far longer than the ones of make_problem"""
    if kind in ('bin', 'gray'):
        genes = tuple(rng.choice(BIN_WIDE + BIN_GENES) for _ in range(rng.randint(6, 12)))
        if rng.random() < 0.3:
            genes = ((0, 2 ** rng.choice([20, 26, 30]) - 1, 1),) + genes[:4]
        elif rng.random() < 0.4:
            genes = tuple(rng.choice(BIN_GENES) for _ in range(rng.randint(13, 36)))
        return Problem(kind, genes)
    if kind == 'cat':
        return Problem('cat', [rng.choice([(1, 60, 1), (0, 300, 7), rng.sample('abcdefghijklmnopqrstuvwxyz', 26), [3, 1, 2], ['only'], rng.sample(range(100, 140), 40)])
                               for _ in range(rng.choice([rng.randint(12, 30), rng.randint(12, 30), rng.randint(31, 60)]))])
    n = rng.choice([rng.randint(11, 24), rng.randint(25, 40), rng.randint(41, 64)])
    lo = rng.choice([0, 1, -50, 1000])
    return Problem('ord', (lo, lo + n - 1 + rng.choice([0, 0, 5, 60]), n))


TINY_GENES = [(0, 1e-6, 1e-7), (0, 1e-9, 1e-10), (0, 1e-12, 1e-13), (-0.000004, 0.000003, 0.000001), (0.5, 0.500007, 0.000001)]


def fresh(v):
    """an equal value that is, as far as Python allows, another object: a user's inputs are not the declared objects themselves"""
    if isinstance(v, tuple):
        return tuple([fresh(x) for x in v])
    if type(v) in (int, float):
        return type(v)(repr(v))
    return ''.join([c for c in v]) if isinstance(v, str) else v


def random_genes(rng, pr):
    """gene values a user might supply"""
    if pr.kind in ('bin', 'gray'):
        out = []
        for (lo, hi, st), nb in zip(pr.gens, pr.bits):
            r = rng.random()
            if r < 0.2:
                out.append(lo)
            elif r < 0.4:
                out.append(hi)
            elif r < 0.7:
                out.append(lo + rng.randint(0, 2 ** nb - 1) * (hi - lo) / (2 ** nb - 1))
            elif r < 0.85:
                out.append(lo + (hi - lo) * rng.random())
            else:                       # a hair's breadth off the middle between two points
                out.append(lo + (rng.randint(0, 2 ** nb - 2) + 0.5 + rng.choice([-1, 1]) * rng.choice([1e-2, 1e-4, 3e-6])) * (hi - lo) / (2 ** nb - 1))
            out[-1] = min(max(out[-1], lo), hi)
        return out
    if pr.kind == 'cat':
        return [fresh(rng.choice(p)) for p in pr.pools]
    if pr.items is not None:
        x = list(pr.items)
        rng.shuffle(x)
        return x
    return [fresh(x) for x in rng.sample(range(pr.gens[0], pr.gens[1] + 1), pr.gens[2])]


def int_function(rng, pr, flavour):
    """a deterministic integer function of the gene values"""
    n = len(pr.gens) if pr.kind != 'ord' else pr.length
    a = [rng.randint(1, 7) for _ in range(n)]
    b = rng.randint(0, 9)
    if flavour == 'mod':
        m, off = rng.choice([2, 3, 5, 11, 17]), rng.choice([0, 0, -3, 4, 1])
        return lambda z: (sum(x * y for x, y in zip(a, z)) + b) % m + off
    if flavour == 'dist':
        t = [rng.randint(0, 4) for _ in range(n)]
        return lambda z: min(60, sum(abs(x - y) for x, y in zip(t, z)))
    if flavour == 'const':
        c = rng.choice([0, 1, -2, 5])
        return lambda z: c
    if flavour == 'large':
        k, off = rng.choice([7, 23, 29]), rng.choice([0, 0, -1500])
        return lambda z: (sum(x * y for x, y in zip(a, z)) + b) % 101 * k + off
    if flavour == 'neg':
        return lambda z: -(sum(x * y for x, y in zip(a, z)) % 23)
    raise ValueError(flavour)


def con_function(rng, pr, sign):
    n = len(pr.gens) if pr.kind != 'ord' else pr.length
    a = [rng.randint(1, 5) for _ in range(n)]
    m = rng.choice([2, 3, 5, 5, 9])
    off = rng.choice([-1, -1, -2, 0, 1 - m])
    return lambda z: sum(x * y for x, y in zip(a, z)) % m + off


TINY = [-1e-12, 0.0, -0.0, 1e-12, -3.5, 1e-9, -1e-6, 1e-4, 0, 3.5, -7.25, 42.0, 1e-15]
PENS = ['dyn', 'dyn', 'ada', 'sta', 'usr']


def penalty_for(rng, cond, pen, huge=False, halves=False):
    """(object factory, cfg fields)"""
    if halves:                          # exponents that are no whole numbers
        d, al, be = rng.choice([1, 2, 3]), rng.choice([1, 3, 5, 2, 4, 6]), rng.choice([1, 3, 5, 6])
        if pen == 'dyn':
            c = rng.choice([(1, 1), (1, 4), (4, 1)])
            return ((lambda: ga.DynamicPenalty(delta=d, c=c[0] / c[1], alpha=al / 2, betta=be / 2)), dict(d=d, cn=c[0], cd=c[1], al=al, be=be, h=2))
        b1, b2 = rng.choice([((2, 1), (3, 1)), ((5, 4), (2, 1)), ((4, 1), (3, 2))])
        return ((lambda: ga.AdaptivePenalty(delta=d, betta_1=b1[0] / b1[1], betta_2=b2[0] / b2[1], betta=be / 2)),
                dict(d=d, b1n=b1[0], b1d=b1[1], b2n=b2[0], b2d=b2[1], be=be, h=2))
    if pen == 'dyn':
        d, c, al, be = rng.choice([(1, (1, 2), 2, 2), (1, (1, 2), 2, 2), (2, (1, 1), 1, 1), (1, (1, 4), 1, 2),
                                   (3, (1, 2), 1, 2), (1, (1, 1), 2, 1), (5, (3, 4), 1, 1)])
        if (d, c, al, be) == (1, (1, 2), 2, 2) and rng.random() < 0.5:
            return (lambda: ga.DynamicPenalty()), dict(d=d, cn=1, cd=2, al=al, be=be)
        return ((lambda: ga.DynamicPenalty(delta=d, c=c[0] / c[1], alpha=al, betta=be)),
                dict(d=d, cn=c[0], cd=c[1], al=al, be=be))
    if pen == 'ada':
        d, b1, b2, be = rng.choice([(1, (11, 10), (12, 10), 2), (2, (2, 1), (3, 1), 1), (1, (5, 4), (2, 1), 2),
                                    (1, (4, 1), (3, 2), 2), (3, (5, 2), (7, 4), 1), (7, (9, 8), (10, 1), 1)])
        if (d, be, b1) == (1, 2, (11, 10)) and rng.random() < 0.5:
            return (lambda: ga.AdaptivePenalty()), dict(d=d, b1n=11, b1d=10, b2n=12, b2d=10, be=be)
        return ((lambda: ga.AdaptivePenalty(delta=d, betta_1=b1[0] / b1[1], betta_2=b2[0] / b2[1], betta=be)),
                dict(d=d, b1n=b1[0], b1d=b1[1], b2n=b2[0], b2d=b2[1], be=be))
    cons = [c for c in cond if c != 'opt']
    if pen == 'usr':
        return user_penalty([rng.randint(0, 9) for _ in cons])
    # static: intervals with borders at halves and at whole numbers (cfg: times 2)
    ei, er, ii, ir, tab = {}, {}, {}, {}, []
    for i, c in enumerate(cons):
        nint = rng.choice([1, 2, 3, 3, 4, 5, 6])
        cuts = sorted(rng.sample(range(1, 13) if nint > 3 else [1, 2, 3, 4, 5, 7], nint - 1)) if nint > 1 else []
        borders = [0] + [x / 2 if x % 2 else x // 2 for x in cuts] + [math.inf if huge else rng.choice([math.inf, 100])]
        coefs = [rng.randint(1, 6) for _ in range(nint)]
        order = rng.sample(range(nint), nint) if rng.random() < 0.3 else range(nint)      # the table need not be in order
        (ei if c == 'eq' else ii)[i] = [(borders[j], borders[j + 1]) for j in order]
        (er if c == 'eq' else ir)[i] = [coefs[j] for j in order]
        tab.append({'cuts': cuts, 'r': coefs})
    return (lambda: ga.StaticPenalty(ei, er, ii, ir)), dict(tab=tab)


def user_penalty(weights):
    """a penalty class of the user's own, as the base class invites"""
    class Weighted(ga.BasePenalty):
        def get_sum_conditional_func(self, conditionals, values):
            for w, c, v in zip(weights, conditionals, values):
                self.sum_conditional += w * (abs(v) if c == '!=' else max(0, v))

        def execute(self, conditionals, values, **kw):
            super().execute(conditionals, values)
            return self.sum_conditional
    return (lambda: Weighted()), dict(w=weights)


SIGNS = {'opt': 'optimize', 'le': '<=', 'eq': '!='}


class Setup:
    """Everything needed to build one optimisation in any of the three ways."""


def make_setup(rng, kind=None, small=False, constrained=None, entry=None, objectives=1, big=False, scored=None, sel=None,
               float_obj=False, penalties=True, objective_params=None):
    s = Setup()
    s.kind = kind or rng.choice(['bin', 'gray', 'cat', 'ord'])
    # big: one of a long genotype, a large generation or a long run
    shape = '' if not big else rng.choice(['long', 'crowd', 'years', 'marathon']) if big is True else big
    s.problem = pr = long_problem(rng, s.kind) if shape == 'long' else make_problem(rng, s.kind, small or shape == 'years' and rng.random() < 0.5)
    s.multi = objectives > 1
    s.M = objectives
    while True:
        s.N = rng.choice([3, rng.randint(4, 12), rng.randint(4, 12)]) if shape != 'crowd' else rng.choice([rng.randint(30, 60), rng.randint(61, 130), rng.randint(61, 130), rng.randint(200, 320)])
        ages = shape == 'years' and rng.random() < 0.35
        if ages:
            s.N = rng.randint(3, 6)
        if objectives > 5:
            s.N = max(s.N, rng.randint(objectives, 3 * objectives))
        if shape == 'marathon':
            s.N = rng.randint(30, 60)
        s.cp = rng.choice(CPS if shape != 'marathon' else CPS[:4])
        parts = objectives if sel and sel.startswith('v') else 1
        k = quota(s.cp[0], s.cp[1], s.N, parts)
        if k is not None and k >= 1:
            break
    s.G = {'': rng.randint(1, 7), 'long': rng.randint(2, 5), 'crowd': rng.randint(2, 4), 'years': rng.randint(20, 45) if not ages else rng.randint(70, 140), 'marathon': rng.randint(25, 40)}[shape]
    if s.multi and s.N > 130:
        s.N = 100
    if shape and s.multi and not (sel and sel.startswith('v')):
        s.G = min(s.G, 12 if s.N <= 60 else 3)      # FFGA generations may grow
    s.ts = rng.choice([2, min(3, s.N - 1), s.N - 1, rng.randint(2, s.N - 1)])
    s.tp = rng.choice(['best', 'best', 'random'])
    s.es = rng.choice([None, None, 0, 1, 2, 3, 10])
    if shape in ('years', 'marathon'):
        s.es = rng.choice([None, None, 5, 11, 60]) if not ages else rng.choice([None, None, 20, 60])
    s.float_obj = float_obj
    nconst = 0
    if constrained is None:
        constrained = rng.random() < 0.25
    if constrained:
        nconst = rng.choice([1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6])
    s.cond = ['opt'] * objectives + [rng.choice(['le', 'eq']) for _ in range(nconst)]
    if constrained or (s.multi and rng.random() < 0.3):
        rng.shuffle(s.cond)
    s.pen, s.penf, s.pencfg = 'none', None, {}
    if constrained and penalties:
        s.pen = rng.choice(PENS if not s.multi else ['dyn', 'sta', 'usr'])
        s.penf, s.pencfg = penalty_for(rng, s.cond, s.pen)
    s.conditions = [SIGNS[c] for c in s.cond] if constrained else (
        rng.choice([None, ['optimize'] * objectives]) if s.multi else rng.choice([None, None, ['optimize']]))
    s.entry = entry or rng.choice(['facade', 'collector', 'adv'])
    # operators
    if s.multi:
        s.algo = 'vega' if (sel and sel.startswith('v')) else 'ffga'
    else:
        s.algo = 'so'
    if s.entry == 'facade':
        if s.multi:
            s.sel = 'vtour' if s.algo == 'vega' else 'bal'
            s.cross, s.mut = 'one', 'bit'
        else:
            s.sel = 'tour'
            s.cross, s.mut = {'bin': ('one', 'bit'), 'gray': ('one', 'bit'), 'cat': ('uni', 'cat'),
                              'ord': ('order', 'move')}[s.kind]
    else:
        s.sel = sel or rng.choice(['tour', 'tour', 'bal', 'rank'] if not s.multi else ['tour', 'bal'])
        s.cross = 'order' if s.kind == 'ord' else rng.choice(['one', 'two', 'uni'])
        s.mut = {'bin': 'bit', 'gray': 'bit', 'cat': 'cat'}.get(s.kind) or rng.choice(['swap', 'move', 'inv', 'shift'])
    s.lvl = rng.choice(LEVELS)
    s.es_eff = s.es if s.es is not None else s.G
    # objective
    s.tiny = float_obj and constrained      # constraint values of any magnitude, known to the specification by sign and order
    flav = [rng.choice(['mod', 'mod', 'dist', 'neg', 'const' if rng.random() < 0.2 else 'mod']) for _ in range(objectives)]
    if not constrained and rng.random() < 0.2:
        flav[0] = 'large'
    fs, oi = [], 0
    for c in s.cond:
        if c == 'opt':
            fs.append(int_function(rng, pr, flav[oi]))
            oi += 1
        else:
            fs.append(con_function(rng, pr, c))
    s.target = None
    need_target = s.sel in ('bal', 'vbal') and s.algo != 'ffga'
    if need_target or rng.random() < 0.55:
        s.target = rng.choice([0, 0, 1, -2, 5, 0, 1, rng.choice([40, -60, 1500, -2500, 5000])]) if not s.multi else [rng.choice([0, 0, 1, -2, 5]) for _ in range(objectives)]
    if flav[0] == 'large' and s.target is None and not s.multi and rng.random() < 0.5:
        small, times = fs[0], rng.choice([1000, 5000])
        fs[0] = lambda z: small(z) * times
    # floating-point objectives: any magnitude, and infinite for some arguments unless scores are summed
    scale = rng.choice([1, 1, 1, 1e-9, 1e9, 1e15, 'int'])
    infinite = rng.choice([0, 0, 7, 3]) if s.sel not in ('bal', 'vbal') else 0
    s.data = rng.choice([None, None, None, 0, 3, '', [], 'data', {'k': 1}, {}, (), 0.0, False])
    s.vd = rng.choice([1, 1, 2]) if constrained and not float_obj else 1
    if not constrained and not float_obj and rng.random() < 0.4:
        s.vd = rng.choice([2, 4, 8, 64, 1024])
        if s.target is not None and not s.multi and rng.random() < 0.5:
            s.target += rng.randint(1, 7) / s.vd
    ret = rng.choice(['int', 'int', 'float', 'one', 'numpy']) if not s.multi and not constrained else rng.choice(['tuple', 'list'])
    if s.multi and not constrained:
        ret = rng.choice(['tuple', 'list'])
    if objective_params:
        s.data, s.target, ret = objective_params['data'], objective_params['target'], objective_params['ret']
        if s.target is None and need_target:
            s.target = 0
        if s.target is not None and s.target != int(s.target):
            s.vd = max(s.vd, 2)
    if float_obj and scale == 'int' and ret in ('float', 'numpy'):
        ret = 'int'
    s.ret = ret
    add = s.data if isinstance(s.data, int) else 0

    def values(vals):
        z = pr.ints(vals)
        if float_obj:
            y = [(10 ** 18 + f(z) if scale == 'int' else (math.cos(f(z) + 0.37 * sum(z)) * 3 + 0.01 * f(z)) * scale) if c == 'opt' else TINY[(f(z) * 3 + sum(z)) % len(TINY)]
                 for f, c in zip(fs, s.cond)]
            if infinite and sum(z) % infinite == 0 and not constrained:
                y = [math.inf] * len(y)
        else:
            y = [f(z) if s.vd == 1 else f(z) / s.vd for f in fs]
        return [v + add if c == 'opt' else v for v, c in zip(y, s.cond)]
    s.values = values

    def result(vals):
        y = values(vals)
        if ret == 'int':
            return y[0]
        if ret == 'numpy':
            import numpy
            return numpy.float64(y[0])
        if ret == 'float':
            return float(y[0])
        if ret == 'one':
            return (y[0],)
        return tuple(y) if ret == 'tuple' else list(y)
    s.result = result
    s.shared = rng.random() < 0.4
    s.inputs = None
    r = rng.random()
    if pr.items is not None:
        s.inputs = [random_genes(rng, pr) for _ in range(s.N)]
    elif r < 0.3 and max(pr.bits + [0]) <= 20:
        s.inputs = [random_genes(rng, pr) for _ in range(rng.choice([1, 2, s.N // 2, s.N]))]
        if rng.random() < 0.3:
            s.inputs = [list(s.inputs[0]) for _ in s.inputs]
        if rng.random() < 0.3:
            s.inputs = [tuple(i) for i in s.inputs]
    return s


def objective(s, rec):
    data = s.data

    def check(d):
        return d is data or (type(d) is type(data) and d == data)
    if s.data is not None:
        def f(d, gens):
            if rec is not None:
                rec.called(gens, check(d))
            return s.result(gens)
    else:
        def f(gens):
            if rec is not None:
                rec.called(gens, True)
            return s.result(gens)
    return f


def cfg_of(s, ident):
    pr = s.problem
    lv = -1
    if isinstance(s.lvl, float):
        lv = int(round(s.lvl * 1000))
    c = {'id': ident, 'type': 'run', 'kind': s.kind, 'algo': s.algo, 'gens': pr.cfg(), 'L': pr.length,
         'N': s.N, 'G': s.G, 'cn': s.cp[0], 'cd': s.cp[1], 'ts': s.ts, 'sel': s.sel, 'cross': s.cross, 'mut': s.mut,
         'lvl': lv, 'tp': s.tp, 'es': s.es_eff, 'M': s.M, 'cond': s.cond, 'pen': s.pen, 'pp': s.pencfg or {'none': 0},
         'tgt': [] if s.target is None else [int(t * s.vd) for t in ([s.target] if not s.multi else s.target)],
         'num': 0 if s.float_obj else 1, 'vd': s.vd, 'entry': s.entry, 'inputs': input_cfg(s)}
    return c


def input_cfg(s):
    """the user's individuals: categorical/ordered as genotype, binary as thousandths or millionths of a grid coordinate"""
    pr = s.problem
    out = []
    for ind in s.inputs or []:
        if s.kind in ('bin', 'gray'):
            us = [1000000 if nb <= 10 else 1000 for nb in pr.bits]
            out.append([[int(math.floor((x - lo) / (hi - lo) * (2 ** nb - 1) * u + 0.5)), u]
                        for x, (lo, hi, st), nb, u in zip(ind, pr.gens, pr.bits, us)])
        else:
            out.append(pr.geno(list(ind)))
    return out


_SHARED = {}


def operator(s, cls, *params):
    """an operator; sometimes one that already served other runs (other genotype lengths, generation sizes, kinds)"""
    if not getattr(s, 'shared', False):
        return cls(*params)
    key = (cls.__name__, repr(params))
    if key not in _SHARED:
        _SHARED[key] = cls(*params)
    return _SHARED[key]


def build_ops(s, f):
    kw = dict(obj_function=f, obj_value=s.target, input_data=s.data, penalty=s.penf() if s.penf else None,
              conditions=list(s.conditions) if s.conditions is not None else None)
    fit = {'so': ga.HyperbolaFitness, 'vega': ga.VEGAHyperbolaFitness, 'ffga': ga.FFGAFitness}[s.algo](**kw)
    sc = getattr(ga, SELS[s.sel])
    if s.sel == 'tour':
        sel = operator(s, sc, s.ts)
    elif s.sel == 'vtour':
        sel = operator(s, sc, s.M, s.ts)
    elif s.sel in ('vbal', 'vrank'):
        sel = operator(s, sc, s.M)
    else:
        sel = operator(s, sc)
    cross = operator(s, getattr(ga, CROSS[s.cross]))
    mut = operator(s, getattr(ga, MUTS[s.mut]), s.lvl)
    new = operator(s, ga.MultiNewGeneration if s.algo == 'ffga' else ga.NewGeneration, s.tp)
    return fit, sel, cross, mut, new


def inputs_copy(s):
    return copy.deepcopy(s.inputs)


def run_facade(s, f, is_print=False):
    kw = dict(num_generations=s.G, num_individ=s.N, gens=s.problem.gens, obj_function=f, obj_value=s.target,
              input_data=s.data, penalty=s.penf() if s.penf else None,
              conditions=list(s.conditions) if s.conditions is not None else None,
              children_percent=s.cp[0] / s.cp[1], early_stop=s.es, input_population=inputs_copy(s),
              tournament_size=s.ts, mutation_lvl=s.lvl, transfer_parents=s.tp, is_print=is_print)
    if s.multi:
        cls = baumeva.VEGA if s.algo == 'vega' else baumeva.FFGA
    else:
        cls = {'bin': baumeva.BinaryGA, 'gray': baumeva.BinaryGA, 'cat': baumeva.CategoricalGA,
               'ord': baumeva.CombinatoryGA}[s.kind]
    if s.kind in ('bin', 'gray'):
        kw['is_gray'] = s.kind == 'gray'
    if getattr(s, 'positional', False):
        s.facade = cls(*[kw[k] for k in FACADE_ORDER if k in kw])
    else:
        s.facade = cls(**kw)
    return s.facade.optimize()


# the documented order of the parameters of the simple classes (is_gray: binary ones only)
FACADE_ORDER = ['num_generations', 'num_individ', 'gens', 'obj_function', 'obj_value', 'input_data', 'penalty', 'conditions', 'is_gray', 'children_percent',
                'early_stop', 'input_population', 'tournament_size', 'mutation_lvl', 'transfer_parents', 'is_print']


def run_collector(s, f, out=None):
    fit, sel, cross, mut, new = build_ops(s, f)
    kw = dict(fitness=fit, selection=sel, crossover=cross, mutation=mut, new_generation=new)
    if s.multi:
        kw['storage'] = ga.MultiGaData
    c = s.collector = baumeva.CollectorGA(**kw)
    again_collector(s, out)
    return c.ga_data


def again_collector(s, out=None):
    c = s.collector
    c.set_population(population=s.problem.pop_class(), num_individ=s.N, num_generations=s.G, gens=s.problem.gens,
                     input_population=inputs_copy(s), children_percent=s.cp[0] / s.cp[1], early_stop=s.es_eff)
    with contextlib.redirect_stdout(io.StringIO() if out is None else out):
        c.optimize()


def adv_steps(s, f, hold):
    """the README's hand-written loop, as a generator yielding after every operator"""
    gd = (ga.MultiGaData if s.multi else ga.GaData)(num_generations=s.G, children_percent=s.cp[0] / s.cp[1],
                                                    early_stop=s.es_eff)
    hold.append(gd)
    pop = s.problem.pop_class()()
    pop.set_params(num_individ=s.N, gens=s.problem.gens, input_population=inputs_copy(s))
    fit, sel, cross, mut, new = build_ops(s, f)
    pop.fill()
    gd.population = pop
    yield
    fit.execute(gd)
    yield
    gd.update()
    yield
    for i in range(1, gd.num_generations):
        for op in (sel, cross, mut, new, fit):
            op.execute(gd)
            yield
        gd.update()
        yield
        if gd.num_generation_no_improve > gd.early_stop:
            break


def run_adv(s, f):
    hold = []
    for _ in adv_steps(s, f, hold):
        pass
    return hold[0]


class _Own(Exception):
    pass


class _OwnBase(BaseException):
    pass


class Failing:
    """the user's function, raising at the given calls (counted from 1); every exception raised is kept"""
    KINDS = [RuntimeError, ValueError, TypeError, KeyError, IndexError, ZeroDivisionError, AttributeError, OSError, KeyboardInterrupt,
             AssertionError, OverflowError, Exception, BaseException, MemoryError, NotImplementedError, RecursionError, LookupError, EOFError,
             SystemExit, TimeoutError, ConnectionError, PermissionError, FileNotFoundError, ArithmeticError, FloatingPointError, NameError, ImportError,
             BufferError, UserWarning, UnicodeError, InterruptedError, _Own, _OwnBase]

    def __init__(self, f, at, kinds):
        self.f, self.at, self.kinds, self.n, self.raised = f, set(at), kinds, 0, []

    def __call__(self, *a):
        self.n += 1
        if self.n in self.at:
            e = self.kinds[len(self.raised) % len(self.kinds)](f'call {self.n}')
            self.raised.append(e)
            self.f(*a)                  # the call itself is recorded
            raise e
        return self.f(*a)


def run_retry(s, f, hold=None):
    """the hand-written loop of a caller who evaluates again when the user's function raised; returns (GaData, exceptions caught)"""
    gd = (ga.MultiGaData if s.multi else ga.GaData)(num_generations=s.G, children_percent=s.cp[0] / s.cp[1], early_stop=s.es_eff)
    pop = s.problem.pop_class()()
    pop.set_params(num_individ=s.N, gens=s.problem.gens, input_population=inputs_copy(s))
    fit, sel, cross, mut, new = build_ops(s, f)
    caught = hold if hold is not None else []

    def evaluate():
        while True:
            n = len(f.raised)
            try:
                return fit.execute(gd)
            except BaseException as e:          # noqa - as different as the user's function raises
                if len(f.raised) == n or e is not f.raised[-1]:
                    raise
                caught.append(e)
    pop.fill()
    gd.population = pop
    evaluate()
    gd.update()
    for i in range(1, gd.num_generations):
        for op in (sel, cross, mut, new):
            op.execute(gd)
        evaluate()
        gd.update()
        if gd.num_generation_no_improve > gd.early_stop:
            break
    return gd


def run_reporting(s, f, rec, report):
    """a run whose printed output is kept; in the hand-written loop a report after every generation"""
    out = io.StringIO()
    if s.entry == 'adv':
        hold = []
        for _ in adv_steps(s, f, hold):
            if rec.events[-1]['e'] == 'upd':
                with contextlib.redirect_stdout(out):
                    if report:
                        hold[0].print_best_solution()
                rec.report(out.getvalue())
                out.seek(0)
                out.truncate()
        return hold[0]
    with contextlib.redirect_stdout(out):
        gd = run_facade(s, f, is_print=report) if s.entry == 'facade' else run_collector(s, f, out)
    rec.report(out.getvalue())
    return gd


def record_run(s, ident, seed, limit=20, reseed=True, fails=None, report=None):
    cfg = cfg_of(s, ident)
    if report is not None:
        cfg['print'] = 1 if report else 0
    rec = Recorder(s.problem, cfg, values=s.values, multi=s.multi, numeric=not s.float_obj)
    if reseed:
        rec.reseed = seed
    baumeva.generator.rnd_seed = seed
    f = objective(s, rec)
    if fails is not None:
        f = Failing(f, *fails)
        rec.crashes = True
    s.f = f
    s.caught = []
    gd = None
    with recording(rec):
        try:
            with time_limit(limit):
                if report is not None:
                    gd = run_reporting(s, f, rec, report)
                else:
                    gd = run_retry(s, f, s.caught) if fails is not None else {'facade': run_facade, 'collector': run_collector, 'adv': run_adv}[s.entry](s, f)
            rec.done(gd)
        except Exception as e:          # noqa - every way of failing is a recorded outcome
            rec.failed(e)
    s.ga_data = gd
    return rec.finish()
