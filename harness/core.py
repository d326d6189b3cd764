"""Recording layer: runs the real code of /repo unmodified and projects what it does to small integers.

Nothing here judges.  The public operator objects (`execute`, `update`, `fill`) are wrapped from outside, so an event
is recorded when the outermost public call returns; individuals are projected by value and interned, so that two equal
individuals have the same number in the trace.
"""
import ast as _ast
import bisect
import itertools
import os
import random as _random
import re as _re
import signal
import sys
import warnings
from fractions import Fraction

REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import baumeva                                   # noqa: E402
import baumeva.ga as ga                          # noqa: E402

assert os.path.realpath(baumeva.__file__).startswith(os.path.realpath(REPO) + '/'), baumeva.__file__

MAXDEN = 30000
_NPF = _re.compile(r'(?:np|numpy)\.\w+\(([^()]*)\)')


class Timeout(Exception):
    pass


def _on_alarm(signum, frame):
    raise Timeout('no result within the time limit')


class time_limit:
    def __init__(self, seconds):
        self.seconds = seconds

    # processor time of this process, so that a loaded machine does not look like a hang; real time only as a last resort
    TIMERS = ((signal.SIGPROF, signal.ITIMER_PROF, 1), (signal.SIGALRM, signal.ITIMER_REAL, 12))

    def __enter__(self):
        self.old = [signal.signal(sig, _on_alarm) for sig, _, _ in self.TIMERS]
        for _, timer, times in self.TIMERS:
            signal.setitimer(timer, self.seconds * times)

    def __exit__(self, *exc):
        for (sig, timer, _), old in zip(self.TIMERS, self.old):
            signal.setitimer(timer, 0)
            signal.signal(sig, old)


# ------------------------------------------------------------------------------------------------ wrapping
CURRENT = None      # active Recorder
_depth = 0


def kind_of(obj, name):
    if name == 'fill' and isinstance(obj, ga.BasePopulation):
        return 'fill'
    if name == 'update' and isinstance(obj, ga.GaData):
        return 'upd'
    if name == 'execute':
        for base, k in ((ga.BaseFitness, 'fit'), (ga.BaseSelection, 'sel'), (ga.BaseCrossover, 'cross'),
                        (ga.BaseMutation, 'mut'), (ga.NewGeneration, 'new')):
            if isinstance(obj, base):
                return k
    return None


def _wrap(cls, name, orig):
    def wrapper(self, *a, **kw):
        global _depth
        rec = CURRENT
        if rec is None or _depth > 0:
            return orig(self, *a, **kw)
        k = kind_of(self, name)
        if k is None:
            return orig(self, *a, **kw)
        gd = self if k == 'upd' else (a[0] if a else kw.get('ga_data'))
        _depth += 1
        try:
            rec.before(k, self, gd)
            res = orig(self, *a, **kw)
            rec.after(k, self, gd)
            rec.at = 'between'
            return res
        except BaseException as exc:
            if k == 'fit' and getattr(rec, 'crashes', False) and not isinstance(exc, Timeout):
                rec.aborted(gd, exc)
            raise
        finally:
            _depth -= 1
    wrapper.__wrapped__ = orig
    return wrapper


def _all_subclasses(c):
    out = {c}
    for s in c.__subclasses__():
        out |= _all_subclasses(s)
    return out


def install():
    for root in (ga.BasePopulation, ga.BaseFitness, ga.BaseSelection, ga.BaseCrossover, ga.BaseMutation,
                 ga.NewGeneration, ga.GaData):
        for cls in {c for sub in _all_subclasses(root) for c in sub.__mro__ if c.__module__.startswith('baumeva')}:
            for name in ('execute', 'update', 'fill'):
                fn = cls.__dict__.get(name)
                if fn is not None and callable(fn) and not hasattr(fn, '__wrapped__') \
                        and not getattr(fn, '__isabstractmethod__', False):
                    setattr(cls, name, _wrap(cls, name, fn))


# ------------------------------------------------------------------------------------------------ projection
def freeze(x):
    """Hashable value copy of anything the code stores in an individual."""
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    try:
        import numpy as np
        if isinstance(x, np.ndarray):
            return tuple(freeze(v) for v in x.tolist())
        if isinstance(x, np.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, dict):
        return tuple(sorted((repr(k), freeze(v)) for k, v in x.items()))
    return x


def as_list(x):
    if x is None:
        return []
    if isinstance(x, (list, tuple)):
        return list(x)
    return [x]


def is_num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool) and x == x and abs(x) != float('inf')


def is_ord(x):
    """comparable: a number or an infinity"""
    return isinstance(x, (int, float)) and not isinstance(x, bool) and x == x


def rat(x):
    """<<num, den>> with small terms, <<0, 0>> if x is not (the rounding of) such a number."""
    if not is_num(x):
        return [0, 0]
    f = Fraction(x).limit_denominator(MAXDEN)
    if abs(float(f) - x) > 1e-11 * max(1e-3, abs(x)) or abs(f.numerator) > 2 ** 30:
        return [0, 0]
    return [f.numerator, f.denominator]


class Problem:
    """Domain of a run: population type, gene declarations, how gene values become integers."""

    def __init__(self, kind, gens, items=None):
        self.kind = kind                  # bin gray cat ord
        self.gens = gens
        self.items = items                # ord only: letters instead of integers
        self.bits = []
        if kind in ('bin', 'gray'):
            for lo, hi, st in gens:
                n = 0
                pts = int((_exact(hi) - _exact(lo)) / _exact(st))
                while 2 ** n - 1 < pts:
                    n += 1
                self.bits.append(n)
            self.length = sum(self.bits)
            self.starts = [sum(self.bits[:i]) for i in range(len(self.bits))]
        elif kind == 'cat':
            self.pools = [list(g) if isinstance(g, list) else list(range(g[0], g[1] + 1, g[2])) for g in gens]
            self.length = len(gens)
        else:
            self.length = gens[2]

    def cfg(self):
        if self.kind in ('bin', 'gray'):
            out = []
            for (lo, hi, st), nb in zip(self.gens, self.bits):
                q = _lcm(*[_exact(v).denominator for v in (lo, hi, st)])
                out.append({'ln': int(_exact(lo) * q), 'hn': int(_exact(hi) * q), 'sn': int(_exact(st) * q), 'nb': nb})
            return out
        if self.kind == 'cat':
            return [{'n': len(p)} for p in self.pools]
        if self.items is not None:
            return [{'lo': 0, 'hi': len(self.items) - 1, 'n': self.gens[2]}]
        return [{'lo': self.gens[0], 'hi': self.gens[1], 'n': self.gens[2]}]

    def pop_class(self):
        return {'bin': ga.BinaryPopulation, 'gray': ga.BinaryGrayPopulation, 'cat': ga.CatPopulation,
                'ord': ga.OrderCatPopulation}[self.kind]

    def geno(self, g):
        """genotype -> list of ints, -9 for anything that is not a declared value"""
        if not isinstance(g, (list, tuple)):
            return [-9]
        out = []
        for i, x in enumerate(g):
            if self.kind in ('bin', 'gray'):
                out.append({'0': 0, '1': 1}.get(x, -9) if isinstance(x, str) else -9)
            elif self.kind == 'cat':
                out.append(_index(self.pools[i], x) if i < len(self.pools) else -9)
            elif self.items is not None:
                out.append(_index(self.items, x))
            else:
                out.append(x if isinstance(x, int) and not isinstance(x, bool) and abs(x) < 10 ** 6 else -9)
        return out

    def coords(self, p):
        """decoded values -> grid coordinates, -9 for values off the grid"""
        if self.kind not in ('bin', 'gray'):
            return []
        if p is None:
            return []
        if not isinstance(p, (list, tuple)):
            return [-9]
        out = []
        for i, x in enumerate(p):
            if i >= len(self.gens) or not is_num(x):
                out.append(-9)
                continue
            lo, hi, _ = self.gens[i]
            c = (x - lo) / (hi - lo) * (2 ** self.bits[i] - 1)
            r = round(c)
            out.append(r if abs(c - r) < 1e-6 else -9)
        return out

    def ints(self, vals):
        """integers for the objective functions, computed from gene values"""
        out = []
        for i, x in enumerate(vals):
            if self.kind in ('bin', 'gray'):
                out.append(int(round(x * 4)) if is_num(x) else 0)
            elif self.kind == 'cat':
                out.append(_index(self.pools[i], x) if i < len(self.pools) else 0)
            elif self.items is not None:
                out.append(_index(self.items, x))
            else:
                out.append(int(x) if is_num(x) else 0)
        return out


def _index(pool, x):
    for i, v in enumerate(pool):
        if type(v) is type(x) and v == x:
            return i
    return -9


def _exact(x):
    return x if isinstance(x, Fraction) else Fraction(str(x))


def _lcm(*a):
    from math import lcm
    return lcm(*a)


class Recorder:
    """Collects raw events of one run; `finish` turns them into one JSON-able trace line."""

    def __init__(self, problem, cfg, values=None, multi=False, numeric=True):
        self.problem, self.cfg, self.values, self.multi, self.numeric = problem, cfg, values, multi, numeric
        self.events = []
        self.table = {}
        self.calls = []
        self.callsok = True
        self.stray = 0
        self.in_fit = False
        self.pre = None
        self.at = 'start'
        self.best_refs = []
        self.hist_refs = []
        self.args = {}
        self.error = None
        self.reseed = None                # first of a series of seeds, one per event

    # -- objective calls (reported by the wrapped user function)
    def called(self, vals, data_ok):
        if self.in_fit:
            self.calls.append(freeze(vals))
            self.callsok = self.callsok and data_ok
        else:
            self.stray += 1

    # -- snapshots
    def key(self, ind):
        return (freeze(ind.get('genotype')), freeze(ind.get('phenotype')), freeze(ind.get('score')),
                freeze(ind.get('obj_score')), bool(ind.get('feasible')))

    def ident(self, ind):
        k = self.key(ind)
        if k not in self.table:
            self.table[k] = len(self.table) + 1
        return self.table[k]

    def snap(self, lst):
        return [] if lst is None else [self.ident(i) for i in lst]

    def ranks(self, lst):
        return [] if lst is None else [freeze(i.get('rank')) for i in lst]

    def before(self, k, op, gd):
        self.at = k
        if self.reseed is not None:
            self.reseed += 1
            baumeva.generator.rnd_seed = self.reseed
            _random.seed(self.reseed)
        if k == 'fill':
            return
        self.pre = {'pop': self.snap(gd.population), 'par': self.snap(gd.parents), 'kid': self.snap(gd.children)}
        if k == 'fit':
            self.calls, self.callsok, self.in_fit = [], True, True

    def after(self, k, op, gd):
        e = {'e': k}
        if k == 'fill':
            e['pop'] = self.snap(op)
        else:
            e['pre'] = self.pre['pop']
            e['pop'] = self.snap(gd.population)
        if k == 'fit':
            self.in_fit = False
            e['calls'] = list(self.calls)
            e['dok'] = 1 if self.callsok else 0
            e['rk'] = self.ranks(gd.population)
        elif k == 'sel':
            e['par'] = self.snap(gd.parents)
            e['rk'] = self.ranks(gd.population)
            e['alias'] = self._shared(gd.parents, gd.population)
        elif k == 'cross':
            e['prepar'] = self.pre['par']
            e['par'] = self.snap(gd.parents)
            e['kid'] = self.snap(gd.children)
            e['alias'] = self._shared(gd.children, gd.population) + self._shared(gd.children, gd.parents)
        elif k == 'mut':
            e['prepar'] = self.pre['par']
            e['par'] = self.snap(gd.parents)
            e['prekid'] = self.pre['kid']
            e['kid'] = self.snap(gd.children)
        elif k == 'new':
            e['prekid'] = self.pre['kid']
        elif k == 'upd':
            e['rk'] = self.ranks(gd.population)
            e['ni'] = gd.num_generation_no_improve
            e['ig'] = gd.idx_generation
            b = gd.best_solution
            if self.multi:
                e['front'] = self.snap(b.get('pareto_set'))
                e['frk'] = self.ranks(b.get('pareto_set'))
                e['big'] = b.get('idx_generation')
                self.hist_refs = list(gd.historical_best)
                e['hist'] = [self.snap(h) for h in gd.historical_best]
                e['hrk'] = [self.ranks(h) for h in gd.historical_best]
            else:
                e['best'] = self.ident(b)
                e['big'] = b.get('idx_generation')
                e['refs'] = [[self.ident(r), r.get('idx_generation')] for r in self.best_refs]
                self.best_refs.append(b)
                e['hb'], e['hm'], e['hw'] = (list(gd.historical_best), list(gd.historical_mediocre),
                                             list(gd.historical_worst))
        self.events.append(e)

    def aborted(self, gd, exc):
        """the user's function raised inside an evaluation"""
        self.in_fit = False
        e = {'e': 'fitx', 'pre': self.pre['pop'], 'pop': self.snap(gd.population), 'ncalls': len(self.calls), 'ni': gd.num_generation_no_improve,
             'ig': gd.idx_generation}
        b = gd.best_solution
        if self.multi:
            e['front'] = self.snap(b.get('pareto_set')) if b else []
            e['hist'] = [self.snap(h) for h in gd.historical_best]
        else:
            e['best'] = self.ident(b) if b else 0
            e['big'] = b.get('idx_generation') if b else 0
            e['hb'], e['hm'], e['hw'] = list(gd.historical_best), list(gd.historical_mediocre), list(gd.historical_worst)
        self.events.append(e)

    @staticmethod
    def _shared(a, b):
        """number of individuals of a that share a dict, genotype or phenotype list with one of b"""
        if a is None or b is None:
            return 0
        ids = set()
        for i in b:
            ids.add(id(i))
            for f in ('genotype', 'phenotype', 'obj_score'):
                if isinstance(i.get(f), list):
                    ids.add(id(i[f]))
        return sum(1 for i in a if id(i) in ids or any(isinstance(i.get(f), list) and id(i[f]) in ids
                                                      for f in ('genotype', 'phenotype', 'obj_score')))

    def done(self, gd):
        e = {'e': 'done', 'stray': self.stray, 'pop': self.snap(gd.population), 'ni': gd.num_generation_no_improve, 'ig': gd.idx_generation}
        b = gd.best_solution
        if self.multi:
            e['front'] = self.snap(b.get('pareto_set'))
            e['hist'] = [self.snap(h) for h in gd.historical_best]
        else:
            e['best'] = self.ident(b)
            e['big'] = b.get('idx_generation')
            e['refs'] = [[self.ident(r), r.get('idx_generation')] for r in self.best_refs]
            e['hb'], e['hm'], e['hw'] = (list(gd.historical_best), list(gd.historical_mediocre),
                                         list(gd.historical_worst))
        self.events.append(e)

    # -- printed reports
    def report(self, text):
        """what a report says, read back from its text"""
        def value(t):
            try:
                return _ast.literal_eval(t)
            except (ValueError, SyntaxError):
                try:
                    return float(t)
                except ValueError:
                    return t
        lines = text.splitlines()
        got, blocks, cur = {}, {}, None
        for ln in lines:
            t = ln.strip()
            if ln.startswith('\t\t') and cur is not None:
                blocks[cur].append(value(_NPF.sub(r'\1', t)))
            elif ':' in t:
                k, v = t.split(':', 1)
                cur = k.strip().lower() if not v.strip() else None
                if cur is not None:
                    blocks.setdefault(cur, [])
                else:
                    got.setdefault((ln.startswith('\t'), k.strip().lower()), []).append(value(_NPF.sub(r'\1', v.strip())))
        one = {k: v[0] for k, v in got.items()}
        e = {'e': 'rep', 'n': sum(1 for ln in lines if ln.strip().lower().startswith('best solution')), 'silent': 1 if text.strip() == '' else 0,
             'ig': one.get((False, 'index generation'), -9), 'big': one.get((True, 'index generation'), -9)}
        if self.multi:
            ph, ob = blocks.get('phenotypes', []), blocks.get('objective scores', [])
            e['front'] = []
            for p, o in itertools.zip_longest(ph, ob):
                e['front'].append(next((n for k, n in self.table.items() if k[1] == freeze(p) and k[3] == freeze(o)), 0))
        else:
            ind = {'genotype': one.get((True, 'genotype')), 'phenotype': one.get((True, 'phenotype')), 'score': one.get((True, 'fitness score')),
                   'obj_score': one.get((True, 'objective score')), 'feasible': one.get((True, 'feasible region'))}
            e['ind'] = self.table.get(self.key(ind), 0)
        self.events.append(e)

    def failed(self, exc):
        self.error = f'{type(exc).__name__}: {exc}'
        self.events.append({'e': 'raise', 'at': self.at, 'what': ascii(self.error[:160])})

    # -- projection to a trace line
    def finish(self):
        pr = self.problem
        keys = sorted(self.table, key=self.table.get)
        nobj = max([len(as_list(k[2])) for k in keys] + [1])
        # dense ranks of scores, per component
        comp = [set() for _ in range(nobj)]
        for k in keys:
            for j, s in enumerate(as_list(k[2])):
                if is_ord(s):
                    comp[j].add(s)
        for e in self.events:
            for f in ('hb', 'hm', 'hw'):
                comp[0].update(s for s in e.get(f, []) if is_ord(s))
        order = [{s: r + 1 for r, s in enumerate(sorted(c))} for c in comp]

        def srank(j, s):
            return order[j].get(s, -9) if is_ord(s) else -9

        # values of the user's function, recomputed for the individual's own genes
        vals = {}
        for k in keys:
            x = k[1] if pr.kind in ('bin', 'gray') else k[0]
            v = None
            if self.values is not None and isinstance(x, tuple):
                try:
                    v = tuple(self.values(list(x)))
                except Exception:
                    v = None
            vals[k] = v
        vd = self.cfg.get('vd', 1)
        if self.numeric:
            def num(y):
                return int(y * vd) if is_num(y) and abs(y) < 2 ** 26 and y * vd == int(y * vd) else -999999
            vproj = lambda j, y: num(y)
        else:
            vs = [set() for _ in range(64)]
            for k in keys:
                for j, y in enumerate(vals[k] or ()):
                    if is_ord(y):
                        vs[j].add(y)
            od = [{y: r + 1 for r, y in enumerate(sorted(c))} for c in vs]
            for j, c in enumerate(self.cfg.get('cond', [])):
                if c != 'opt':            # constraint values: zero stays zero
                    od[j] = {y: bisect.bisect_left(sorted(vs[j]), y) - bisect.bisect_left(sorted(vs[j]), 0) for y in vs[j]}
                    if 0 not in vs[j]:
                        od[j] = {y: r + 1 if y > 0 else r for y, r in od[j].items()}
            vproj = lambda j, y: od[j].get(y, -999999) if is_ord(y) else -999999
        oi = [j for j, c in enumerate(self.cfg.get('cond', [])) if c == 'opt'] or list(range(64))
        table = []
        for k in keys:
            x = k[1] if pr.kind in ('bin', 'gray') else k[0]
            arg = self._arg(x)
            table.append({'g': pr.geno(list(k[0]) if isinstance(k[0], tuple) else k[0]),
                          'p': pr.coords(list(k[1]) if isinstance(k[1], tuple) else k[1]),
                          's': [srank(j, s) for j, s in enumerate(as_list(k[2]))],
                          'q': [rat(s) for s in as_list(k[2])],
                          'o': [vproj(oi[j] if j < len(oi) else 63, y) for j, y in enumerate(as_list(k[3]))],
                          'v': [] if vals[k] is None else [vproj(j, y) for j, y in enumerate(vals[k])],
                          'f': 1 if k[4] else 0, 'a': arg})
        evs = []
        for e in self.events:
            e = dict(e)
            if 'calls' in e:
                e['calls'] = [self._arg(c) for c in e['calls']]
            for f in ('hb', 'hm', 'hw'):
                if f in e:
                    e[f] = [srank(0, s) for s in e[f]]
            for f in ('rk', 'frk'):
                if f in e:
                    e[f] = [self._rk(r) for r in e[f]]
            if 'hrk' in e:
                e['hrk'] = [[self._rk(r) for r in h] for h in e['hrk']]
            for f in ('ni', 'ig', 'big', 'ind'):
                if f in e and not (isinstance(e[f], int) and not isinstance(e[f], bool)):
                    e[f] = -9
            if 'refs' in e:
                e['refs'] = [[a, b if isinstance(b, int) else -9] for a, b in e['refs']]
            evs.append(e)
        return {'cfg': self.cfg, 'I': table, 'ev': evs}

    def _arg(self, x):
        if x is None or not isinstance(x, tuple):
            return 0
        x = tuple(float(v) if is_num(v) else v for v in x)
        if x not in self.args:
            self.args[x] = len(self.args) + 1
        return self.args[x]

    @staticmethod
    def _rk(r):
        """rank(s) times two"""
        out = []
        for x in as_list(r):
            y = 2 * x if is_num(x) else -9
            out.append(int(y) if y == int(y) else -9)
        return out


class recording:
    def __init__(self, rec):
        self.rec = rec

    def __enter__(self):
        global CURRENT, _depth
        CURRENT, _depth = self.rec, 0
        return self.rec

    def __exit__(self, *exc):
        global CURRENT, _depth
        CURRENT, _depth = None, 0
        return False


def set_seed(n):
    baumeva.generator.rnd_seed = n
    _random.seed(n)
