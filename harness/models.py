"""Which bounded models of the specification belong to which property."""

GA_INV = ('BestIsBest HistoryMonotone ValuesAreOwn ScoreOrder EvalOnce FeasibleUnpenalised Decoded Closed Sizes Histories '
          'Counter Stops')
MO_INV = 'RankOne RankMonotone ScoreByRank OwnValues FrontIsFront FrontImproves CounterBounds Stops VegaSizes'

# scenarios of spec/GA.tla: (quick, thorough); a pair (scenario, generations) overrides the default bound of 2 (thorough 3)
GA = {
    'C01': ([1, 2, 14], [1, 2, 3, 4, 5, 9, 10, 14]), 'C02': ([1, 2, 4, 14], [1, 2, 3, 4, 5, 7, 13, 14]),
    'C03': ([1, 2, 4, 9], [1, 2, 4, 9, 10, 11]), 'C04': ([1, 4, 14], [1, 2, 4, 7, 8, 14]),
    'C05': ([9, 10, 11], [9, 10, 11]), 'C06': ([1, 9], [1, 3, 12]), 'C07': ([1, 4, 5], [1, 4, 5, 12]),
    'C08': ([1, 4, 5], [1, 3, 4, 5, 6, 7, 8]), 'C09': ([1, 4, 5], [1, 3, 4, 5, 6]), 'C10': ([1, 4, 5], [1, 4, 5, 6, 7, 8]),
    'C11': ([5, 9], [4, 5, 6, 9]), 'C12': ([1, 2], [1, 2, 6, 13]), 'C13': ([4, 5], [4, 5, 8]),
    'C14': ([1, 2, 4, 14], [1, 2, 4, 7, 8, 13, 14]), 'C15': ([2, 4, 14], [1, 2, 4, 6, 10, 12, 14]),
    'C17': ([1, 14], [1, 4, 14]), 'C21': ([14], [1, 4, 5]), 'C22': ([2, 14], [2, 4, 5, 14]), 'C23': ([1, 14], [1, 4, 14]), 'C24': ([1, 14], [1, 4, 14]),
}
MO = {
    'C18': ([1, 2, 3, 6, 7, 8], [1, 2, 3, 4, 5, 6, 7, 8]), 'C19': ([1, 2, 3, 4, 8], [1, 2, 3, 4, 5, 6, 7, 8]),
    'C20': ([4, 5, 6, 7], [4, 5, 6, 7]), 'C14': ([4], [4, 5, 6, 7]), 'C21': ([1, 4], [1, 4]), 'C22': ([1, 4], [1, 2, 4, 7]),
}
THOROUGH_G = {('GA', 5): 3, ('GA', 14): 6, ('GA', 12): 2, ('GA', 3): 3, ('GA', 6): 2, ('GA', 7): 2, ('GA', 8): 3}

# laws of spec/Laws.tla
LAWS = {'C03': 'score', 'C05': 'penalty score', 'C06': 'bin gray bits', 'C08': 'order mut', 'C09': 'one two uni order idem nest',
        'C10': 'mut mutnest', 'C13': 'rank', 'C14': 'share', 'C18': 'pareto2 pareto3 score', 'C19': 'pareto2 pareto3', 'C20': 'rank share'}


def ga(scn, g, prop, terminates=False):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Scn = {{{",".join(map(str, scn))}}}\n MaxG = {g}\n AllK = {{"{prop}"}}\n'
            f'INVARIANTS {GA_INV}\nPROPERTIES Elitism ClausesAccept{" Terminates" if terminates else ""}\nCHECK_DEADLOCK FALSE\n')


def mo(scn, g, prop, terminates=False):
    return (f'SPECIFICATION Spec\nCONSTANTS\n Scn = {{{",".join(map(str, scn))}}}\n MaxG = {g}\n AllK = {{"{prop}"}}\n'
            f'INVARIANTS {MO_INV}\nPROPERTIES VegaBest ClausesAccept{" Terminates" if terminates else ""}\nCHECK_DEADLOCK FALSE\n')


def jobs(prop, tier):
    """(name, module, configuration text, workers)"""
    out = []
    q = tier == 'quick'
    live = prop in ('C15', 'C22', 'C19')
    if prop in GA:
        if q:
            out.append((f'GA scenarios {GA[prop][0]}, 2 generations', 'GA', ga(GA[prop][0], 2, prop, live and prop != 'C15'), 2))
            if prop == 'C15':
                out.append(('GA scenario 14, 3 generations, with liveness', 'GA', ga([14], 3, prop, True), 2))
        else:
            for s in GA[prop][1]:
                g = THOROUGH_G.get(('GA', s), 3)
                out.append((f'GA scenario {s}, {g} generations', 'GA', ga([s], g, prop, live and s in (2, 14)), 4))
    if prop in MO:
        if q:
            out.append((f'MOGA scenarios {MO[prop][0]}, 2 generations', 'MOGA', mo(MO[prop][0], 2, prop, live), 3))
        else:
            for s in MO[prop][1]:
                g = 3 if s in (1, 4, 7) and prop in ('C18', 'C19', 'C20') else 2
                out.append((f'MOGA scenario {s}, {g} generations', 'MOGA', mo([s], g, prop, live), 4))
    if prop in LAWS:
        out.append(('laws ' + LAWS[prop], 'Laws', f'SPECIFICATION Spec\nCONSTANTS\n Depth = {0 if q else 1}\n Which = {{'
                    + ', '.join(f'"{x}"' for x in LAWS[prop].split()) + '}\nINVARIANTS AllHold\nCHECK_DEADLOCK FALSE\n', 2))
    if prop == 'C16':
        n = 2 if q else 4
        out.append((f'Seed, {n} foreign draws', 'Seed', 'SPECIFICATION Spec\nCONSTANTS\n Seeds = {"none","0","1","2"}\n'
                    f' MaxForeign = {n}\n Program <- Prog\n Rounds = 1\nINVARIANTS Reproducible Different\nCHECK_DEADLOCK FALSE\n', 2))
        for prog, rounds, foreign in [('Short', 2, 1)] if q else [('Prog', 2, 1), ('Short', 3, 1)]:
            out.append((f'Seed, {rounds} runs per seed', 'Seed', 'SPECIFICATION Spec\nCONSTANTS\n Seeds = {"none","0","1"}\n'
                        f' MaxForeign = {foreign}\n Program <- {prog}\n Rounds = {rounds}\nINVARIANTS Reproducible Different Sticky\nCHECK_DEADLOCK FALSE\n', 2))
    if prop == 'C17':
        a, b, s = (8, 8, 4) if q else (14, 14, 6)
        out.append((f'Inter {a}+{b} steps, {s} switches', 'Inter', f'SPECIFICATION Spec\nCONSTANTS\n StepsA = {a}\n StepsB = {b}\n'
                    f' MaxSwitch = {s}\nINVARIANTS Isolated\nCHECK_DEADLOCK FALSE\n', 2))
    if prop == 'C23':
        n, k, g, m = (4, 3, 3, 3) if q else (5, 4, 4, 4)
        out.append((f'Crash {n} members, {k} children, {g} generations, {m} failures', 'Crash', f'SPECIFICATION Spec\nCONSTANTS\n N = {n}\n Kids = {k}\n Gens = {g}\n'
                    f' MaxFail = {m}\nINVARIANTS ExactlyOnce CallsAddUp\nPROPERTIES Finished\nCHECK_DEADLOCK FALSE\n', 2))
    if prop == 'C24':
        n, k = (7, 3) if q else (9, 4)
        out.append((f'Report {n} steps, {k} reports', 'Report', f'SPECIFICATION Spec\nCONSTANTS\n Steps = {n}\n MaxPrint = {k}\n'
                    'INVARIANTS Sane Forward\nPROPERTIES Frame\nCHECK_DEADLOCK FALSE\n', 2))
    if prop == 'C25':
        n = 5 if q else 8
        out.append((f'Loop {n} generations', 'Loop', f'SPECIFICATION Spec\nCONSTANTS\n MaxG = {n}\n MaxNI = 3\n Stops = {{0, 1, 2}}\n Raising = TRUE\n'
                    'INVARIANTS Balanced Bounded\nPROPERTIES Ends\nCHECK_DEADLOCK FALSE\n', 2))
    return out


ASSUMPTIONS = [
    'the recording layer (harness/core.py) wraps public operator calls and reports their arguments and results by value',
    'bounded instances: populations of at most a few hundred individuals and runs of at most 140 generations',
    'scores and objective values of the drivers are exactly representable; floating-point rounding up to 1e-11 relative is ignored',
    'statistical clauses use six standard deviations',
]
