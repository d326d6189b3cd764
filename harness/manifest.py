"""writes MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GA, MO = 'TLA+ state machine GA.tla model-checked with TLC', 'TLA+ state machine MOGA.tla model-checked with TLC'
TV = 'recorded runs of the real code validated by TLC against the same clauses (Trace.tla)'
T = {
    'C01': f'{GA}; {TV}; all score scripts of Sched.tla replayed into the real classes',
    'C02': f'{GA}; {TV}; duplicate/transfer patterns enumerated by TLC (Cases.tla) and replayed',
    'C03': f'{GA}; {TV}', 'C04': f'{GA}; {TV} including every call of the objective function',
    'C05': f'{GA}; {TV}; condition layouts enumerated by TLC replayed with every penalty',
    'C06': f'{GA}; {TV}; exhaustive decoding of small genes judged by Decode', 'C07': f'{GA}; {TV}; coverage of the whole domain judged by TLC',
    'C08': f'{GA}; {TV}', 'C09': f'{GA}; {TV}; reachable children compared with the specified set by TLC',
    'C10': f'{GA}; {TV}; reachable mutants compared with the specified set by TLC',
    'C11': f'{GA}; {TV}; mutation frequencies judged by TLC', 'C12': f'{GA}; {TV}; winner frequencies on all weak orders judged by TLC',
    'C13': f'{GA}; {TV}; draw frequencies on all weak orders judged by TLC', 'C14': f'{GA} and MOGA.tla; {TV}',
    'C15': f'{GA}; {TV}; all score scripts of Sched.tla replayed into the real classes',
    'C16': 'TLA+ self-composition Seed.tla model-checked with TLC; its behaviours replayed into the real classes, digests compared by Trace.tla',
    'C17': f'TLA+ interleaving model Inter.tla and GA.tla model-checked with TLC; schedules replayed into the real classes; {TV}',
    'C18': f'{MO}; {TV}; small generations enumerated by TLC (Cases.tla) and replayed', 'C19': f'{MO}; {TV}',
    'C20': f'{MO}; {TV}; draw frequencies per objective judged by TLC',
    'C21': f'{GA} and MOGA.tla; simple classes, collector and hand-written loop compared generation by generation by Trace.tla',
    'C22': f'TLA+ decision table Config.tla enumerated by TLC and replayed; {GA} with termination; {TV}',
    'C23': f'TLA+ model Crash.tla (every placement of raising calls) model-checked with TLC and replayed; {TV}',
    'C24': f'{GA}; TLA+ model Report.tla (every order of generations and reports of two optimisations) replayed into real storages; printed reports read back and validated by TLC against the state of Trace.tla',
    'C25': 'TLA+ model Loop.tla (every placement of improvements and of a raising operator) model-checked with TLC; its behaviours replayed into the real collector with logging operators, logs compared by Trace.tla',
}
NOTE = 'state machine exhaustive within small bounds (all random draws nondeterministic); the real code is bound by conformance on recorded runs and TLC-enumerated cases, so beyond those it is sampled, not proved'
json.dump({'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': [
    {'property': p, 'quick_cmd': f'bin/check {p}', 'thorough_cmd': f'bin/check {p} thorough', 'evidence_file': f'evidence/{p}.json',
     'technique': T[p], 'level': 'model_checking', 'level_note': NOTE} for p in sorted(T)], 'not_applicable': []},
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
