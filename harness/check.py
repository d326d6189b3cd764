"""check.py <property>: decides one property on /repo's current tree.

1. TLC checks the property on the specification's state machines (bounded, all random draws nondeterministic).
2. A driver process runs the real code of /repo: random configurations, behaviours and case families enumerated by TLC.
3. TLC evaluates the specification's clauses on every recorded event (spec/Trace.tla).

Exit 0: held.  Exit 1: VIOLATION line(s).  Exit 2: the check itself could not do its work.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import models                   # noqa: E402
import tlc                      # noqa: E402

PY = os.environ.get('VERIF_PYTHON', '/opt/venv/bin/python')


class Broken(Exception):
    """the check itself failed"""


def model_check(job):
    name, module, cfg, workers, limit = job
    r = tlc.tlc(module, cfg_text=cfg, workers=workers, timeout=limit)
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        raise Broken(f'model {name} does not satisfy its properties:\n' + r['out'][-3000:])
    return {'model': name, 'states': r['distinct'], 'transitions': r['generated'], 'depth': r['depth']}


SHARDS = {'quick': 4, 'thorough': 6}


def drive(prop, seed, tier, out):
    """several driver processes, each with random choices of its own; their traces are put together"""
    n = SHARDS[tier]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        parts = list(ex.map(lambda k: drive1(prop, seed, tier, out, k), range(n)))
    info = {'meta': [], 'cases': 0, 'case_states': 0, 'notes': {}, 'known': {}, 'events': []}
    with open(os.path.join(out, 'trace.ndjson'), 'w') as fh:
        for k, p in enumerate(parts):
            with open(os.path.join(out, str(k), 'trace.ndjson')) as src:
                shutil.copyfileobj(src, fh)
            for f in ('meta', 'events', 'cases', 'case_states'):
                info[f] += p[f]
            info['known'].update(p['known'])
            add_notes(info['notes'], p['notes'])
    return info


def add_notes(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            add_notes(a.setdefault(k, {}), v)
        else:
            a[k] = a.get(k, 0) + v


def drive1(prop, seed, tier, out, shard):
    env = dict(os.environ)
    env.update({'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': str(shard), 'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1'})
    limit = 600 if tier == 'quick' else 2400
    out = os.path.join(out, str(shard))
    os.mkdir(out)
    with open(os.path.join(out, 'log'), 'wb') as log:
        try:
            p = subprocess.run([PY, os.path.join(HERE, 'drive.py'), prop, str(seed), tier, out, str(shard)], stdout=log,
                               stderr=subprocess.STDOUT, timeout=limit, env=env, cwd=out)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 'timeout'
    text = open(os.path.join(out, 'log'), errors='replace').read()
    if rc != 0:
        raise Broken(f'driver ended with {rc}:\n' + text[-3000:])
    return json.load(open(os.path.join(out, 'info.json')))


CHUNK = 100_000_000             # bytes of traces TLC reads at a time


def chunks(f):
    """the trace file in pieces TLC can hold: (file, lines before it, lines in it)"""
    if os.path.getsize(f) <= CHUNK:
        with open(f, 'rb') as fh:
            return [(f, 0, sum(1 for _ in fh))]
    out, size, w = [], CHUNK, None
    with open(f, 'rb') as fh:
        for n, line in enumerate(fh):
            if size >= CHUNK:
                if w:
                    w.close()
                size, w = 0, open(f'{f}.{len(out)}', 'wb')
                out.append([w.name, n, 0])
            w.write(line)
            size += len(line)
            out[-1][2] += 1
    w.close()
    return out


def judge(prop, info, out, tier):
    """list of (line number from 1, event number from 1, clauses), statistics"""
    bad, stats = [], {'distinct': 0, 'generated': 0}
    for f, before, count in chunks(os.path.join(out, 'trace.ndjson')):
        b, r = judge1(prop, f, sum(n + 1 for n in info['events'][before:before + count]), tier)
        bad += [(t + before if t else 0, l, what) for t, l, what in b]
        for k in stats:
            stats[k] += r[k]
    return bad, stats


def judge1(prop, f, expected, tier):
    """a line whose judgement needs larger numbers than TLC has is left undecided; a handful at most"""
    for _ in range(8):
        bad, r = judge2(prop, f, expected, tier)
        m = re.search(r'tid = (\d+)', r['out'])
        if 'Overflow when computing' not in r['out'] or not m:
            return bad, r
        lines = open(f).read().splitlines()
        t = json.loads(lines[int(m.group(1)) - 1])
        print('UNDECIDED', prop, json.dumps(t.get('cfg'))[:600])
        expected -= len(t['ev'])
        t['ev'] = []
        lines[int(m.group(1)) - 1] = json.dumps(t)
        with open(f, 'w') as w:
            w.write('\n'.join(lines) + '\n')
    raise Broken('too many lines beyond the arithmetic of TLC')


def judge2(prop, f, expected, tier):
    r = tlc.tlc('Trace', env={'TRACE_FILE': f, 'TRACE_PROP': prop}, workers=6, timeout=800 if tier == 'quick' else 3000, heap='10g')
    bad = []
    for l in r['out'].splitlines():
        m = re.match(r'"BAD (\d+) (\d+) (.*)"$', l)
        if m:
            bad.append((int(m.group(1)), int(m.group(2)), m.group(3).replace('\\"', "'")))
    if 'Overflow when computing' in r['out'] and 'tid = ' in r['out']:
        return bad, r
    if r['rc'] != 0 or 'No error has been found' not in r['out']:
        m = re.search(r'tid = (\d+)', r['out'])
        k = re.search(r'\bl = (\d+)', r['out'])
        if 'Error: ' in r['out'] and ('evaluat' in r['out'] or 'Attempted' in r['out']) and 'OutOfMemory' not in r['out']:
            what = ' '.join(r['out'][r['out'].index('Error: '):].split())[:300]
            bad.append((int(m.group(1)) if m else 0, int(k.group(1)) if k else 0,
                        prop + ' recorded behaviour outside the specification: ' + what))
        elif not bad:
            raise Broken('trace validation failed:\n' + r['out'][-3000:])
    elif r['distinct'] != expected:
        raise Broken(f'trace validation judged {r["distinct"]} states, {expected} expected')
    return bad, r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    tier = 'thorough' if tier == 'thorough' else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='verif_' + prop + '_')
    try:
        with concurrent.futures.ThreadPoolExecutor(4 if tier == 'quick' else 2) as ex:
            limit = 840 if tier == 'quick' else 3000
            jobs = [ex.submit(model_check, j + (limit,)) for j in models.jobs(prop, tier)]
            info = drive(prop, seed, tier, scratch)
            t_drive = time.time() - t0
            bad, r = judge(prop, info, scratch, tier)
            checked = [j.result() for j in jobs]
        code = report(prop, tier, seed, info, bad, r, checked, scratch, t0, t_drive)
    except (Broken, tlc.TLCError) as e:
        print('CHECK ERROR', prop, e)
        code = 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def report(prop, tier, seed, info, bad, r, checked, scratch, t0, t_drive):
    lines = open(os.path.join(scratch, 'trace.ndjson')).read().splitlines()
    rdir = os.path.join(ROOT, 'replays')
    shown = 0
    seen = set()
    for t, l, what in sorted(bad):
        key = re.sub(r'[\d\'"].*', '', what[:60])
        if key in seen and shown >= 3 or shown >= 10:
            continue
        seen.add(key)
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f'{prop}-{shown + 1}.json')
        rec = json.loads(lines[t - 1]) if t else None
        with open(path, 'w') as fh:
            json.dump({'property': prop, 'seed': seed, 'tier': tier, 'clauses': what, 'event': l, 'setup': info['meta'][t - 1] if t else None,
                       'judge': f'TRACE_PROP={prop} TRACE_FILE=<this file\'s "trace" as one line> tlc -config spec/Trace.cfg spec/Trace.tla',
                       'trace': rec}, fh)
        print(f'VIOLATION property={prop} replay={path}')
        print('   ', what[:400])
        shown += 1
    finding = findings(prop, info)
    for f in finding:
        print(f'KNOWN-FINDING: property={prop} {f}')
    samples = []
    step = max(1, len(lines) // 4)
    for i in range(0, len(lines), step):
        d = json.loads(lines[i])
        if len(samples) < 5:
            samples.append({'line': i + 1, 'setup': info['meta'][i], 'cfg': d['cfg'], 'individuals': len(d['I']),
                            'events': len(d['ev']), 'first events': json.dumps(d['ev'][:2])[:600]})
    states = sum(c['states'] for c in checked) + r['distinct'] + info['case_states']
    cov = {'states': states, 'transitions': sum(c['transitions'] for c in checked) + r['generated'],
           'traces_validated_against_impl': len(lines), 'events_judged': sum(info['events']),
           'cases_enumerated_by_tlc_and_replayed': info['cases'], 'models': checked, 'notes': info['notes'],
           'samples': samples, 'driver_s': round(t_drive, 1)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': models.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(bad)}
    if finding:
        ev['known_findings'] = finding
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print(f'{prop} {tier} seed={seed}: {len(lines)} traces, {sum(info["events"])} events, {info["cases"]} enumerated cases, '
          f'{states} states, {len(bad)} violations, {ev["wall_s"]} s (driver {t_drive:.1f} s)')
    return 1 if bad else 0


def findings(prop, info):
    """listed findings of this property that the run confirmed"""
    out = []
    for l in open(os.path.join(ROOT, 'known_findings.txt')):
        m = re.match(r'known: property=(\S+) (\S+) (.*)', l)
        if m and m.group(1) == prop and info['known'].get(m.group(2)):
            out.append(m.group(2) + ' ' + m.group(3).strip())
    return out


if __name__ == '__main__':
    main()
