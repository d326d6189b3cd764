"""plant.py BUGS.py [id ...]: makes /verif/seeded/<id>/ from a list of edits, after confirming each in a scratch copy of /repo:
applies, builds, passes the stable tests (unless --no-tests), demo passes without and fails with the change.
BUGS.py defines BUGS = [dict(id, property, file, old, new, demo, needs, breaks)] (file/old/new may be lists).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('--')]
tests = '--no-tests' not in sys.argv
SH = '''#!/bin/bash
# cwd: the tree under test
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=400):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def one(b):
    tmp = tempfile.mkdtemp(prefix='plant_')
    try:
        wt = os.path.join(tmp, 'repo')
        sh(f'git clone -q /repo {wt}', tmp)
        files, olds, news = [x if isinstance(x, list) else [x] for x in (b['file'], b['old'], b['new'])]
        if len(files) == 1:
            files = files * len(olds)
        for f, o, n in zip(files, olds, news):
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(o) != 1:
                return f'edit does not apply ({s.count(o)} matches of {o!r})'
            open(p, 'w').write(s.replace(o, n))
        diff = sh('git diff', wt).stdout
        d = os.path.join(tmp, 'seed')
        os.makedirs(d)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        r = sh(f'bash {d}/demo.sh', wt)
        if r.returncode == 0:
            return 'demo does not fail with the change'
        how = r.stdout.decode(errors='replace').strip().splitlines()[-1:]
        sh('git stash -q', wt)
        r = sh(f'bash {d}/demo.sh', wt)
        if r.returncode != 0:
            return 'demo fails without the change: ' + r.stdout.decode()[-500:]
        sh('git stash pop -q', wt)
        if tests:
            r = sh("printf '%s\\n' tests/*_test.py tests/multiple_objective/*_test.py | PYTHONPATH=$PWD MPLBACKEND=Agg xargs -P 6 -I{} "
                   "bash -c 'timeout 250 /opt/venv/bin/python {} >/dev/null 2>&1 || echo FAIL {}'", wt, 900)
            if b'FAIL' in r.stdout:
                return 'tests fail: ' + r.stdout.decode()[-800:]
        dest = os.path.join(ROOT, 'seeded', b['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(d, dest)
        shutil.rmtree(os.path.join(dest, '__pycache__'), ignore_errors=True)
        open(os.path.join(dest, 'patch.diff'), 'wb').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(dest, 'meta.json'), 'w'), indent=1)
        return 'ok ' + str(how)[:150]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for b in runpy.run_path(args[0])['BUGS']:
    if len(args) == 1 or b['id'] in args[1:]:
        print(b['id'], one(b), flush=True)
