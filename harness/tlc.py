"""Running TLC and reading what it says."""
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def tlc(module, cfg=None, env=None, workers=6, timeout=800, extra=(), heap='6g', cfg_text=None):
    """run TLC on spec/<module>.tla; returns dict(out, rc, generated, distinct, depth)"""
    tmp = tempfile.mkdtemp(prefix='verif_tlc_')
    try:
        if cfg_text is not None:
            cfgfile = os.path.join(tmp, 'run.cfg')
            with open(cfgfile, 'w') as fh:
                fh.write(cfg_text)
        else:
            cfgfile = os.path.join(SPEC, (cfg or module) + '.cfg')
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-Djava.io.tmpdir=' + tmp, '-cp', JAR, 'tlc2.TLC',
               '-workers', str(workers), '-metadir', os.path.join(tmp, 'meta'), '-noGenerateSpecTE', '-config', cfgfile]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        try:
            p = subprocess.run(cmd, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TLCError(f'TLC on {module} exceeded {timeout} s')
        out = p.stdout.decode('utf-8', 'replace')
        res = {'out': out, 'rc': p.returncode, 'generated': 0, 'distinct': 0, 'depth': 0}
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        if m:
            res['generated'], res['distinct'] = int(m[-1][0]), int(m[-1][1])
        m = re.search(r'depth of the complete state graph search is (\d+)', out)
        if m:
            res['depth'] = int(m.group(1))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
