"""Driver process: drive.py <property> <seed> <tier> <outdir> <shard>   |   drive.py digest <seed> <jobs>"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core                     # noqa: E402
core.install()
import drivers                  # noqa: E402


def main():
    if sys.argv[1] == 'digest':
        seed, jobs = sys.argv[2], json.loads(sys.argv[3])
        print(json.dumps([drivers.job_digest(seed, j) for j in jobs]))
        return
    prop, seed, tier, out, shard = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4], int(sys.argv[5])
    ctx = drivers.Ctx(prop, seed, tier, shard)
    try:
        drivers.DRIVERS[prop](ctx)
    except Exception as e:                # noqa
        # an exception out of the code under test, or a result that lacks what every result has, is an outcome;
        # anything else is our error
        frames = traceback.extract_tb(e.__traceback__)
        if not os.path.realpath(frames[-1].filename).startswith(os.path.realpath(core.REPO) + '/') \
                and not isinstance(e, (TypeError, KeyError, IndexError, AttributeError)):
            raise
        traceback.print_exc()
        ctx.fail('driver of ' + prop, e)
    known = {}
    if prop == 'C22' and shard == 0:
        known['K1'] = drivers.known_K1(seed)
    with open(os.path.join(out, 'trace.ndjson'), 'w') as fh:
        for l in ctx.lines:
            fh.write(json.dumps(l) + '\n')
    with open(os.path.join(out, 'info.json'), 'w') as fh:
        json.dump({'meta': ctx.meta, 'cases': ctx.cases, 'case_states': ctx.case_states, 'notes': ctx.notes, 'known': known,
                   'events': [len(l['ev']) for l in ctx.lines]}, fh)


main()
