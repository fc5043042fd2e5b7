#!/opt/venv/bin/python
"""replay.py IN.json [OUT.json]: run harness items on the real package with concrete values.

Used by check.py; by hand: `replay.py replays/C01.json` re-runs a reported counterexample.
"""
import importlib
import json
import os
import random
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


SPREADS = [[-8], [8], [-35], [35], [-110], [110], [-280], [280], [0, -8, 8], [0, -35, 0], [0, -280, 0], [0, 35], [0, 110, -110]]


def main():
    spec = json.load(open(sys.argv[1]))
    out = open(sys.argv[2], 'w') if len(sys.argv) > 2 else sys.stdout
    if not spec.get('numba', True):
        os.environ['NUMBA_DISABLE_JIT'] = '1'
    os.environ.setdefault('NUMBA_CACHE_DIR', tempfile.mkdtemp(prefix='nb'))
    from symx import load
    load._prep()
    from symx import engine
    load.real()
    mod = importlib.import_module('harness.' + spec['prop'].lower())
    bad = 0
    for i, it in enumerate(spec['items']):
        endless = it.get('kind') == 'nontermination'
        if endless:      # an ordinary run takes far less: this process then ends by the signal
            out.write(json.dumps(dict(i=i, failed=False, status='started')) + '\n')
            out.flush()
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(100)
        res = run_item(mod, engine, it, spec['mode'], spec.get('seed', 1), i)
        if endless:
            signal.alarm(0)
        res['i'] = i
        bad += res['failed']
        out.write(json.dumps(res, default=str) + '\n')
        out.flush()
    return 1 if bad else 0


def run_item(mod, engine, it, mode, seed, i):
    fn = getattr(mod, it['harness'])
    real = {tuple(k) if isinstance(k, list) else k: v for k, v in it['values'].items()}
    status, msg = 'assume', ''
    # what to try: the solver's values, the same values made consistent with exp, and others on the same path
    if it.get('exact'):
        tries = [dict(clip=330.0)]
    elif mode == 'endless':
        tries = [dict()]
    elif mode == 'confirm' and it['kind'] == 'violation':
        tries = [dict(), dict(alt=True, clip=330.0), dict(clip=330.0)] + [dict(t=t) for t in range(30)]
        tries += [dict(t=t, clip=330.0, spread=s) for t in range(4) for s in SPREADS]
    elif mode == 'confirm':
        tries = [dict()] + [dict(t=t) for t in range(30)]
    else:
        tries = [dict(t=0)]
    for d in tries:
        t = d.get('t')
        jit = None if t is None else random.Random(seed * 1000003 + i * 101 + t)
        if d.get('alt') and not it.get('alt'):
            continue
        ctx = engine.ConCtx(it['cfg'], dict(real, **it['alt']) if d.get('alt') else real, jit, d.get('clip', 20.0),
                            d.get('spread'))
        try:
            fn(ctx)
            status = 'passed'
        except engine.AssumeFailed:
            continue
        except engine.CheckFailed as e:
            return dict(failed=True, status='failed', message=str(e)[:1500], values=ctx.used())
        except Exception as e:
            if type(e).__name__ == 'NumbaTypeError':
                pass
            return dict(failed=True, status='failed', values=ctx.used(), message='%s: %s\n%s' % (
                type(e).__name__, str(e)[:300], traceback.format_exc(limit=-5)[-1200:]))
    return dict(failed=False, status=status, message=msg, values=None)


if __name__ == '__main__':
    sys.exit(main())
