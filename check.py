#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough]: decide one property (see DESIGN.md).

exit 0: held on everything explored; exit 1 + VIOLATION line: broken (counterexample reproduced on the real package);
exit 2: the machinery could not decide anything.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONHASHSEED', '0')
PY = '/opt/venv/bin/python'


STALL = 150     # a job without any progress for that long is stuck in the solver: it is stopped and run again once


ENDLESS = 100   # the same in replay.py


def run_job(job):
    prop, name, cfg, deadline, opts = job
    from symx import engine, load
    t = time.time()
    try:
        load.symbolic()
        mod = importlib.import_module('harness.' + prop.lower())
        load.FUNCS.clear()
        sys.monitoring.restart_events()
        e = engine.Engine(getattr(mod, name), cfg, deadline=deadline, **opts)
        signal.signal(signal.SIGVTALRM, lambda *a: e.watch())
        signal.setitimer(signal.ITIMER_VIRTUAL, 10, 10)
        e.run()
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        out = dict(name=name, cfg=cfg, stats=e.stats, complete=e.complete, candidates=e.candidates, unsupported=e.unsupported,
                   samples=e.samples, witnesses=e.witnesses, funcs=load.functions(), wall=time.time() - t, error=None,
                   collected=e.collected)
    except BaseException:
        out = dict(name=name, cfg=cfg, error=traceback.format_exc(), wall=time.time() - t)
    return out


def _child(job, pipe, beat, attempt):
    from symx import engine
    engine.BEAT = beat
    if attempt:
        import z3
        z3.set_param('smt.random_seed', 1 + attempt)
        z3.set_param('sat.random_seed', 1 + attempt)
    out = run_job(job)
    try:
        pipe.send(out)
    except Exception:
        pipe.send(dict(name=job[1], cfg=job[2], error=traceback.format_exc(), wall=out['wall']))
    pipe.close()
    os._exit(0)


def run_jobs(work, deadline, verbose):
    """One process per job, as many at a time as there are cores."""
    import gc
    from multiprocessing.connection import wait
    gc.collect()
    gc.freeze()
    sys.stdout.flush()
    mpc = mp.get_context('fork')
    nproc = min(8, os.cpu_count() or 8)
    results = [None] * len(work)
    todo = [(i, 0) for i in range(len(work))]
    running = {}     # pipe -> (i, attempt, process, beat)

    def done(i, r):
        results[i] = r
        if verbose:
            print(r['name'], r['cfg'], '%.1fs' % r['wall'], r.get('stats'), r.get('error') or '', flush=True)

    while todo or running:
        while todo and len(running) < nproc and time.time() < deadline:
            i, attempt = todo.pop(0)
            recv, send = mpc.Pipe(False)
            beat = mpc.Value('d', time.time(), lock=False)
            p = mpc.Process(target=_child, args=(work[i], send, beat, attempt), daemon=True)
            p.start()
            send.close()
            running[recv] = (i, attempt, p, beat)
        now = time.time()
        if not running:
            for i, attempt in todo:
                done(i, dict(name=work[i][1], cfg=work[i][2], error='not started in time', wall=0))
            break
        for c in wait(list(running), timeout=2):
            i, attempt, p, beat = running.pop(c)
            try:
                done(i, c.recv())
            except EOFError:
                done(i, dict(name=work[i][1], cfg=work[i][2], error='worker died', wall=0))
            c.close()
            p.join(5)
            if p.is_alive():
                p.kill()
        now = time.time()
        for c, (i, attempt, p, beat) in list(running.items()):
            stuck = now - beat.value > STALL
            if stuck or now > deadline + 40:       # jobs stop by themselves at the deadline
                p.kill()
                p.join(5)
                del running[c]
                c.close()
                if stuck and attempt == 0 and now < deadline - 30:
                    todo.append((i, 1))
                else:
                    done(i, dict(name=work[i][1], cfg=work[i][2], error='gave no answer in time', wall=0))
    return results


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--strict', action='store_true', help='exit 3 on anything inconclusive (used while developing)')
    ap.add_argument('--only', help='only harnesses with this name')
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--no-validate', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET') or (480 if tier == 'quick' else 3000))
    tmp = tempfile.mkdtemp(prefix='vcheck-')
    os.environ['NUMBA_CACHE_DIR'] = os.path.join(tmp, 'nb')
    try:
        rc = _main(a, prop, tier, seed, t0, t0 + budget, t0 + budget + 340, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def known_findings(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                out.append(line.split(' key=', 1)[1].split(' :: ')[0] if ' key=' in line else line)
    return out


def replay(items, prop, mode, tmp, tag, seed, numba, timeout):
    """Run harnesses on the real package with concrete values, in a separate process."""
    src, dst = os.path.join(tmp, tag + '.in.json'), os.path.join(tmp, tag + '.out.json')
    with open(src, 'w') as f:
        json.dump(dict(prop=prop, items=items, mode=mode, seed=seed, numba=numba), f, default=str)
    env = dict(os.environ)
    log = open(os.path.join(tmp, tag + '.log'), 'w')
    return subprocess.Popen([PY, os.path.join(HERE, 'replay.py'), src, dst], env=env, stdout=log, stderr=log), dst, \
        time.time() + timeout


def collect_replay(handle):
    p, dst, until = handle
    try:
        p.wait(timeout=max(1, until - time.time()))
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
    out = {}
    if os.path.exists(dst):
        for line in open(dst):
            try:
                d = json.loads(line)
                out[d['i']] = d
            except ValueError:
                pass
    return out, p.returncode


def _main(a, prop, tier, seed, t0, deadline, last, tmp):
    from symx import load
    try:
        load.symbolic()
    except BaseException:
        traceback.print_exc()
        print('ERROR: the package could not be loaded')
        return 2
    mod = importlib.import_module('harness.' + prop.lower())
    jobs = [j for j in mod.jobs(tier) if not a.only or j[0] == a.only]
    work = [(prop, j[0], _js(j[1]), deadline, (j[2] if len(j) > 2 else {})) for j in jobs]
    results = run_jobs(work, deadline, a.verbose)

    # judgements over all paths of a job (e.g. the set of reachable outcomes)
    candidates, notes = [], []
    for r in results:
        if r['error']:
            notes.append('error in %s %s: %s' % (r['name'], r['cfg'], r['error'].strip().splitlines()[-1]))
            if a.verbose:
                print(r['error'])
            continue
        for c in r['candidates']:
            c['harness'] = r['name']
            candidates.append(c)
        post = getattr(mod, 'post_' + r['name'][2:], None)
        if post and not r['candidates']:
            for msg, values in (post(r) or []):
                candidates.append(dict(kind='violation', message=msg, values=values, cfg=r['cfg'], harness=r['name'], detail='',
                                       has_model=True))
        if not r['complete'] and not r['candidates']:
            notes.append('not finished: %s %s (%d paths done)' % (r['name'], r['cfg'], r['stats']['paths']))
        if r['stats']['reach'] == 0 and not r['candidates'] and not r['cfg'].get('may_be_vacuous'):
            notes.append('vacuous: %s %s never reached its end' % (r['name'], r['cfg']))
        if r['stats']['unsupported']:
            notes.append('%d unsupported paths in %s %s: %s' % (r['stats']['unsupported'], r['name'], r['cfg'],
                                                                r['unsupported'][0][:200]))
    order = {'violation': 0, 'exception': 1, 'nontermination': 2, 'unknown': 3, 'unsupported': 4}
    candidates.sort(key=lambda c: order[c['kind']])

    def left():
        return max(20, min(280, last - time.time()))

    # the real package: confirm counterexamples, and run witnesses of decided paths through it (validates the encoding)
    numba = getattr(mod, 'NUMBA', True)
    confirmed, validated, failures = [], 0, []
    endless = [c for c in candidates if c['kind'] == 'nontermination']
    candidates = [c for c in candidates if c['kind'] != 'nontermination']
    if endless:    # each in a process of its own, which ends itself after a while
        for k, c in enumerate(endless[:2]):
            out, rc = collect_replay(replay([c], prop, 'endless', tmp, 'endless%d' % k, seed, True, left()))
            if rc == -signal.SIGALRM and out.get(0, {}).get('status') == 'started':
                confirmed.append(dict(c, real_message='had not ended after %d s' % ENDLESS))
                break
            notes.append('a run that does not end was not reproduced on the real package (%s): %s %s' % (
                out.get(0, {}).get('status', rc), c['harness'], c['cfg']))
            if a.verbose:
                print(c)
    if candidates and not confirmed:
        sel, per = [], {}
        for c in candidates:
            k = (c['harness'], c['kind'], c['message'][:60])
            if per.get(k, 0) < 3 and len(sel) < 40:
                per[k] = per.get(k, 0) + 1
                sel.append(c)
        out, rc = collect_replay(replay(sel, prop, 'confirm', tmp, 'confirm', seed, True, left()))
        for i, c in enumerate(sel):
            o = out.get(i)
            if o and o['failed']:
                c['real_message'] = o['message']
                c['real_values'] = o['values']
                confirmed.append(c)
            elif c['kind'] in ('violation', 'exception', 'unknown'):
                notes.append('%s not reproduced on the real package (%s): %s %s: %s' % (
                    c['kind'], (o or {}).get('status', 'replay gave no answer'), c['harness'], c['cfg'], c['message'][:300]))
                if a.verbose:
                    print(c)
    if not confirmed and not a.no_validate:
        wit = []
        for r in results:
            if not r['error']:
                for w in r['witnesses']:
                    wit.append(dict(kind='witness', message='', values=w, cfg=r['cfg'], harness=r['name']))
        limit = getattr(mod, 'MAX_WITNESSES', 150)
        if len(wit) > limit:
            step = len(wit) / limit
            wit = [wit[int(k * step)] for k in range(limit)]
        if wit:
            out, rc = collect_replay(replay(wit, prop, 'validate', tmp, 'validate', seed, numba, left()))
            for i, c in enumerate(wit):
                o = out.get(i)
                if o and o['status'] == 'passed':
                    validated += 1
                elif o and o['failed']:
                    failures.append(dict(c, real_message=o['message'], real_values=o['values']))
            if len(out) < len(wit):
                notes.append('only %d of %d witnesses could be run on the real package (exit %s): %s' % (
                    len(out), len(wit), rc, open(os.path.join(tmp, 'validate.log')).read()[-400:]))
            if failures:   # a decided path whose concrete witness fails on the real package: confirm with everything real
                out, rc = collect_replay(replay(failures, prop, 'validate', tmp, 'validate2', seed, True, left()))
                for i, c in enumerate(failures):
                    o = out.get(i)
                    if o and o['failed']:
                        c['real_message'] = o['message']
                        confirmed.append(dict(c, message='witness of a decided path fails on the real package'))

    known = known_findings(prop)
    viol = []
    for c in confirmed:
        sig = '%s|%s' % (c['harness'], c['real_message'])
        k = next((k for k in known if k in sig), None)
        if k:
            print('KNOWN-FINDING: property=%s %s' % (prop, sig[:300]))
        else:
            viol.append(c)

    ok = [r for r in results if not r['error']]
    tot = {k: sum(r['stats'][k] for r in ok) for k in (ok[0]['stats'] if ok else {})}
    funcs = sorted({f for r in ok for f in r['funcs']})
    samples = [dict(harness=r['name'], cfg=_js(r['cfg']), inputs=s) for r in ok for s in r['samples'][:1]][:12]
    inconclusive = list(notes)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking', wall_s=round(time.time() - t0, 2), violations=len(viol),
              assumptions=getattr(mod, 'ASSUME', []),
              coverage=dict(
                  states=tot.get('paths', 0), transitions=tot.get('forks', 0), traces_validated_against_impl=validated,
                  samples=samples, obligations=tot.get('asserts', 0), discharged=tot.get('discharged', 0),
                  exhaustive=bool(ok) and len(ok) == len(results) and not notes,
                  explanation='bounded symbolic execution: states = explored paths of the real code, transitions = symbolic '
                              'branch decisions; every assertion is decided by z3 over all inputs of its path',
                  jobs=len(results), paths_reaching_the_end=tot.get('reach', 0), solver_queries=tot.get('queries', 0),
                  solver_seconds=round(tot.get('solver_s', 0), 3), unknown=tot.get('unknown', 0),
                  unsupported_paths=tot.get('unsupported', 0), functions_encoded=funcs, bounds=mod.BOUNDS[tier]
                  if isinstance(mod.BOUNDS, dict) else mod.BOUNDS, inconclusive=inconclusive[:20],
                  checker_cmd='python check.py %s --tier %s' % (prop, tier)))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d jobs, %d paths, %d assertions (%d discharged), %d queries, %.1fs solver, %d witnesses replayed, %.1fs' % (
        prop, tier, len(results), tot.get('paths', 0), tot.get('asserts', 0), tot.get('discharged', 0), tot.get('queries', 0),
        tot.get('solver_s', 0), validated, time.time() - t0))
    for n in notes[:12]:
        print('INCONCLUSIVE: ' + n)
    if viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', prop + '.json')
        with open(path, 'w') as f:
            json.dump(dict(prop=prop, mode='validate', seed=seed, numba=True, items=[
                dict(harness=c['harness'], cfg=c['cfg'], values=c.get('real_values') or c['values'], kind=c['kind'] if c['kind'] == 'nontermination' else 'witness',
                     message=c['message'], real_message=c['real_message'], exact=True) for c in viol]), f, indent=1, default=str)
        for c in viol[:5]:
            print('  %s %s' % (c['harness'], c['cfg']))
            print('  solver: %s' % c['message'][:500])
            print('  real package: %s' % c['real_message'][:700])
            print('  inputs: %s' % str(c.get('real_values') or c['values'])[:700])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if not ok or tot.get('reach', 0) == 0:
        print('ERROR: nothing was decided')
        return 2
    if notes and a.strict:
        return 3
    return 0


def _js(o):
    return json.loads(json.dumps(o, default=str))


if __name__ == '__main__':
    main()
