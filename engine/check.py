#!/opt/veriftools/pyvenv/bin/python
"""check.py PROPERTY [--tier quick|thorough]: verify the contracts of one property on /repo's current source."""
import argparse
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
GOENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', CGO_ENABLED='0', HOME='/root',
             PATH='/usr/local/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:' + os.environ.get('PATH', ''))

T0 = time.time()
LIMITS = {'quick': (600, 60), 'thorough': (640, 150)}     # proof seconds, seconds of searching for a failing input


def build_gossa(force=False):
    out = os.path.join(VERIF, '.build', 'gossa')
    src = os.path.join(HERE, 'gossa', 'main.go')
    if not force and os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(f) for f in (src, os.path.join(HERE, 'gossa', 'vfytypes.txt'))):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + '.%d' % os.getpid()
    subprocess.run(['go', 'build', '-o', tmp, '.'], cwd=os.path.join(HERE, 'gossa'), env=GOENV, check=True)
    os.replace(tmp, out)
    return out


def worker(conn, prop, i, path, deadline):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    t0 = time.time()
    res = {'obls': [], 'error': None, 'kind': '', 'under': [], 'contracts': {}, 'assumed': []}
    try:
        from vc import props, solver, spec
        from vc.ssa import Prog
        P = WORLD['P']
        task = WORLD['tasks'][i]
        solver.reset()
        E = props.engine(P)
        E.deadline = deadline
        try:
            task.run(E)
        except spec.Mismatch as e:
            res['kind'], res['error'] = 'mismatch', str(e)[:4000]
            if task.keep and not task.keep(str(e)):
                res['kind'], res['error'] = 'unsupported', 'stopped by a violation of another property'
        except Exception as e:
            res['kind'], res['error'] = 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:1500])
            if os.environ.get('VERIF_DEBUG'):
                res['error'] += '\n' + traceback.format_exc()[-3000:]
        for o in E.obls:
            if task.keep and not task.keep(o.kind):
                continue
            d = o.detail
            res['obls'].append((o.name, o.kind, o.fn, o.pos, o.status, str(d)[:6000] if o.status != 'discharged' and d else '', o.n))
        res['under'] = sorted(E.under)
        res['contracts'] = {k: v for k, v in E.used_contracts.items()}
        res['assumed'] = sorted(E.assumed)
        res['loops'] = E.loopstats
        res['solver'] = dict(solver.stats)
    except BaseException as e:
        res['kind'], res['error'] = 'unsupported', '%s: %s' % (type(e).__name__, str(e)[:1500])
    res['wall'] = time.time() - t0
    try:
        conn.send(res)
    except Exception as e:
        conn.send({'obls': [], 'error': 'result: %s' % e, 'kind': 'unsupported', 'under': [], 'contracts': {}, 'assumed': [], 'wall': 0})
    conn.close()


WORLD = {}


def prove(prop, deadline, jobs=8):
    """run every proof task in a process of its own"""
    tasks = WORLD['tasks']
    order = sorted(range(len(tasks)), key=lambda i: -tasks[i].big)
    pend, run, done = list(order), {}, {}
    ctx = mp.get_context('fork')
    while pend or run:
        while pend and len(run) < jobs and time.time() < deadline:
            i = pend.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, prop, i, None, deadline), daemon=True)
            p.start()
            b.close()
            run[i] = (p, a, time.time())
        if time.time() >= deadline:
            for i in pend:
                done[i] = None
            pend = []
        for i, (p, a, t0) in list(run.items()):
            got = None
            if a.poll(0.005):
                try:
                    got = a.recv()
                except EOFError:
                    got = {'obls': [], 'error': 'verifier process ended', 'kind': 'unsupported', 'under': [], 'contracts': {}, 'assumed': [], 'wall': time.time() - t0}
            elif time.time() > deadline + 5:
                p.kill()
                got = {'obls': [], 'error': 'time limit', 'kind': 'unsupported', 'under': [], 'contracts': {}, 'assumed': [], 'wall': time.time() - t0}
            if got is not None:
                done[i] = got
                p.join(1)
                if p.is_alive():
                    p.kill()
                del run[i]
        time.sleep(0.005)
    for i in done:
        if done[i] is None:
            done[i] = {'obls': [], 'error': 'not started within the time limit', 'kind': 'unsupported', 'under': [], 'contracts': {}, 'assumed': [], 'wall': 0}
    return [done[i] for i in range(len(tasks))]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--no-harness', action='store_true')
    a = ap.parse_args()
    if a.setup:
        build_gossa(True)
        import hunt
        hunt.warm(REPO, GOENV)
        return 0
    prop, tier = a.prop, a.tier if a.tier in LIMITS else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import hunt
    scratch = tempfile.mkdtemp(prefix='vfy_')
    try:
        return decide(prop, tier, seed, scratch, hunt, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def decide(prop, tier, seed, scratch, hunt, a):
    gossa = build_gossa()
    dump = os.path.join(scratch, 'ssa.json')
    with open(dump, 'w') as f:
        r = subprocess.run([gossa, REPO], stdout=f, stderr=subprocess.PIPE, env=GOENV)
    if r.returncode:
        print('cannot load %s:\n%s' % (REPO, r.stderr.decode(errors='replace')[-3000:]))
        return 2
    tproof, thunt = LIMITS[tier]
    from vc import props
    from vc.ssa import Prog
    setup_error = None
    P = None
    try:
        P = Prog(dump)
        WORLD['P'] = P
        WORLD['tasks'] = props.TASKS[prop](P) if prop in props.TASKS else []
    except Exception as e:
        setup_error = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        WORLD['tasks'] = []
    # a short search for failing inputs runs beside the proof: it validates the assumed models
    h = None if a.no_harness else hunt.start(prop, scratch, REPO, GOENV, seed, 10 if tier == 'quick' else 60, P)
    results = prove(prop, T0 + tproof) if WORLD['tasks'] else []
    nobl = sum(sum(o[6] for o in r['obls']) for r in results)
    ndis = sum(sum(o[6] for o in r['obls'] if o[4] == 'discharged') for r in results)
    refuted, unknown, unsup = [], [], []
    for t, r in zip(WORLD['tasks'], results):
        for o in r['obls']:
            if o[4] == 'refuted' and 'lock discipline' in o[1] and prop != 'C19':
                # judged under C19; here it only means that the store model cannot follow the code
                unsup.append((t.name, o[1]))
            elif o[4] == 'refuted':
                refuted.append((t.name, o))
            elif o[4] != 'discharged':
                unknown.append((t.name, o))
        if r['kind'] == 'mismatch':
            refuted.append((t.name, ('result differs from the specification', 'mismatch', '', '', 'refuted', r['error'], 1)))
        elif r['error']:
            unsup.append((t.name, r['error']))
        elif not r['obls']:
            unsup.append((t.name, 'no obligation was generated'))
    if setup_error:
        unsup.append(('setup', setup_error))
    if not WORLD['tasks'] and not setup_error:
        unsup.append(('setup', 'no proof task'))
    proved = not (refuted or unknown or unsup)
    hres = hunt.finish(h) if h else {'status': 'off'}
    if not proved and hres['status'] != 'failing' and not a.no_harness:
        left = min(thunt, 840 - (time.time() - T0))
        if left > 5:
            h2 = hunt.start(prop, scratch, REPO, GOENV, seed + 1000, left, P)
            hres2 = hunt.finish(h2)
            hres2['explored'] = hres2.get('explored', 0) + hres.get('explored', 0)
            hres = hres2
    failing = hres['status'] == 'failing'
    violation = failing or bool(refuted)
    rdir = os.path.join(VERIF, '.build', 'replay')
    replay = None
    if violation:
        os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, '%s-%s.json' % (prop, tier))
        rep = {'property': prop,
               'failed_obligations': [{'task': n, 'obligation': o[0] + ': ' + o[1], 'function': o[2], 'position': o[3], 'verifier_output': o[5]} for n, o in refuted[:20]],
               'undecided': [{'task': n, 'obligation': o[0] + ': ' + o[1], 'status': o[4]} for n, o in unknown[:20]] + [{'task': n, 'error': e} for n, e in unsup[:20]]}
        if failing:
            rep['failing_input'] = hres.get('failure')
            rep['reproduce'] = hres.get('cmd')
            rep['output'] = hres.get('output', '')[-6000:]
        with open(replay, 'w') as f:
            json.dump(rep, f, indent=1)
    evidence(prop, tier, seed, results, nobl, ndis, refuted, unknown, unsup, hres, violation, proved)
    print('%s: %d tasks, %d obligations, %d discharged, %d refuted, %d undecided, %d out of reach; search: %s (%d cases); %.1f s' % (
        prop, len(results), nobl, ndis, len(refuted), len(unknown), len(unsup), hres['status'], hres.get('explored', 0), time.time() - T0))
    for n, o in refuted[:6]:
        print('  FAILED %s: %s [%s %s]' % (n, o[1] if o[1] != 'mismatch' else o[5][:300], o[2], o[3]))
    for n, o in unknown[:6]:
        print('  undecided %s: %s (%s) [%s %s]' % (n, o[1], o[4], o[2], o[3]))
    for n, e in unsup[:6]:
        print('  out of reach %s: %s' % (n, e if os.environ.get('VERIF_DEBUG') else e[:300]))
    for line in known(prop):
        print(line)
    if violation:
        if failing:
            print('VIOLATION property=%s replay=%s' % (prop, replay))
        else:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
        return 1
    return 0


def known(prop):
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            if line.startswith('KNOWN-FINDING: property=%s ' % prop):
                out.append(line.strip())
    except OSError:
        pass
    return out


def evidence(prop, tier, seed, results, nobl, ndis, refuted, unknown, unsup, hres, violation, proved):
    from vc import assumptions
    under, contracts, assumed = set(), {}, set()
    st = {'queries': 0, 'time': 0.0, 'unknown': 0, 'lia': 0}
    loops = {}
    for r in results:
        under |= set(r['under'])
        assumed |= set(r['assumed'])
        for k, v in r['contracts'].items():
            contracts[k] = contracts.get(k, 0) + (v if isinstance(v, int) else 1)
        for k, v in r.get('solver', {}).items():
            st[k] = st.get(k, 0) + v
        for k, v in r.get('loops', {}).items():
            loops[k] = loops.get(k, 0) + v
    cov = {
        'obligations': nobl, 'discharged': ndis,
        'checker_cmd': 'engine/check.py %s --tier %s (VC generator over go/ssa of /repo, obligations discharged by z3)' % (prop, tier),
        'trusted_base': sorted(assumed) + ['golang.org/x/tools/go/ssa', 'engine/vc (the VC generator)', 'z3'],
        'functions_under_contract': sorted(under),
        'contracts_applied_at_calls': contracts,
        'tasks': [{'task': t.name, 'obligations': sum(o[6] for o in r['obls']), 'seconds': round(r.get('wall', 0), 2), 'status': 'out of reach: ' + r['error'][:300] if r['error'] else 'done'} for t, r in zip(WORLD['tasks'], results)],
        'solver': {'queries': st['queries'], 'seconds': round(st['time'], 2), 'back_end': 'z3 (bit-vectors; integer over-approximation for queries z3 does not answer within 120 ms)', 'integer_reading_used': st['lia'], 'unknown': st['unknown']},
        'loops': loops,
        'bounded_search': {'label': 'bounded, not counted as proved', 'status': hres['status'], 'evaluations': hres.get('explored', 0), 'what': 'random inputs against an independent reference, seed %d' % seed},
    }
    if not proved:
        cov['not_discharged'] = [{'task': n, 'obligation': o[0] + ': ' + o[1], 'status': o[4], 'function': o[2], 'position': o[3]} for n, o in (refuted + unknown)[:50]] + [{'task': n, 'out_of_reach': e} for n, e in unsup[:50]]
        cov['explanation'] = 'obligations listed under not_discharged were not proved; the bounded search of the real code stands in for them'
        cov['evaluations'] = hres.get('explored', 0)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'other', 'coverage': cov,
          'assumptions': assumptions.of(prop), 'wall_s': round(time.time() - T0, 2), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    sys.exit(main())
