"""Search for concrete failing inputs: Go tests laid over the package with 'go test -overlay'."""
import json
import os
import re
import signal
import subprocess
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(HERE, 'harness')

CODEC = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06'}
RACE = {'C19'}


def files(prop, scratch, P):
    """(overlay name, path) of the test files for a property"""
    if prop in CODEC:
        gen = os.path.join(scratch, 'types_verif_test.go')
        with open(gen, 'w') as f:
            f.write(gentypes(prop, P))
        return [('codec_verif_test.go', os.path.join(H, 'codec_verif_test.go')), ('types_verif_test.go', gen), ('zz_vfy_types.go', os.path.join(HERE, 'gossa', 'vfytypes.txt'))], 'TestVerifCodec'
    out = [('server_verif_test.go', os.path.join(H, 'server_verif_test.go'))]
    return out, 'TestVerifServer'


def gentypes(prop, P):
    from vc import props
    names = []
    if prop == 'C01':
        names = ['bool', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'int', 'uint', 'float64', 'uuid.UUID']
    elif prop == 'C02':
        names = list(props.VARINTS)
    elif prop == 'C03':
        names = list(props.STRINGS)
    else:
        if P is not None:
            for t in props.wiretypes(P, False):
                if t.kind == 'struct' and t.name and t.name != 'messageSetV1' and t.pkg == P.pkg and t.fields:
                    names.append(t.name)
        names = sorted(set(names)) or ['kafkaHeader0', 'fetchRequestV2', 'messageV1']
        names += ['[]%s' % n for n in names] + ['*%s' % n for n in names] + ['[]int32', '[]string', '[]int64', '[][]byte', '[]bool', '[]float64']
        if prop != 'C04':
            names += ['string', 'int32', 'bool', 'int64', 'uuid.UUID', 'float64', 'uint16', '[]byte'] + [s for s in props.STRINGS + props.VARINTS if s[0].isupper()]
    lines = ['package kafkamock', '', 'import (', '\t"reflect"', '', '\t"github.com/google/uuid"', ')', '', 'var _ uuid.UUID', '', 'var verifTypes = []reflect.Type{']
    for n in names:
        lines.append('\treflect.TypeOf((*%s)(nil)).Elem(),' % n)
    return '\n'.join(lines + ['}', ''])


def warm(repo, env):
    """compile once so that the build cache holds the dependencies"""
    return


class Hunt:
    pass


def start(prop, scratch, repo, env, seed, budget, P):
    h = Hunt()
    h.t0 = time.time()
    h.res = {'status': 'none', 'explored': 0}
    h.budget = budget
    try:
        fs, test = files(prop, scratch, P)
        for _, p in fs:
            if not os.path.exists(p):
                h.res = {'status': 'not available', 'explored': 0}
                h.th = None
                return h
        ov = os.path.join(scratch, 'overlay%d.json' % seed)
        with open(ov, 'w') as f:
            json.dump({'Replace': {os.path.join(repo, n): p for n, p in fs}}, f)
        h.th = threading.Thread(target=run, args=(h, prop, scratch, repo, dict(env), seed, budget, ov, test, [p for _, p in fs]), daemon=True)
        h.th.start()
    except Exception as e:
        h.res = {'status': 'not available: %s' % e, 'explored': 0}
        h.th = None
    return h


def run(h, prop, scratch, repo, env, seed, budget, ov, test, paths):
    try:
        race = prop in RACE
        if race:
            env['CGO_ENABLED'] = '1'
        binp = os.path.join(scratch, 'verif%d.test' % seed)
        cmd = ['go', 'test', '-vet=off', '-c', '-overlay', ov, '-o', binp] + (['-race'] if race else []) + ['.']
        c = subprocess.run(cmd, cwd=repo, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=400)
        if c.returncode:
            h.res = {'status': 'does not build', 'explored': 0, 'output': c.stdout.decode(errors='replace')[-3000:]}
            return
        out = os.path.join(scratch, 'failure%d.json' % seed)
        env = dict(env, VERIF_PROP=prop, VERIF_SEED=str(seed), VERIF_BUDGET_MS=str(int(budget * 1000)), VERIF_OUT=out, GOMEMLIMIT='6GiB')
        log = os.path.join(scratch, 'log%d.txt' % seed)
        timeout = budget + 60
        with open(log, 'wb') as lf:
            p = subprocess.Popen([binp, '-test.run', '^' + test + '$', '-test.timeout', '%ds' % int(timeout + 30)], cwd=scratch, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = None
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        txt = open(log, errors='replace').read()
        m = re.findall(r'^EXPLORED (\d+)', txt, re.M)
        n = int(m[-1]) if m else 0
        res = {'explored': n, 'output': txt[-8000:]}
        if os.path.exists(out):
            try:
                res['failure'] = json.load(open(out))
            except Exception:
                res['failure'] = open(out, errors='replace').read()[:20000]
            res['status'] = 'failing'
            res['cmd'] = 'VERIF_PROP=%s VERIF_SEED=%d VERIF_BUDGET_MS=%d go test -overlay <overlay of %s> -run %s . (in %s)' % (prop, seed, int(budget * 1000), ', '.join(os.path.basename(x) for x in paths), test, repo)
        elif rc == 0:
            res['status'] = 'no failing input found'
        elif rc is None:
            res['status'] = 'search stopped (time)'
        else:
            res['status'] = 'search ended early (exit %s)' % rc
        h.res = res
    except Exception as e:
        h.res = {'status': 'search failed: %s' % e, 'explored': 0}


def finish(h):
    if h.th is not None:
        h.th.join(h.budget + 500)
    return h.res
