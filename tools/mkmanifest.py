"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVED = ['C%02d' % i for i in range(1, 11)] + ['C%02d' % i for i in range(11, 22)]        # every obligation discharged
BOUNDED = [p for p in ['C%02d' % i for i in range(11, 22)] if p not in PROVED]              # a bounded check stands in, labelled so
CLAIMED = PROVED + BOUNDED
NOTE = ('Every obligation generated from the SSA form of /repo\'s current source is discharged by z3 for all inputs and iterations; '
        'trusted: go/ssa, the VC generator engine/vc, z3, and the models of library functions listed in the evidence. '
        'If a changed function leaves the verifier\'s reach, a bounded search of the real code stands in (labelled, not counted as proved).')
BNOTE = ('BOUNDED, not proved: the functions concerned are not (all) within the verifier\'s reach yet; a seeded search of the real server over TCP '
         'against an independent reference model stands in, with the bound stated in the evidence.')
WHY = {
    'C22': 'liveness (termination under every schedule of an asynchronous stop): contracts of this verifier are partial-correctness, and neither a variant nor fairness of the Go scheduler, of net.Conn deadlines or of lane cancellation can be expressed as a function contract here',
}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if p in CLAIMED:
        b = p in BOUNDED
        checks.append({'property': p, 'quick_cmd': 'python3-vt engine/check.py %s --tier quick' % p, 'thorough_cmd': 'python3-vt engine/check.py %s --tier thorough' % p,
                       'technique': 'bounded stand-in for contract verification: seeded search against a reference model' if b else 'contract-based deductive verification (own VC generator over go/ssa of /repo, obligations discharged by z3)', 'level': 'other' if b else 'proof', 'level_note': BNOTE if b else NOTE})
    else:
        na.append({'property': p, 'reason': WHY.get(p, 'not yet under contract')})
m = {'version': 1, 'setup_cmd': 'python3-vt engine/check.py --setup', 'hooks': {'guard': 'verif', 'enable': 'no hooks are needed: the checks read /repo as it is and lay their test files over it with go test -overlay', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
