"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
import checks
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NOTE = {
 'linop': ('TLA+ spec checked by TLC (exhaustive LinOpMC + simulated behaviours), replayed in the code, traces validated by TLC',
           'LinOp.tla (heap of operators, exact rational matrices). Exhaustive over all short histories of a small alphabet; '
           'conformance on random behaviours of up to 14 commands with operators up to 7x7 in five numeric types, every trace judged by LinOpTrace.'),
 'lbfgs': ('TLA+ spec checked by TLC (exhaustive LBFGSMC + simulated histories), replayed in the code, traces validated by TLC',
           'LBFGS.tla (queue of pairs; ring buffer refinement; recursions in exact rationals). Exhaustive for n=2, small integer pairs; '
           'conformance on random histories of up to 14 operations, n<=4, memory<=4, full matrix compared after every operation.'),
}
NOTE.update(getattr(checks, 'NOTES', {}))
out = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i not in checks.RUN:
        continue
    t, n = NOTE[checks.RUN[i].__name__]
    out['checks'].append({'property': i, 'quick_cmd': 'bin/check %s quick' % i, 'thorough_cmd': 'bin/check %s thorough' % i,
                          'technique': t, 'level': 'model_checking', 'level_note': n})
json.dump(out, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
