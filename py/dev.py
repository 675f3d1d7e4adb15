"""Development aid: run a whole pipeline and list every violated clause with an example.
usage: dev.py PIPELINE PROFILE N DEPTH SEED SHOW"""
import sys, json, re
sys.dont_write_bytecode = True
import vp, checks
pipe, prof, n, d, seed, show = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
ctx = vp.Ctx('C00', 'quick', seed)
ctx.prepare()
gen, driver, trace, cfg = checks.PIPES[pipe]
beh = ctx.generate(gen, [(cfg(prof, d, *([3, int(__import__("os").environ["FORMS"])] if "FORMS" in __import__("os").environ and pipe in ("krylov","lls") else [])), n, d + 1)], prof)
tr = ctx.replay(driver, beh)
v = ctx.judge(trace, tr, cfg=checks.TRACECFG.get(trace), timeout=3000)
by = {t['id']: t for t in tr}
ex = {}
for i, cl in v.items():
    for c in cl:
        c0 = re.sub(r'\b\d+:', '', re.sub(r' @\d+$', '', c))
        c0 = re.sub(r'\[.*?\]', '', c0)
        ex.setdefault(c0, []).append((i, int(c.rsplit('@', 1)[1]) if '@' in c else 0, c))
json.dump(tr, open('/tmp/dev_traces_%s.json' % pipe, 'w'))
for c0 in sorted(ex)[:int(__import__('os').environ.get('MAX','6'))]:
    i, st, c = min(ex[c0], key=lambda z: z[1])
    print(c0, len(ex[c0]), 'e.g. trace', i, '@', st, c)
    evs = by[i]['ev'][:st] if st else by[i]['ev']
    for k, e in list(enumerate(evs))[-show:] if show else []:
        print('     ', k + 1, json.dumps(e['c'])[:260])
