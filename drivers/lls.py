"""Replays histories of specs/LlsGen.tla in the real least-squares methods."""
from common import *
from parts import Parts

try:
    from pykrylov.linop import LinearOperator
    from pykrylov.lls import LSQRFramework, LSMRFramework, CRAIGFramework, CRAIGMRFramework
    CLS = {'lsqr': LSQRFramework, 'lsmr': LSMRFramework, 'craig': CRAIGFramework, 'craigmr': CRAIGMRFramework}
    IMPORT = 'ok'
except BaseException as e:
    IMPORT = type(e).__name__


class Solver(object):
    def __init__(self, c, scale=None):
        self.m, self.c = c['m'], c
        self.A = Parts(c['eA'], False, np.int64 if c['dt'] == 'i8' and scale is None else np.float64, scale, buf=c['buf'])
        self.b = None
        self.obj = self.make()

    def make(self):
        return CLS[self.m](self.A.op)


def kwargs(S, c, lim, M, N):
    kw = {}
    if lim != -1:
        kw['itnlim'] = lim
    if c['damp'] != 0:
        kw['damp'] = frac(c['damp'])
    for k in ('atol', 'btol', 'conlim', 'etol'):
        if c[k] != 'd':
            kw[k] = frac(c[k])
    if c['window'] != -1:
        kw['window'] = c['window']
    if M is not None:
        kw['M'] = M.op
    if N is not None:
        kw['N'] = N.op
    if c['var'] and S.m in ('lsqr', 'craig'):
        kw['wantvar'] = True
    for k, n in (('sr', 'store_resids'), ('si', 'store_iterates')):
        if c[k]:
            kw[n] = True
    return kw


def opt(v):
    return 'none' if v is None else num(v)


def observe(m, K):
    o = {'x': vec(K.x), 'best': bool(np.array_equal(K.x, K.bestSolution, equal_nan=True)),
         'istop': int(K.istop), 'itn': int(K.itn), 'nmv': int(K.nMatvec), 'optimal': bool(K.optimal),
         'status': str(K.status), 'nres': [num(t) for t in K.normal_eqns_resids],
         'resids': [num(t) for t in K.resids],
         'r1': 'none', 'r2': 'none', 'rn': 'none', 'Anorm': 'none', 'Acond': 'none', 'Arnorm': 'none', 'xnorm': 'none',
         'norms': [], 'var': [], 'r': []}
    if m == 'lsqr':
        o['r1'] = num(K.r1norm)
        o['var'] = [] if K.var is None else vec(K.var)
    if m in ('lsqr', 'lsmr'):
        o['r2'], o['rn'], o['Anorm'], o['Acond'] = num(K.r2norm), opt(K.residNorm), num(K.Anorm), num(K.Acond)
        o['Arnorm'], o['xnorm'] = num(K.Arnorm), num(K.xnorm)
    if m != 'lsqr':
        o['norms'] = [num(t) for t in K.norms]
    if m == 'craig':
        o['r'] = vec(K.r)
        o['its'] = [vec(t) for t in K.iterates_p]
        o['itd'] = [vec(t) for t in K.iterates_d]
        o['win'] = [num(t) for t in K.dir_errors_d_window]
    else:
        o['its'] = [vec(t) for t in K.iterates]
        o['itd'] = []
        o['win'] = [num(t) for t in K.dir_errors_window]
    return o


def one(S, K, c, lim, M, N, show=False):
    b = np.array([frac(t) for t in c['b']], dtype=float)
    if c['bi'] and all(isinstance(t, int) for t in c['b']):
        b = b.astype(int)
    if c['rb'] and S.b is not None and S.b.dtype == b.dtype:
        S.b[:] = b
        b = S.b
    S.b = b
    b0 = b.copy()
    kw = kwargs(S, c, lim, M, N)
    if show:
        kw['show'] = True
    n0, t0 = S.A.n, S.A.nt
    o = {'lim': lim}
    rng = np.random.get_state()
    with Silence() as sil:
        st, r = attempt(lambda: K.solve(b, **kw), 20)
    o['out'] = st
    if st != 'ok':
        o['exc'] = r
        return o
    ret = r
    o['n'], o['nt'] = S.A.n - n0, S.A.nt - t0
    o['silent'] = sil.text == ''
    st, r = attempt(lambda: observe(S.m, K))
    if st != 'ok':
        return {'lim': lim, 'out': 'err', 'exc': 'no results: ' + r}
    o.update(r)
    o['ret'] = True
    if S.m == 'lsmr':
        st, same = attempt(lambda: vec(ret[0]) == r['x'] and [int(t) for t in ret[1:3]] == [r['istop'], r['itn']] and
                           [num(t) for t in ret[3:]] == [r['r2'], r['Arnorm'], r['Anorm'], r['Acond'], r['xnorm']])
        o['ret'] = st == 'ok' and bool(same)
    o['rng'] = same_state(rng, np.random.get_state())
    o['pure'] = bool(np.array_equal(b, b0) and b.dtype == b0.dtype and S.A.same() and all(p is None or p.same() for p in (M, N)))
    xs = [np.asarray(K.x)] + [np.asarray(t) for t in (K.iterates_p if S.m == 'craig' else K.iterates)]
    o['own'] = not any(np.shares_memory(t, b) for t in xs)
    o['apart'] = not any(np.shares_memory(t, u) for k, t in enumerate(xs) for u in xs[k + 1:])
    b[:] = 77
    st, r2 = attempt(lambda: observe(S.m, K))
    o['kept'] = st == 'ok' and r2 == r
    o['obs'] = r
    return o


def other(S, c, lim, M, N):
    """The same solve in other units: A 2^i, damp 2^i, b 2^j."""
    i, j = c['sc']
    st, T = attempt(lambda: Solver(S.c, 2.0**i))
    if st != 'ok':
        return {'out': st, 'exc': T}
    b = np.array([frac(t) for t in c['b']], dtype=float) * 2.0**j
    kw = kwargs(S, c, lim, M, N)
    if 'damp' in kw:
        kw['damp'] = kw['damp'] * 2.0**i
    with Silence():
        st, r = attempt(lambda: T.obj.solve(b, **kw), 20)
    if st != 'ok':
        return {'out': st, 'exc': r}
    st, r = attempt(lambda: observe(S.m, T.obj))
    if st != 'ok':
        return {'out': 'err', 'exc': 'no results: ' + r}
    return dict({k: r[k] for k in ('x', 'istop', 'itn', 'Acond')}, out='ok')


def run(cmds, tid):
    sol, ev = [], []
    for c in cmds:
        if IMPORT != 'ok':
            ev.append({'c': c, 'o': {'out': 'err', 'exc': 'import ' + IMPORT, 'runs': []}})
            break
        if c['op'] == 'new':
            st, r = attempt(lambda: Solver(c))
            if st == 'ok':
                sol.append(r)
            ev.append({'c': c, 'o': {'out': st, 'exc': r if st != 'ok' else '', 'runs': []}})
            if st != 'ok':
                break
            continue
        S = sol[c['k'] - 1]
        if c['op'] == 'change':
            st, r = attempt(lambda: S.A.change(c))
            ev.append({'c': c, 'o': {'out': st, 'exc': r if st != 'ok' else '', 'runs': []}})
            if st != 'ok':
                break
            continue
        if c['keep']:
            # the metrics of the last solve with this solver, with other parts
            M, N = S.M, S.N
            for p, q in ((M, c['cM']), (N, c['cN'])):
                if p is not None:
                    p.change({'p': q, 'how': 'put'})
        else:
            M = Parts(c['eM'], True) if c['eM']['f'] != 'no' else None
            N = Parts(c['eN'], True) if c['eN']['f'] != 'no' else None
        S.M, S.N = M, N
        runs = []
        for lim in c['lim']:
            o = one(S, S.obj, c, lim, M, N)
            st, K = attempt(S.make)
            if st == 'ok':
                o2 = one(S, K, c, lim, M, N)
                o['fresh'] = o2.get('obs') == o.get('obs') and o2['out'] == o['out']
                if c['show'] and o['fresh']:
                    o3 = one(S, S.make(), c, lim, M, N, True)
                    o['shown'] = o3.get('obs') == o.get('obs') and o3['out'] == o['out']
            else:
                o['fresh'] = False
            o.pop('obs', None)
            o.setdefault('shown', True)
            o['u'] = [other(S, c, lim, M, N)] if c['sc'] else []
            runs.append(o)
        ev.append({'c': c, 'o': {'out': 'ok', 'runs': runs}})
    return {'id': tid, 'ev': ev}


if __name__ == '__main__':
    out = Out(sys.argv[2])
    for k, line in enumerate(open(sys.argv[1])):
        out.put(run(json.loads(line), k + 1))
    out.close()
