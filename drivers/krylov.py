"""Replays histories of specs/KrylovGen.tla in the real iterative solvers."""
import logging

from common import *
from parts import Parts

try:
    from pykrylov.linop import LinearOperator
    from pykrylov.cg import CG
    from pykrylov.cgs import CGS
    from pykrylov.bicgstab import BiCGSTAB
    from pykrylov.tfqmr import TFQMR
    from pykrylov.minres import Minres
    from pykrylov.symmlq import Symmlq
    CLS = {'cg': CG, 'cgs': CGS, 'bicgstab': BiCGSTAB, 'tfqmr': TFQMR, 'minres': Minres, 'symmlq': Symmlq}
    IMPORT = 'ok'
except BaseException as e:
    IMPORT = type(e).__name__


def val(x):
    v = frac(x)
    return v


def v(x):
    return np.array([frac(t) for t in x], dtype=float)


class Solver(object):
    def __init__(self, c, units=None):
        self.m, self.c = c['m'], c
        sym = self.m in ('cg', 'minres', 'symmlq')
        kw = {}
        if c['abstol'] != 'd':
            kw['abstol'] = frac(c['abstol'])
        if units is None:
            self.A = Parts(c['eA'], sym, np.int64 if c['dt'] == 'i8' else np.float64, buf=c['buf'])
            self.P = Parts(c['eP'], sym, buf=c['buf']) if c['eP']['f'] != 'no' else None
        else:
            # the same system in other units
            i, j, p = units
            self.A = Parts(c['eA'], sym, scale=2.0**i)
            self.P = Parts(c['eP'], sym, scale=4.0**p) if c['eP']['f'] != 'no' else None
            t = 2.0**j
            if self.P is not None and self.m == 'cg':
                t *= 2.0**p
            kw['abstol'] = kw.get('abstol', 1.0e-8) * t
        if c['reltol'] != 'd':
            kw['reltol'] = frac(c['reltol'])
        if self.P is not None:
            kw['precon'] = self.P.op
        self.kw = kw
        self.b = None
        self.obj = self.make()

    def make(self):
        return CLS[self.m](self.A.op, **self.kw)


def kwargs(m, c, mm, g):
    kw = {}

    def flags(**names):
        for k, n in names.items():
            if c[k] != 'd':
                kw[n] = c[k] == 'T' 
    if m in ('cg', 'cgs', 'bicgstab', 'tfqmr'):
        if g is not None:
            kw['guess'] = g
        if mm >= 0:
            kw['matvec_max'] = mm
        if m == 'cg':
            flags(chk='check_symmetric', curv='check_curvature', sr='store_resids', si='store_iterates')
    elif m == 'minres':
        if mm >= 0:
            kw['itnlim'] = max(1, mm)
        kw['show'] = False
        flags(chk='check', si='store_iterates')
        if c['shift'] != 'd':
            kw['shift'] = frac(c['shift'])
        if c['window'] != -1:
            kw['window'] = c['window']
        if c['rtol'] != 'd':
            kw['rtol'] = frac(c['rtol'])
        if c['etol'] != 'd':
            kw['etol'] = frac(c['etol'])
    else:
        if mm >= 0:
            kw['matvec_max'] = mm
        flags(chk='check', si='store_iterates')
        if c['shift'] != 'd':
            kw['shift'] = frac(c['shift'])
        if c['rtol'] != 'd':
            kw['rtol'] = frac(c['rtol'])
    return kw


def scal(x):
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    return num(x)


NUMS = ('residNorm', 'residNorm0', 'rnorm', 'Arnorm', 'Anorm', 'Acond', 'ynorm', 'xNorm', 'solutionNorm')
INTS = ('istop', 'itn', 'nIter', 'nMatvec')


def observe(m, K):
    if K.x is None:
        return {'none': K.bestSolution is None, 'conv': bool(K.converged), 'nmv': int(K.nMatvec)}
    o = {'none': False, 'istop': 0, 'x': vec(K.x), 'best': bool(np.array_equal(K.x, K.bestSolution, equal_nan=True)),
         'conv': bool(K.converged), 'nmv': int(K.nMatvec), 'res': num(K.residNorm), 'res0': num(K.residNorm0)}
    if m == 'cg':
        o['def'] = bool(K.definite)
        o['desc'] = [] if K.infiniteDescent is None else vec(K.infiniteDescent)
        o['hist'] = [num(t) for t in K.residHistory]
        o['resids'] = [vec(t) for t in K.resids]
        o['its'] = [vec(t) for t in K.iterates]
    elif m == 'minres':
        o['istop'], o['itn'] = int(K.istop), int(K.itn)
        o['hist'] = [num(t) for t in K.residHistory]
        o['its'] = [vec(t) for t in K.iterates]
        o['win'] = [num(t) for t in K.dir_errors_window]
        o['rnorm'], o['Anorm'], o['ynorm'], o['Acond'] = num(K.rnorm), num(K.Anorm), num(K.ynorm), num(K.Acond)
    elif m == 'symmlq':
        o['istop'], o['itn'] = int(K.istop), int(K.nIter)
        o['anorm'], o['xnorm'] = num(K.anorm), num(K.xNorm)
        o['its'] = [vec(t) for t in K.iterates]
    return o


def guess(S, c):
    if c['gl']:
        x = S.obj.x
        if x is not None and np.all(np.isfinite(x)) and np.all(np.abs(x) < 1e6):
            return x      # the very array: continuing from the last solution
    if not c['g']:
        return None
    g = v(c['g'])
    if c['gi'] and all(isinstance(t, int) for t in c['g']):
        g = g.astype(int)
    return g


def one(S, K, c, mm, g, show=False):
    """One call of solve, observed."""
    b = v(c['b'])
    if c['bi'] and all(isinstance(t, int) for t in c['b']):
        b = b.astype(int)
    if c['rb'] and S.b is not None and S.b.dtype == b.dtype:
        S.b[:] = b
        b = S.b
    S.b = b
    kw = kwargs(S.m, c, mm, g)
    if show:
        kw['show'] = True
    b0 = b.copy()
    g0 = None if g is None else g.copy()
    n0 = S.A.n
    o = {'mm': mm, 'g': [] if g is None else vec(g)}
    rng = np.random.get_state()
    with Silence() as sil:
        st, r = attempt(lambda: K.solve(b, **kw), 20)
    o['out'] = st
    if st != 'ok':
        o['exc'] = r
        return o
    o['count'] = S.A.n - n0
    o['silent'] = sil.text == ''
    st, r = attempt(lambda: observe(S.m, K))
    if st != 'ok':
        return {'mm': mm, 'out': 'err', 'exc': 'no results: ' + r}
    o.update(r)
    o['rng'] = same_state(rng, np.random.get_state())
    o['pure'] = bool(np.array_equal(b, b0) and b.dtype == b0.dtype and (g is None or (np.array_equal(g, g0) and g.dtype == g0.dtype))
                     and S.A.same() and (S.P is None or S.P.same()))
    xs = [] if K.x is None else [np.asarray(K.x)] + [np.asarray(t) for t in getattr(K, 'iterates', [])]
    o['own'] = not any(np.shares_memory(t, u) for t in xs for u in [b] + ([] if g is None else [g]))
    # the caller goes on using his arrays: what was reported stays
    b[:] = 77
    if g is not None:
        g[:] = 99
    st, r2 = attempt(lambda: observe(S.m, K))
    o['kept'] = st == 'ok' and r2 == r
    o['obs'] = r
    return o


def other(S, c, mm, g):
    """The same solve in other units: A 2^i, b 2^j, precon 4^p."""
    i, j, p = c['sc']
    st, T = attempt(lambda: Solver(S.c, c['sc']))
    if st != 'ok':
        return {'out': st, 'exc': T}
    b = v(c['b']) * 2.0**j
    kw = kwargs(S.m, c, mm, g)
    if 'guess' in kw:
        kw['guess'] = kw['guess'] * 2.0**(j - i)
    if 'shift' in kw:
        kw['shift'] = kw['shift'] * 2.0**i
    with Silence():
        st, r = attempt(lambda: T.obj.solve(b, **kw), 20)
    if st != 'ok':
        return {'out': st, 'exc': r}
    st, r = attempt(lambda: observe(S.m, T.obj))
    if st != 'ok':
        return {'out': 'err', 'exc': 'no results: ' + r}
    if r['none']:
        return {'out': 'none', 'exc': 'no solution', 'conv': r['conv'], 'nmv': r['nmv']}
    return {'out': 'ok', 'x': r['x'], 'conv': r['conv'], 'nmv': r['nmv'], 'istop': r.get('istop', 0)}


def run(cmds, tid):
    sol, ev = [], []
    for c in cmds:
        if IMPORT != 'ok':
            ev.append({'c': c, 'o': {'out': 'err', 'exc': 'import ' + IMPORT, 'runs': []}})
            break
        if c['op'] == 'new':
            st, r = attempt(lambda: Solver(c))
            if st == 'ok':
                sol.append(r)
            ev.append({'c': c, 'o': {'out': st, 'exc': r if st != 'ok' else '', 'runs': []}})
            if st != 'ok':
                break
            continue
        S = sol[c['k'] - 1]
        if c['op'] == 'change':
            st, r = attempt(lambda: (S.A if c['w'] == 'A' else S.P).change(c))
            ev.append({'c': c, 'o': {'out': st, 'exc': r if st != 'ok' else '', 'runs': []}})
            if st != 'ok':
                break
            continue
        runs = []
        for mm in c['mm']:
            g = guess(S, c)
            g1, g2 = (None, None) if g is None else (g.copy(), g.copy())
            o = one(S, S.obj, c, mm, g)
            # the same solve with an object never used before
            st, K = attempt(S.make)
            if st == 'ok':
                o2 = one(S, K, c, mm, g1)
                o['fresh'] = o2.get('obs') == o.get('obs') and o2['out'] == o['out']
                if c['show'] and o['fresh']:
                    o3 = one(S, S.make(), c, mm, g2, True)
                    o['shown'] = o3.get('obs') == o.get('obs') and o3['out'] == o['out']
            else:
                o['fresh'] = False
            o.pop('obs', None)
            o.setdefault('shown', True)
            o['u'] = [other(S, c, mm, g2)] if c['sc'] else []
            runs.append(o)
        ev.append({'c': c, 'o': {'out': 'ok', 'runs': runs}})
    return {'id': tid, 'ev': ev}


if __name__ == '__main__':
    out = Out(sys.argv[2])
    for k, line in enumerate(open(sys.argv[1])):
        out.put(run(json.loads(line), k + 1))
    out.close()
