"""Operators made of parts (specs/Parts.tla): the real objects."""
from common import *

try:
    from pykrylov.linop import (LinearOperator, BlockLinearOperator, BlockDiagonalLinearOperator,
                                ReducedLinearOperator, SymmetricallyReducedLinearOperator)
    from pykrylov.linop import InverseLBFGSOperator, LBFGSOperator, CompactLBFGSOperator
    LM = {'inv': InverseLBFGSOperator, 'fwd': LBFGSOperator, 'cmp': CompactLBFGSOperator}
    IMPORT = 'ok'
except BaseException as e:
    IMPORT = type(e).__name__


class Leaf(object):
    """An operator over a private matrix, counting its products."""

    def __init__(self, a, sym, dt=np.float64, scale=None, buf=False):
        self.a = np.array([[frac(t) for t in r] for r in a], dtype=dt)
        if scale is not None:
            self.a *= scale
        self.a0 = self.a.copy()
        self.n = self.nt = 0
        # buf: the user's functions hand out the same array each time
        out = {}

        def given(key, y):
            if not buf:
                return y
            if key not in out or out[key].dtype != y.dtype:
                out[key] = np.empty_like(y)
            out[key][...] = y
            return out[key]

        def mv(x):
            self.n += 1
            return given(0, np.dot(self.a, x))

        def mvt(x):
            self.nt += 1
            return given(1, np.dot(self.a.T, x))
        kw = {} if sym else {'matvec_transp': mvt}
        self.op = LinearOperator(self.a.shape[1], self.a.shape[0], matvec=mv, symmetric=sym, dtype=dt, **kw)

    def same(self):
        return bool(np.array_equal(self.a, self.a0))

    def put(self, a):
        self.a[...] = np.array([[frac(t) for t in r] for r in a], dtype=float)
        self.a0 = self.a.copy()


def vv(x):
    return np.array([frac(t) for t in x], dtype=float)


class Parts(object):
    """sym: the matrix is symmetric and the operator should say so."""

    def __init__(self, e, sym=False, dt=np.float64, scale=None, buf=False):
        self.e, self.sym, f, p = e, sym, e['f'], e['p']
        self.f = f
        self.pairs = []
        if f in LM:
            n, np_, sc = e['x']
            self.leaves = []
            self.op = LM[f](n, npairs=np_, scaling=bool(sc))
            for q in p:
                self.store(q)
            return
        # which parts are symmetric
        s = [sym] * len(p)
        if f == 'sblock':
            s = [True, False, True]
        elif f in ('block', 'prod'):
            s = [False] * len(p)
        elif f == 'red' and e['x'][0] != e['x'][1]:
            s = [False]
        self.leaves = [Leaf(a, t, dt, scale, buf) for a, t in zip(p, s)]
        self.op = self.build([l.op for l in self.leaves])

    def build(self, o):
        f = self.f
        if f == 'fun':
            return o[0]
        if f == 'tr':
            return o[0].T
        if f == 'neg':
            return -o[0]
        if f == 'scal':
            return o[0] / 2
        if f == 'sum':
            return o[0] + o[1]
        if f == 'sub':
            return o[0] - o[1]
        if f == 'prod':
            return o[0] * o[1]
        if f == 'block':
            return BlockLinearOperator([[o[0], o[1]], [o[2], o[3]]])
        if f == 'sblock':
            return BlockLinearOperator([[o[0], o[1]], [o[2]]], symmetric=True)
        if f == 'bd':
            return BlockDiagonalLinearOperator(o)
        rows, cols = [[t - 1 for t in q] for q in self.e['x']]
        if self.sym and rows == cols:
            return SymmetricallyReducedLinearOperator(o[0], rows)
        return ReducedLinearOperator(o[0], rows, cols)

    def store(self, q):
        s, y = vv(q['s']), vv(q['y'])
        self.pairs.append((s, y, s.copy(), y.copy()))
        self.op.store(s, y)

    def change(self, c):
        p = c['p']
        if self.f in LM:
            self.store(p[0])
        elif c['how'] == 'set' and self.f in ('block', 'sblock', 'bd'):
            # new operators are assigned to the blocks
            pos = {'block': [(0, 0), (0, 1), (1, 0), (1, 1)], 'sblock': [(0, 0), (0, 1), (1, 1)], 'bd': [0, 1]}[self.f]
            for k, (l, a) in enumerate(zip(self.leaves, p)):
                self.leaves[k] = Leaf(a, l.op.symmetric)
                self.op[pos[k]] = self.leaves[k].op
        else:
            for l, a in zip(self.leaves, p):
                l.put(a)

    # products made with the operator and with its transpose
    @property
    def n(self):
        if not self.leaves:
            return self.op.nMatvec
        return self.leaves[0].nt if self.f == 'tr' and not self.sym else self.leaves[0].n

    @property
    def nt(self):
        return self.leaves[0].n if self.f == 'tr' and not self.sym else self.leaves[0].nt

    def same(self):
        return all(l.same() for l in self.leaves) and all(
            np.array_equal(a, a0) and np.array_equal(b, b0) for a, b, a0, b0 in self.pairs)
