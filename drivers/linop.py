"""Replays behaviours of specs/LinOp.tla in the real package.

usage: linop.py BEHAVIOURS OUT     BEHAVIOURS: one JSON list of commands per line.
Every command yields an observation; nothing is judged here."""
import sys
from common import *

# A stand-in for scikits.sparse.cholmod, which is not installed: exact for the matrices used here.
import types


def _cholesky(A):
    a = np.array(A.a, dtype=float)
    n = len(a)
    l = np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            t = a[i, j] - np.dot(l[i, :j], l[j, :j])
            l[i, j] = np.sqrt(t) if i == j else t / l[j, j]

    def solve(b):
        x = np.array(b, dtype=np.result_type(b, float))
        for i in range(n):
            x[i] = (x[i] - np.dot(l[i, :i], x[:i])) / l[i, i]
        for i in range(n - 1, -1, -1):
            x[i] = (x[i] - np.dot(l[i + 1:, i], x[i + 1:])) / l[i, i]
        return x
    return solve


for _n in ('scikits', 'scikits.sparse', 'scikits.sparse.cholmod'):
    sys.modules[_n] = types.ModuleType(_n)
sys.modules['scikits.sparse.cholmod'].cholesky = _cholesky

try:
    import pykrylov.linop as L
    import pykrylov.linop.linop as LM
    IMPORT = 'ok'
except BaseException as e:          # judged by the specification: nothing works
    IMPORT = type(e).__name__

LIMITS = 30


def carr(c, dt):
    r = np.array([[frac(t) for t in row] for row in c['r']], dtype=float)
    i = np.array([[frac(t) for t in row] for row in c['i']], dtype=float)
    return mk(r, i, dt)


def cv(c, dt):
    r = np.array([frac(t) for t in c['r']], dtype=float)
    i = np.array([frac(t) for t in c['i']], dtype=float)
    return mk(r, i, dt)


def mk(r, i, dt):
    if dt in ('c8', 'c16'):
        return (r + 1j * i).astype(NPDT[dt])
    return r.astype(NPDT[dt])


def scalar(c, ct):
    r, i = frac(c['r']), frac(c['i'])
    if ct == 'int':
        return int(r)
    if ct == 'float':
        return float(r)
    if ct in NPDT:
        return NPDT[ct](complex(r, i)) if ct in ('c8', 'c16') else NPDT[ct](r)
    return complex(r, i)


class FakeSparse(object):
    """A stand-in for a Pysparse matrix."""
    __array_ufunc__ = None

    def __init__(self, a, sym):
        self.a, self.shape, self.s = a, a.shape, sym


class FakeMul(FakeSparse):
    @property
    def issym(self):
        return self.s

    def __mul__(self, x):
        return np.dot(self.a, x)

    def __rmul__(self, y):
        return np.dot(self.a.T, y)


class FakeMatvec(FakeSparse):
    @property
    def issym(self):
        return self.s

    def matvec(self, x, y):
        y[:] = np.dot(self.a, x)

    def matvec_transp(self, x, y):
        y[:] = np.dot(self.a.T, x)


class FakeMethod(FakeSparse):
    def isSymmetric(self):
        return self.s

    matvec = FakeMatvec.matvec
    matvec_transp = FakeMatvec.matvec_transp


FAKES = {'mul': FakeMul, 'matvec': FakeMatvec, 'method': FakeMethod}


def handing(buf, f):
    """The user's function; with buf it hands out the same array each time."""
    if not buf:
        return f
    out = {}

    def g(v):
        y = f(v)
        if y.dtype not in out:
            out[y.dtype] = np.empty_like(y)
        out[y.dtype][...] = y
        return out[y.dtype]
    return g


def leaf(c, keep):
    a = carr(c['m'], c['dt'])
    keep.append((a, a.copy()))
    m, n = a.shape
    kw = {'dtype': NPDT[c['dt']]}
    buf = len(keep) % 3 == 0
    if 'T' in c['fun']:
        kw['matvec_transp'] = handing(buf, lambda v: np.dot(a.T, v))
    if 'H' in c['fun']:
        kw['matvec_adj'] = handing(buf, lambda v: np.dot(a.conj().T, v))
    return L.LinearOperator(n, m, handing(buf, lambda v: np.dot(a, v)), symmetric=c['sym'], hermitian=c['her'], **kw)


def create(c, h, keep):
    op = c['op']
    A = h[c['a'] - 1] if 'a' in c and op != 'chol' else None
    B = h[c['b'] - 1] if 'b' in c else None
    if op == 'leaf':
        return leaf(c, keep)
    if op == 'psp':
        a = carr(c['m'], 'f8')
        keep.append((a, a.copy()))
        return L.PysparseLinearOperator(FAKES[c['style']](a, c['sym']))
    if op == 'chol':
        a = np.array([[float(frac(t)) for t in row] for row in c['a']])
        S = FakeSparse(a, True)
        o = L.CholeskyOperator(S)
        a[...] = 7       # the factorisation is done: the matrix is the caller's again
        return o
    if op == 'nd':
        a = carr(c['m'], c['dt'])
        keep.append((a, a.copy()))
        kw = {'symmetric': c['sym']} if c['sym'] or c['give'] else {}
        if c['give']:
            kw['hermitian'] = c['her']
        return L.linop_from_ndarray(a, **kw)
    if op == 'coord':
        v = cv(c['vals'], c['dt'])
        r, k = np.array(c['rows']), np.array(c['cols'])
        keep.extend([(v, v.copy()), (r, r.copy()), (k, k.copy())])
        kw = {'symmetric': True} if c['sym'] else {}
        if c['nargin']:
            kw['nargin'] = c['nargin']
        if c['nargout']:
            kw['nargout'] = c['nargout']
        return L.CoordLinearOperator(v, r, k, **kw)
    if op == 'eye':
        return L.IdentityOperator(c['n'], dtype=NPDT[c['dt']])
    if op == 'zero':
        return L.ZeroOperator(c['nargin'], c['nargout'], dtype=NPDT[c['dt']])
    if op == 'diag':
        d = cv(c['d'], c['dt'])
        o = L.DiagonalOperator(d)
        d[:] = 7         # the operator owns its diagonal
        return o
    if op == 'sqrt':
        return L.sqrt(A)
    if op == 'abs':
        return abs(A)
    if op == 'T':
        return A.T
    if op == 'H':
        return A.H
    if op == 'C':
        return A.bar if c.get('a', 0) % 2 else A.conjugate()
    if op == 'neg':
        return -A
    if op == 'scal':
        s = scalar(c['c'], c['ct'])
        return s * A if c['side'] == 'l' else A * s
    if op == 'div':
        s = scalar(c['c'], c['ct'])
        return A.__truediv__(s) if c['future'] else A.__div__(s)
    if op == 'pow':
        return A ** c['p']
    if op == 'add':
        return A + B
    if op == 'sub':
        return A - B
    if op == 'mul':
        return A(B) if c['how'] == 'call' else A * B
    if op in ('red', 'sred'):
        conv = np.array if c['ity'] == 'array' else list
        if op == 'red':
            r, k = conv(c['rows']), conv(c['cols'])
            o = L.ReducedLinearOperator(A, r, k)
        else:
            r = conv(c['idx'])
            o = L.SymmetricallyReducedLinearOperator(A, r)
        return o
    if op == 'blk':
        rows = [[h[k - 1] for k in row] for row in c['rows']]
        was = [list(r) for r in rows]
        cls = L.BlockPreconditioner if c['pre'] else L.BlockLinearOperator
        kw = {}
        if c['sym']:
            kw['symmetric'] = True
        if c['her']:
            kw['hermitian'] = True
        o = cls(rows, **kw)
        same = len(rows) == len(was) and all(len(p) == len(q) and all(x is y for x, y in zip(p, q))
                                             for p, q in zip(rows, was))
        o_args.append(same)
        clobber(rows)
        return o
    if op == 'bget':
        i, j = idx(c['ri']), idx(c['ci'])
        if c['ri'][0] == 'sl' and c['ci'][0] == 'sl' and False:
            pass
        return A[i, j]
    if op == 'bdg':
        bl = [h[k - 1] for k in c['ids']]
        was = list(bl)
        cls = L.BlockDiagonalPreconditioner if c['pre'] else L.BlockDiagonalLinearOperator
        o = cls(bl)
        o_args.append(len(bl) == len(was) and all(x is y for x, y in zip(bl, was)))
        clobber([bl])
        return o
    if op == 'bdget':
        return A[idx(c['s'])]
    raise RuntimeError('driver: unknown command ' + op)


o_args = []


def clobber(rows):
    """The caller goes on using his list."""
    for r in rows:
        if isinstance(r, list):
            r[:] = r[:1] * (len(r) + 1)


def idx(s):
    return s[1] if s[0] == 'int' else slice(s[1], s[2])


def dense(o, extra):
    """The matrix of o, column by column; 'none' when there is no operator."""
    if o is None:
        return {'s': 'none'}
    st, sh = attempt(lambda: (int(o.shape[0]), int(o.shape[1])), LIMITS)
    if st != 'ok':
        return {'s': 'err ' + sh}
    m, n = sh
    if not (0 < m < 40 and 0 < n < 40):
        return {'s': 'err shape'}
    cplx = dtcode(o.dtype) in ('c8', 'c16') or extra
    cols, icols = [], []
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1
        st, y = attempt(lambda: np.array(o * e), LIMITS)
        if st != 'ok':
            return {'s': 'err ' + y}
        if y.shape != (m,) or y.dtype.kind not in 'iufc':
            return {'s': 'err result'}
        cols.append(y)
        if cplx:
            st, y = attempt(lambda: np.array(o * (1j * e)), LIMITS)
            if st != 'ok':
                return {'s': 'err ' + y}
            if y.shape != (m,) or y.dtype.kind not in 'iufc':
                return {'s': 'err result'}
            icols.append(y)
    d = cmat(np.array(cols).T)
    d['s'] = 'ok'
    if icols:
        w = np.array(icols).T
        # what i times a unit vector gives: -Im + i Re of the column
        d['ir'], d['ii'] = rmat(w.real), rmat(w.imag)
    return d


VIEWS = {'N': lambda o: o, 'T': lambda o: o.T, 'H': lambda o: o.H, 'C': lambda o: o.bar}


def view(o, names):
    for v in names:
        o = VIEWS[v](o)
        if o is None:
            return None
    return o


def probe(o, deep, j):
    if o is None:
        return {'s': 'none'}
    p = {'s': 'ok'}
    st, r = attempt(lambda: {'sh': [int(t) for t in o.shape], 'nargin': int(o.nargin), 'nargout': int(o.nargout),
                             'sym': bool(o.symmetric), 'her': bool(o.hermitian), 'dt': dtcode(o.dtype)})
    if st != 'ok':
        return {'s': 'err ' + r}
    p.update(r)
    names = ['N', 'T', 'H', 'C']
    if deep:
        names += ['TT', 'HH', 'TH', 'HT', 'TC', 'HC', 'CT', 'CH', 'CC']
    p['v'] = {}
    for v in names:
        st, w = attempt(lambda: view(o, v))
        if st != 'ok':
            p['v'][v] = {'d': {'s': 'err ' + w}}
            continue
        ent = {'d': dense(w, False)}
        if w is not None:
            st, r = attempt(lambda: {'sh': [int(t) for t in w.shape], 'sym': bool(w.symmetric),
                                     'her': bool(w.hermitian), 'dt': dtcode(w.dtype)})
            if st == 'ok':
                ent.update(r)
            else:
                ent['d'] = {'s': 'err ' + r}
        p['v'][v] = ent
    return p


def counts(h):
    out = []
    for o in h:
        st, r = attempt(lambda: int(o.nMatvec))
        out.append(r if st == 'ok' else -1)
    return out


def mv(c, h, k):
    A = h[c['a'] - 1]
    x = cv(c['x'], c['dt'])
    if k % 3 == 1:          # a strided view of a larger array
        big = np.zeros(2 * len(x), dtype=x.dtype)
        big[::2] = x
        x = big[::2]
    x0 = x.copy()
    if c['op'] == 'rmv':
        f = lambda: A.rmatvec(x)
    elif c['how'] == 'call':
        solve = getattr(A, 'solve', None)
        f = (lambda: solve(x)) if solve is not None else (lambda: A(x))
    else:
        f = lambda: A * x
    if c.get('reset'):
        for o in h:
            attempt(lambda: o.reset_counters())
    o = {'before': counts(h)}
    st, y = attempt(f)
    o['after'] = counts(h)
    o['out'] = st
    if st != 'ok':
        o['exc'] = y
        return o
    if not isinstance(y, np.ndarray) or y.ndim != 1 or y.dtype.kind not in 'iufc':
        o['out'], o['exc'] = 'err', 'not a vector'
        return o
    y0 = y.copy()
    o['y'], o['dt'] = cvec(y), dtcode(y.dtype)
    o['xsame'] = bool(np.array_equal(x, x0)) and x.dtype == x0.dtype
    # the result belongs to the caller: writing into it changes nothing else
    try:
        y[:] = 77
        o['wr'] = True
    except Exception:
        o['wr'] = False
    o['xsame2'] = bool(np.array_equal(x, x0))
    st, y2 = attempt(f)
    o['again'] = st == 'ok' and isinstance(y2, np.ndarray) and y2.shape == y0.shape and bool(np.array_equal(y2, y0))
    # each result has its own memory: it stays while other products are made
    o['apart'] = bool(np.all(y == 77)) if o['wr'] else True
    # the same array, holding another vector: twice the vector, twice the result (exactly)
    x *= 2
    st, y3 = attempt(f)
    o['twice'] = (st == 'ok' and isinstance(y3, np.ndarray) and y3.shape == y0.shape and bool(np.array_equal(y3, 2 * y0))
                  and bool(np.array_equal(y2, y0)))
    return o


def bad(c, h):
    w = c['what']
    A, B = h[c['a'] - 1], h[c['b'] - 1]
    n = c['n']
    ones = np.ones
    if w == 'addshape':
        f = lambda: A + B
    elif w == 'subshape':
        f = lambda: A - B
    elif w == 'addnum':
        f = lambda: A + 3
    elif w == 'subnum':
        f = lambda: A - np.ones(A.nargin)
    elif w == 'mulshape':
        f = lambda: A * B
    elif w == 'vecsize':
        f = lambda: A * ones(n)
    elif w == 'vecsize2':
        f = lambda: A * ones((A.nargin, 2))
    elif w == 'mulstr':
        f = lambda: A * [1, 2]
    elif w == 'rmulstr':
        f = lambda: [1, 2] * A
    elif w == 'rmulstr2':
        f = lambda: A * None
    elif w == 'pownonint':
        f = lambda: A ** 0.5
    elif w == 'powneg':
        f = lambda: A ** -1
    elif w == 'powshape':
        f = lambda: A ** (2 + n)
    elif w == 'divop':
        f = (lambda: A.__div__(B)) if n % 2 else (lambda: A.__truediv__(B))
    elif w == 'divzero':
        f = (lambda: A.__div__(0)) if n % 2 else (lambda: A.__truediv__(0.0))
    elif w == 'diag2d':
        f = lambda: L.DiagonalOperator(ones((2, 2)))
    elif w == 'dtype':
        def f():
            A.dtype = 'not a type'
    elif w == 'ndflags':
        f = lambda: L.linop_from_ndarray(np.array([[1., 2.], [2., 1.]]), symmetric=bool(n % 2), hermitian=not n % 2)
    elif w == 'sqrtneg':
        f = lambda: L.sqrt(L.DiagonalOperator(np.array([1., -1. - n])))
    elif w == 'blkshape':
        f = lambda: L.BlockLinearOperator([[A, B]])
    elif w == 'blkcolshape':
        f = lambda: L.BlockLinearOperator([[A], [B]]) if n % 2 else L.BlockLinearOperator([[A, A], [B, B]])
    elif w == 'blkcol2':
        f = lambda: L.BlockLinearOperator([[A, A], [A, B]])
    elif w == 'grid':
        cls = L.BlockPreconditioner if c['pre'] else L.BlockLinearOperator
        f = lambda: cls([[h[t - 1] for t in r] for r in c['rows']], symmetric=c['sym'], hermitian=c['her'])
    elif w == 'blksym':
        f = lambda: L.BlockLinearOperator([[A]], symmetric=True)
    elif w == 'blkherm':
        f = lambda: L.BlockLinearOperator([[A]], hermitian=True)
    elif w == 'blkcount':
        I = L.IdentityOperator(2)
        f = lambda: L.BlockLinearOperator([[I], [I]], symmetric=True)
    elif w == 'coordsize':
        K = L.CoordLinearOperator(np.array([1., 2.]), np.array([0, 1]), np.array([1, 0]), nargin=3, nargout=2)
        f = (lambda: K * ones(2)) if n % 2 else (lambda: K.T * ones(3))
    elif w == 'transposeof':
        kw = {'transpose_of': 3} if n % 2 else {'adjoint_of': 3}
        f = lambda: L.LinearOperator(2, 2, lambda v: v, **kw)
    elif w == 'badout':
        K = L.LinearOperator(3, 2, lambda v: ones(3))
        f = lambda: K * ones(3)
    elif w == 'base':
        f = lambda: L.BaseLinearOperator(2, 2) * ones(2)
    elif w in ('bdgvec', 'blkvec'):
        f = lambda: A * ones(n)
    elif w == 'rvecsize':
        f = lambda: A.rmatvec(ones(A.nargout + 1 + n))
    elif w.startswith('set'):
        def f():
            v = 3 if w == 'setnonop' else B
            if hasattr(A, '__contains__'):
                A[c['i'], c['j']] = v
            elif n % 2:
                A[c['i']] = v
            else:
                A[c['i']:c['i'] + 1] = [v]
    elif w == 'cholshape':
        f = lambda: L.CholeskyOperator(FakeSparse(ones((2, 3) if n % 2 else (3, 2)), False))
    elif w == 'bdnonop':
        K = L.BlockDiagonalLinearOperator([L.IdentityOperator(2), L.IdentityOperator(1)])
        def f():
            K[0:1] = [3]
    else:
        raise RuntimeError('driver: ' + w)
    st, r = attempt(f)
    o = {'out': st}
    if st != 'ok':
        o['exc'] = r
    o['a'] = probe(A, False, 0)
    o['b'] = probe(B, False, 0)
    return o


def blocks_of(A, h):
    """What iteration, the blocks attribute and 'in' say."""
    def same(x, y):
        return x is y
    o = {}
    if hasattr(A, '__iter__'):
        rows = [list(r) for r in A]
    else:
        rows = [list(A)]
    o['it'] = [[dense(b, False) for b in r] for r in rows]
    bl = A.blocks
    if not isinstance(bl[0], list):
        bl = [bl]
    o['bl'] = [[dense(b, False) for b in r] for r in bl]
    o['in'] = [bool(x in A) for x in h] if hasattr(A, '__contains__') else []
    return o


def run(cmds, tid):
    ev = []
    h, keep = [], []
    deep_left = 3
    for k, c in enumerate(cmds):
        del o_args[:]
        refs = [c[f] for f in ('a', 'b', 'v') if f in c and c['op'] != 'chol'] + c.get('ids', []) + c.get('vs', [])
        refs += [t for r in c['rows'] for t in r] if c['op'] == 'blk' or c.get('what') == 'grid' else []
        dead = any(h[r - 1] is None for r in refs)
        creates = c['op'] not in ('mv', 'rmv', 'dense', 'bset', 'bsets', 'bdset', 'blocks', 'bad')
        if IMPORT != 'ok':
            ev.append({'c': c, 'o': {'out': 'err', 'exc': 'import ' + IMPORT}})
            if creates:
                h.append(None)
            continue
        if dead:
            ev.append({'c': c, 'o': {'out': 'skip'}})
            if creates:
                h.append(None)
            continue
        if creates:
            st, r = attempt(lambda: create(c, h, keep))
            o = {'out': st}
            if st != 'ok':
                o['exc'] = r
                h.append(None)
            else:
                if r is not None and not isinstance(r, L.BaseLinearOperator):
                    o = {'out': 'err', 'exc': 'not an operator'}
                    r = None
                h.append(r)
                if o['out'] == 'ok':
                    o['args'] = all(o_args)
                    o['p'] = probe(r, True, k)
        elif c['op'] in ('mv', 'rmv'):
            o = mv(c, h, k)
        elif c['op'] == 'dense':
            A = h[c['a'] - 1]
            st, r = attempt(lambda: (A.to_array() if c['how'] == 'to_array' else A.full()))
            o = {'out': st}
            if st == 'ok' and isinstance(r, np.ndarray) and r.ndim == 2:
                o['m'], o['dt'] = cmat(r), dtcode(r.dtype)
            else:
                o['out'], o['exc'] = 'err', r if st == 'err' else 'not a matrix'
        elif c['op'] == 'bad':
            o = bad(c, h)
        elif c['op'] == 'blocks':
            A = h[c['a'] - 1]
            st, r = attempt(lambda: blocks_of(A, h))
            o = {'out': st}
            if st == 'ok':
                o.update(r)
            else:
                o['exc'] = r
        else:
            A = h[c['a'] - 1]

            def assign():
                if c['op'] == 'bset':
                    A[c['i'], c['j']] = h[c['v'] - 1]
                elif c['op'] == 'bsets':
                    A[idx(c['ri']), idx(c['ci'])] = h[c['v'] - 1]
                elif c['s'][0] == 'int':
                    A[c['s'][1]] = h[c['vs'][0] - 1]
                else:
                    v = [h[t - 1] for t in c['vs']]
                    A[slice(c['s'][1], c['s'][2])] = tuple(v) if k % 2 else v
            st, r = attempt(assign)
            o = {'out': st}
            if st != 'ok':
                o['exc'] = r
            o['all'] = [probe(x, False, 0) for x in h]
        ev.append({'c': c, 'o': o})
    # at the end: every operator still is what it was, no argument array was touched
    if IMPORT == 'ok':
        ev.append({'c': {'op': 'end'}, 'o': {'out': 'ok', 'all': [probe(x, False, 0) for x in h],
                                             'keep': all(np.array_equal(a, b) for a, b in keep)}})
    return {'id': tid, 'ev': ev}


if __name__ == '__main__':
    out = Out(sys.argv[2])
    for k, line in enumerate(open(sys.argv[1])):
        out.put(run(json.loads(line), k + 1))
    out.close()
