"""Replays the calls of specs/ToolsGen.tla with the real tools."""
from common import *

try:
    from pykrylov.linop import LinearOperator, linop_from_ndarray
    from pykrylov.tools.utils import roots_quadratic, check_symmetric, check_positive_definite, machine_epsilon
    from pykrylov.gallery import Poisson1dMatvec, Poisson2dMatvec
    IMPORT = 'ok'
except BaseException as e:
    IMPORT = type(e).__name__


class Plain(object):
    """Anything with a shape that can be multiplied by a vector."""

    def __init__(self, a):
        self.a, self.shape = a, a.shape

    def __mul__(self, x):
        return np.dot(self.a, x)

    def __call__(self, x):
        return np.dot(self.a, x)


def oper(a, how):
    m, n = a.shape
    if how == 'obj':
        return Plain(a)
    if how == 'mat':
        return linop_from_ndarray(a)
    if how == 'both':
        return LinearOperator(n, m, matvec=lambda x: np.dot(a, x), matvec_transp=lambda x: np.dot(a.T, x), dtype=a.dtype)
    return LinearOperator(n, m, matvec=lambda x: np.dot(a, x), symmetric=(how == 'flag'), dtype=a.dtype)


def kw(c, *names):
    r = {}
    for n, k in names:
        if c[k] not in (-1, 'd'):
            r[n] = frac(c[k])
    return r


def call(c):
    """A function to call, and what to look at afterwards."""
    if c['op'] == 'roots':
        q = [frac(t) for t in c['q']]
        k = kw(c, ('tol', 'tol'), ('nitref', 'nit'))
        return lambda: {'r': [num(t) for t in roots_quadratic(*q, **k)]}
    if c['op'] == 'eps':
        return lambda: {'r': num(machine_epsilon())}
    if c['op'] in ('sym', 'pd'):
        a = np.array(c['a'], dtype=NPDT[c['dt']] if c['op'] == 'sym' else np.float64)
        if c['op'] == 'pd' and np.any(np.array(c['im'])):
            a = a + 1j * np.array(c['im'])
        if c['e'] and a.dtype != np.int64:
            a = a * 2.0 ** c['e']
        a0 = a.copy()
        A = oper(a, c['how'])
        k = kw(c, ('repeats', 'rep'))
        if c['op'] == 'pd' and c['semi']:
            k['semi'] = True
        f = check_symmetric if c['op'] == 'sym' else check_positive_definite

        def check():
            rng = np.random.get_state()
            r = bool(f(A, **k))
            return {'r': r, 'pure': bool(np.array_equal(a, a0)), 'rng': same_state(rng, np.random.get_state())}
        return check
    f = Poisson1dMatvec if c['op'] == 'p1' else Poisson2dMatvec
    x = np.array(c['x']).astype(NPDT[c['dt']])
    if c['dt'] == 'c16':
        x = x + 1j * np.array(c['y'])
    x0 = x.copy()

    def go():
        y = f(x)
        return {'y': cvec(y), 'dt': dtcode(y.dtype), 'pure': bool(np.array_equal(x, x0)), 'own': not np.shares_memory(x, y)}
    return go


def run(cmds, tid):
    ev = []
    for c in cmds:
        if IMPORT != 'ok':
            ev.append({'c': c, 'o': {'out': 'err', 'exc': 'import ' + IMPORT}})
            continue
        st, f = attempt(lambda: call(c))
        if st == 'ok':
            with Silence():
                st, f2 = attempt(f)
                st2, f3 = attempt(f)
        else:
            f2 = f
        if st != 'ok':
            ev.append({'c': c, 'o': {'out': 'err', 'exc': f2}})
            continue
        o = dict(f2, out='ok')
        o['again'] = st2 == 'ok' and (f3 == f2 or c['op'] == 'pd')
        ev.append({'c': c, 'o': o})
    return {'id': tid, 'ev': ev}


if __name__ == '__main__':
    out = Out(sys.argv[2])
    for k, line in enumerate(open(sys.argv[1])):
        out.put(run(json.loads(line), k + 1))
    out.close()
