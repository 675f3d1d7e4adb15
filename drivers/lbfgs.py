"""Replays histories of specs/LBFGS.tla in the real quasi-Newton operators."""
from common import *

try:
    import pykrylov.linop.lbfgs as M
    CLS = {'inv': 'InverseLBFGSOperator', 'fwd': 'LBFGSOperator', 'cmp': 'CompactLBFGSOperator',
           'str': 'StructuredLBFGSOperator'}
    IMPORT = 'ok'
except BaseException as e:
    IMPORT = type(e).__name__


def v(x):
    return np.array([frac(t) for t in x], dtype=float)


def dense(o):
    def f():
        n = o.nargin
        cols = []
        again = True
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1
            y = np.array(o * e)
            if y.shape != (n,):
                raise ValueError('shape')
            y2 = np.array(o * e)
            again = again and bool(np.array_equal(y, y2, equal_nan=True))
            cols.append(y)
        return {'s': 'ok', 'm': rmat(np.array(cols).T), 'again': again, 'sym': bool(o.symmetric),
                'sh': [int(t) for t in o.shape]}
    st, r = attempt(f)
    return r if st == 'ok' else {'s': 'raises ' + r}


def run(cmds, tid):
    ops, ev, arrays = [], [], {}

    def given(c, name, a):
        """The argument in a new array, or in the one used before."""
        key = (name, a.dtype, len(a))
        if c['same'] and key in arrays:
            arrays[key][:] = a
        else:
            arrays[key] = a
        return arrays[key]

    for c in cmds:
        if IMPORT != 'ok':
            ev.append({'c': c, 'o': {'out': 'err', 'exc': 'import ' + IMPORT}})
            continue
        extra = {}

        def do():
            if c['op'] == 'new':
                kw = {'npairs': c['np']}
                if c['scaling']:
                    kw['scaling'] = True
                ops.append(None)
                ops[-1] = getattr(M, CLS[c['kind']])(c['n'], **kw)
                return
            A = ops[c['a'] - 1]
            if c['op'] == 'store':
                a = [given(c, 's', v(c['s'])), given(c, 'y', v(c['y']))]
                if isinstance(A, M.StructuredLBFGSOperator):
                    a.append(given(c, 'yd', v(c['yd'])))
                b = [t.copy() for t in a]
                A.store(*a)
                extra['same'] = all(np.array_equal(p, q) for p, q in zip(a, b))
                for t in a:             # the caller reuses his arrays
                    t[:] = 55.5
            elif c['op'] == 'restart':
                A.restart()
            else:
                x = given(c, 'x', v(c['x']).astype(NPDT[c['dt']]))
                x0 = x.copy()
                y = np.array(A * x)
                z = np.array(A.T * x)
                extra.update(y=vec(y), yt=vec(z), same=bool(np.array_equal(x, x0)))
        st, r = attempt(do)
        o = {'out': st}
        if st != 'ok':
            o['exc'] = r
        o.update(extra)
        o['all'] = [dense(t) for t in ops] if st == 'ok' and c['look'] else []
        ev.append({'c': c, 'o': o})
        if st != 'ok':
            break
    return {'id': tid, 'ev': ev}


if __name__ == '__main__':
    out = Out(sys.argv[2])
    for k, line in enumerate(open(sys.argv[1])):
        out.put(run(json.loads(line), k + 1))
    out.close()
