"""The checks: which specifications, behaviours and drivers decide each property."""
import os
import sys
import traceback

import vp


def linop_cfg(profile, depth):
    return 'INIT Init\nNEXT Next\nCONSTANTS\nDEPTH = %d\nPROFILE = "%s"\nINVARIANT Emit\nINVARIANT Sound\n' % (depth, profile)


# property -> [(profile, quick number, thorough number, depth)]
LINOP = {
    'C01': [('expr', 400, 4000, 12)],
    'C02': [('view', 300, 3000, 11), ('block', 100, 1000, 12)],
    'C03': [('expr', 200, 2000, 12), ('view', 150, 1500, 11), ('block', 100, 1000, 12)],
    'C04': [('bad', 400, 4000, 14)],
    'C05': [('expr', 220, 2200, 12), ('block', 220, 2200, 12)],
    'C06': [('expr', 200, 2000, 12), ('block', 200, 2000, 12)],
    'C07': [('expr', 400, 4000, 12)],
    'C08': [('block', 400, 4000, 13)],
    'C09': [('block', 400, 4000, 13)],
    'C10': [('block', 400, 4000, 13)],
}


def linop_mc(kind, n):
    return ('INIT Init\nNEXT Next\nCONSTANTS\nLEN = %d\nKIND = "%s"\nINVARIANTS Shape Flags Types Vws Count\n'
            'PROPERTIES Frame Assign AssignRect AssignDiag\n' % (n, kind))


def linop(ctx):
    plan = LINOP[ctx.prop]
    kinds = {'block' if p[0] == 'block' else 'expr' for p in plan}
    for kind in sorted(kinds):
        n = {'expr': 4 if ctx.thorough else 3, 'block': 3 if ctx.thorough and ctx.prop == 'C09' else 2}[kind]
        ctx.check('LinOpMC', linop_mc(kind, n), '%s, all histories of %d commands' % (kind, n), timeout=1500)
    beh = ctx.generate('LinOpGen', [(linop_cfg(p, d), t if ctx.thorough else q, d + 1) for p, q, t, d in plan],
                       '+'.join(p[0] for p in plan))
    traces = ctx.replay('linop.py', beh)
    return traces, ctx.judge('LinOpTrace', traces), 'LinOpTrace'


def lbfgs_cfg(kinds, depth):
    return ('INIT Init\nNEXT Next\nCONSTANTS\nDEPTH = %d\nKINDS <- KINDS_%s\nINVARIANT Emit\nINVARIANT Sound\n'
            % (depth, kinds))


LBFGS = {
    'C11': [('inv', 200, 2000, 18)],
    'C12': [('fwd', 200, 2000, 18)],
}


def lbfgs_mc(np_, n, ln, r, scaling):
    return ('INIT Init\nNEXT Next\nCONSTANTS\nN = %d\nNP = %d\nLEN = %d\nR = %d\nSCALING = %s\n'
            'INVARIANTS Refines Inverse Symmetric Secant PosDef CompactIsDirect StrSecant\n' % (n, np_, ln, r, scaling))


def lbfgs(ctx):
    ctx.check('LBFGSMC', lbfgs_mc(2, 2, 3, 1, 'TRUE'), 'two pairs, scaling, three updates')
    ctx.check('LBFGSMC', lbfgs_mc(1, 2, 4, 1, 'FALSE'), 'one pair, no scaling, four updates')
    if ctx.thorough:
        ctx.check('LBFGSMC', lbfgs_mc(3, 2, 4, 1, 'TRUE'), 'three pairs, scaling, four updates', timeout=2400)
    plan = LBFGS[ctx.prop]
    beh = ctx.generate('LBFGSGen', [(lbfgs_cfg(p, d), t if ctx.thorough else q, d + 1) for p, q, t, d in plan],
                       '+'.join(p[0] for p in plan))
    traces = ctx.replay('lbfgs.py', beh)
    return traces, ctx.judge('LBFGSTrace', traces), 'LBFGSTrace'


def krylov_cfg(methods, depth, sweep=3, forms=2):
    """'long:X': the methods X, larger systems, few sweeps over the budgets."""
    sizes, methods = methods.split(':') if ':' in methods else ('usual', methods)
    return ('INIT Init\nNEXT Next\nCONSTANTS\nPREC = 300\nDEPTH = %d\nMETHODS <- M_%s\nSWEEP = %d\nFORMS = %d\nSIZES <- S_%s\nINVARIANT Emit\nINVARIANT Sound\n'
            % (depth, methods, 0 if sizes == 'long' else sweep, forms, sizes))


def krylov_mc(method, n, e, steps):
    return ('INIT Init\nNEXT Next\nCONSTANTS\nPREC = 0\nMETHOD = "%s"\nN = %d\nE <- %s\nSTEPS = %d\nPRECS <- Pre\n'
            'INVARIANTS Resid Orthogonal Decrease Best Finite BiHalf BiMin Mono TfCgs\n' % (method, n, e, steps))


def lanczos_mc(n, e):
    return ('INIT Init\nNEXT Next\nCONSTANTS\nPREC = 0\nN = %d\nE <- %s\nPRECS <- Pre\n'
            'INVARIANTS Ends Orth Tri Min Final LQ CGp\n' % (n, e))


CONTROL = 'SPECIFICATION Spec\nCONSTANTS MAXN = %d\nINVARIANTS Budget Truth NoNan Early\nPROPERTIES Idle Ends\n'
# property -> ([(methods, quick number, thorough number, depth)], model checking)
KRYLOV = {
    'C13': ([('short', 400, 6000, 5), ('long:short', 60, 1500, 4)], ['control', 'cg', 'uns']),
    'C14': ([('short', 220, 4000, 5), ('all', 220, 4000, 5), ('long:all', 60, 1500, 4)], ['control']),
    'C15': ([('all', 400, 6000, 5), ('long:all', 60, 1500, 4)], ['control']),
    'C16': ([('cg', 400, 6000, 5), ('long:cg', 60, 1500, 4)], ['cg']),
    'C17': ([('uns', 400, 6000, 5), ('long:uns', 60, 1500, 4)], ['uns']),
    'C18': ([('minres', 450, 6000, 5), ('long:minres', 60, 1500, 4)], ['lanczos']),
    'C19': ([('symmlq', 450, 6000, 5), ('long:symmlq', 60, 1500, 4)], ['lanczos']),
    'C26': ([('cg', 180, 2500, 5), ('minres', 180, 2500, 5), ('symmlq', 120, 2500, 5), ('long:cg', 40, 800, 4), ('long:minres', 40, 800, 4), ('long:symmlq', 30, 800, 4)], ['control']),
}


def krylov(ctx):
    plan, mcs = KRYLOV[ctx.prop]
    if 'control' in mcs:
        ctx.check('SolverControl', CONTROL % (40 if ctx.thorough else 12), 'all schedules of check points')
    if 'cg' in mcs:
        ctx.check('KrylovMC', krylov_mc('cg', 2, 'E1', 2), 'cg, n=2')
        if ctx.thorough:
            ctx.check('KrylovMC', krylov_mc('cg', 3, 'E4', 3), 'cg, n=3')
    if 'uns' in mcs:
        for m in ('cgs', 'bicgstab', 'tfqmr'):
            ctx.check('KrylovMC', krylov_mc(m, 2, 'E1', 2 if m == 'cgs' else 4), m + ', n=2')
    if 'lanczos' in mcs:
        ctx.check('LanczosMC', lanczos_mc(2, 'E2'), 'n=2')
        if ctx.thorough:
            ctx.check('LanczosMC', lanczos_mc(3, 'E1'), 'n=3')
    beh = ctx.generate('KrylovGen', [(krylov_cfg(p, d), t if ctx.thorough else q, d + 1) for p, q, t, d in plan],
                       '+'.join(p[0] for p in plan))
    traces = ctx.replay('krylov.py', beh)
    return traces, ctx.judge('KrylovTrace', traces, cfg=TRACECFG['KrylovTrace'], timeout=3000 if ctx.thorough else 800), 'KrylovTrace'


def lls_mc(nr, nc, e):
    return ('INIT Init\nNEXT Next\nCONSTANTS\nPREC = 0\nNR = %d\nNC = %d\nE <- %s\nMETR = 2\nDAMPS <- D0\n'
            'INVARIANTS Ends Orth Lanc LancP Defined Best Final Energy Sqd\n' % (nr, nc, e))


# property -> [(methods, quick number, thorough number, depth)]
LLS = {
    'C20': [('ls', 900, 12000, 5), ('long:ls', 80, 1500, 4)],
    'C21': [('ls', 900, 12000, 5), ('long:ls', 80, 1500, 4)],
    'C22': [('craig', 900, 12000, 5), ('long:craig', 80, 1500, 4)],
    'C27': [('all', 900, 12000, 5), ('long:all', 80, 1500, 4)],
}


def lls(ctx):
    ctx.check('LlsMC', lls_mc(2, 2, 'E1'), '2 x 2')
    if ctx.thorough:
        ctx.check('LlsMC', lls_mc(2, 3, 'E2'), '2 x 3')
        ctx.check('LlsMC', lls_mc(3, 2, 'E2'), '3 x 2')
    plan = LLS[ctx.prop]
    beh = ctx.generate('LlsGen', [(krylov_cfg(p, d), t if ctx.thorough else q, d + 1) for p, q, t, d in plan],
                       '+'.join(p[0] for p in plan))
    traces = ctx.replay('lls.py', beh)
    return traces, ctx.judge('LlsTrace', traces, cfg=TRACECFG['LlsTrace'], timeout=3000 if ctx.thorough else 800), 'LlsTrace'


# property -> {pipeline: (methods, quick number, thorough number, depth, operators out of 10 that are made of parts)}
BOTH = {
    'C28': {'krylov': ('all', 500, 6000, 5, 2), 'lls': ('all', 700, 8000, 5, 2)},
    'C29': {'krylov': ('all', 400, 5000, 6, 10), 'lls': ('all', 500, 6000, 6, 10)},
}
PARTS_MC = ('INIT Init\nNEXT Next\nCONSTANTS\nPREC = 0\nLEN = %d\n'
            'INVARIANTS Shape Symmetric Present InvFwd Solves\n')


def both(ctx):
    """Both families of solvers."""
    if ctx.prop == 'C29':
        ctx.check('PartsMC', PARTS_MC % (3 if ctx.thorough else 1), 'operators made of parts, every change', timeout=1500)
    out, verdicts = [], {}
    for pipe, (p, q, t, d, forms) in sorted(BOTH[ctx.prop].items()):
        gen, driver, spec, cfg = PIPES[pipe]
        beh = ctx.generate(gen, [(cfg(p, d, 3, forms), t if ctx.thorough else q, d + 1)], p)
        traces = ctx.replay(driver, beh)
        for k, v in ctx.judge(spec, traces, cfg=TRACECFG[spec], timeout=3000 if ctx.thorough else 500).items():
            verdicts[k + len(out)] = v
        for x in traces:
            x['id'] += len(out)
        out += traces
    return out, verdicts, 'KrylovTrace, LlsTrace'


def units(ctx):
    return both(ctx)


def parts(ctx):
    return both(ctx)


def tools_cfg(kinds, depth):
    return 'INIT Init\nNEXT Next\nCONSTANTS\nPREC = 0\nDEPTH = %d\nKINDS <- K_%s\nINVARIANT Emit\n' % (depth, kinds)


TOOLS_MC = 'INIT Init\nNEXT Next\nCONSTANTS\nK = %d\nNP = %d\nINVARIANTS RootsOk SymOk PdOk PoisOk\n'
# property -> [(kinds, quick number, thorough number, depth)]
TOOLS = {
    'C23': [('roots', 600, 10000, 20), ('all', 40, 100, 20)],
    'C24': [('check', 400, 5000, 20)],
    'C25': [('gal', 200, 2000, 10)],
}


def tools(ctx):
    ctx.check('ToolsMC', TOOLS_MC % (9 if ctx.thorough else 5, 9), 'small coefficients, 2 x 2 matrices, Poisson matrices')
    plan = TOOLS[ctx.prop]
    beh = ctx.generate('ToolsGen', [(tools_cfg(p, d), t if ctx.thorough else q, d + 1) for p, q, t, d in plan],
                       '+'.join(p[0] for p in plan))
    traces = ctx.replay('tools.py', beh)
    return traces, ctx.judge('ToolsTrace', traces), 'ToolsTrace'


TRACECFG = {'KrylovTrace': 'INIT Init\nNEXT Next\nVIEW View\nCONSTANT PREC = 300\n'}

TRACECFG['LlsTrace'] = TRACECFG['KrylovTrace']
# name -> generator, driver, trace specification, configuration of the generator
PIPES = {
    'linop': ('LinOpGen', 'linop.py', 'LinOpTrace', linop_cfg),
    'lbfgs': ('LBFGSGen', 'lbfgs.py', 'LBFGSTrace', lbfgs_cfg),
    'krylov': ('KrylovGen', 'krylov.py', 'KrylovTrace', krylov_cfg),
    'tools': ('ToolsGen', 'tools.py', 'ToolsTrace', tools_cfg),
    'lls': ('LlsGen', 'lls.py', 'LlsTrace', krylov_cfg),
}
NOTES = {
    'tools': ('TLA+ spec checked by TLC (exhaustive ToolsMC + simulated calls), replayed in the code, traces validated by TLC',
              'Tools.tla (exact roots, symmetry and definiteness of the matrix, Poisson matrices). Exhaustive on small coefficients and matrices; '
              'conformance on random calls: coefficients of all magnitudes up to 2^+-60 with multiple and nearly multiple roots, matrices up to 5 x 5, grids up to 7 x 7.'),
    'lls': ('TLA+ spec checked by TLC (exhaustive LlsMC + simulated histories), replayed in the code, traces validated by TLC',
            'Lls.tla (exact Golub-Kahan process, optimal points, estimates). Exhaustive on small integer problems; conformance on random '
            'histories of solves up to 5 x 4, all ranks, metrics, damping, every iteration limit, compared while rounding is under control.'),
    'krylov': ('TLA+ spec checked by TLC (exhaustive SolverControl, KrylovMC, LanczosMC + simulated histories), replayed in the code, traces validated by TLC',
               'Krylov.tla (exact rational iterates of CG, CGS, Bi-CGSTAB, TFQMR; exact Lanczos spaces and optimal points for MINRES, SYMMLQ). '
               'Exhaustive on small integer systems and on all schedules of check points; conformance on random histories of solves, n<=5, every product budget, '
               'iterates compared while rounding is under control.'),
}
NOTES['units'] = ('TLA+ spec: solves in two systems of units simulated by TLC, replayed in the code, traces validated by TLC',
                  'Krylov.tla and Lls.tla fix the iterates; the same system scaled by powers of two (A, b, preconditioner, shift, damping, guess, '
                  'tolerances) must give the scaled iterate and the same outcome. Random histories of ten solvers, scales 2^+-60.')
NOTES['parts'] = ('TLA+ spec checked by TLC (exhaustive PartsMC + simulated histories), replayed in the code, traces validated by TLC',
                  'Parts.tla: operators, preconditioners and metrics made of parts (views, sums, products, multiples, blocks, restrictions, L-BFGS) that '
                  'change between solves, solved with by all ten solvers; every clause on solves (Krylov.tla, Lls.tla) must hold for the present parts.')
RUN = {}
for k in LINOP:
    RUN[k] = linop
for k in LBFGS:
    RUN[k] = lbfgs
for k in KRYLOV:
    RUN[k] = krylov
for k in LLS:
    RUN[k] = lls
for k in BOTH:
    RUN[k] = units if k == 'C28' else parts
for k in TOOLS:
    RUN[k] = tools


def main(argv):
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    ctx = vp.Ctx(prop, tier, seed)
    try:
        ctx.prepare()
        traces, verdicts, spec = RUN[prop](ctx)
        return vp.finish(ctx, traces, verdicts, spec)
    except vp.Broken as e:
        print('check broken: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
