"""C10 Frechet differentials against finite differences; Newton steps and convergence."""
import numpy as np
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip
from vlib import spaces as V, lin, exprs
from vlib.nccs import shift_mask, low_mask
import dedalus.public as d3


def spaces():
    return st.one_of(V.cart_space(dims=(1, 2), sizes=(12, 16), dealias=(1.5, 2.0), max_jacobi=2), V.cart_space(dims=(2, 3), sizes=(8, 12), sizes3=(8,), dealias=(1.5,), max_jacobi=1),
                     V.curvi_polar(nphi=(16,), nr=(12, 16), dealias=((1.5, 1.5),), ks=(0,)), V.curvi_sphere(nth=(12,), nphi=(16,), dealias=((1.5, 1.5),)),
                     V.curvi_3d(nphi=(12,), nth=(8,), nr=(8,), dealias=((1.5, 1.5, 1.5),), ks=(0,)))


def case():
    return st.fixed_dictionaries({'space': spaces(), 'leaves': exprs.leaf_st(), 'prog': exprs.prog_st(size=7), 'seed': st.integers(0, 10**6),
                                  'nv': st.integers(1, 3), 'bg': st.booleans(), 'pick': st.integers(0, 3)})


def grid(e):
    f = e.evaluate() if hasattr(e, 'evaluate') else e
    f = f.copy()
    if f.domain.bases:
        f.change_scales(1)
    return np.array(f['g'])


def truncation(e):
    """How much of an expression's grid values is lost by a trip through coefficient space."""
    f = (e.evaluate() if hasattr(e, 'evaluate') else e).copy()
    if not f.domain.bases:
        return 0
    f.change_scales(f.domain.dealias)
    g = np.array(f['g'])
    f['c']
    return np.abs(f['g'] - g).max() / max(1e-3, np.abs(g).max())


def run(c):
    S = V.build(c['space'])
    X = exprs.Exprs(S, c['leaves'], c['prog'], c['seed'], smooth=1)
    nodes = [n for n in X.pool if n.depth]
    if not nodes:
        raise Skip('no expression')
    node = nodes[(-1 - c['pick']) % len(nodes)]
    X.pool = X.pool[:X.pool.index(node) + 1]
    e = node.e
    vars = X.leaves[:c['nv']]
    perts = []
    for f in vars:
        p = S.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name='d' + f.name)
        X.fill(p, 0.5)
        perts.append(p)
    bgs = None
    base = [f['c'].copy() for f in vars]
    if c['bg']:
        bgs = []
        for f in vars:
            b = S.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name=f.name + '0')
            X.fill(b, 0.5)
            bgs.append(b)
    dF = e.frechet_differential(vars, perts, backgrounds=bgs)
    point = [b['c'].copy() for b in bgs] if bgs else base
    dirs = [p['c'].copy() for p in perts]

    def at(h):
        for f, x, d in zip(vars, point, dirs):
            f['c'] = x + h * d
        return grid(e)
    h = 4e-3
    F0 = at(0)
    # differentiation commutes with truncation only: unresolved intermediate results limit the comparison
    trunc = max(max(truncation(n.e), truncation(n.e * n.e) if n.rank == 0 else 0) for n in X.pool)
    if not trunc < 1e-4:
        raise Skip('unresolved expression')
    vals = {k: at(k * h) for k in (-2, -1, 1, 2)}
    want = (8 * (vals[1] - vals[-1]) - (vals[2] - vals[-2])) / (12 * h)
    if not np.all(np.isfinite(want)):
        raise Skip('not finite')
    # restore the point; with backgrounds the variables' own data must not matter
    for f, x in zip(vars, base if bgs else point):
        f['c'] = x
    if bgs:
        for f in vars:
            X.fill(f, 0.9)
    crude = (vals[1] - vals[-1]) / (2 * h)
    fderr = np.abs(crude - want).max() if want.size else 0
    scale = max(1e-3, np.abs(want).max(), np.abs(F0).max() * 1e-2, max(np.abs(v - F0).max() for v in vals.values()) / h)
    if isinstance(dF, Number):
        require(dF == 0, f'differential of {e} is the number {dF}')
        assert_close(want, np.zeros_like(want), f'differential of {e} is reported as zero', rtol=1e-6, scale=scale)
        return {'nontrivial': False, 'tags': [S.kind if hasattr(S, 'kind') else c['space']['kind'], 'zero']}
    require(tuple(dF.tensorsig) == tuple(e.tensorsig), 'tensor signature of the differential')
    if bgs:
        require(not dF.has(*[f for f in vars]), f'variables remain in the differential of {e} around backgrounds')
    got = grid(dF)
    # the finite differences resolve the result when their two orders agree well
    if fderr > 3e-3 * scale:
        raise Skip('finite differences unresolved')
    assert_close(got + 0 * want, want, f'differential of {e} with respect to {[str(f) for f in vars]}', rtol=2e-5 + 50 * trunc, scale=scale)
    return {'nontrivial': np.abs(want).max() > 1e-6 * scale, 'tags': [c['space']['kind'], 'rank%d' % node.rank] + sorted(X.used)}


# --- Newton iterations

NL = ['sq', 'cube', 'adv', 'exp', 'pow', 'grad2', 'sin', 'bc']


def newton_case():
    fa = V.fourier_axis(sizes=(16, 20), dealias=(1.5, 2.0))
    ja = V.jacobi_axis(sizes=(16, 20, 24), dealias=(1.5, 2.0), params=[(-0.5, -0.5), (0, 0), (-0.5, 0.5)], dk=(0,))
    ja2 = V.jacobi_axis(sizes=(14, 16), dealias=(1.5, 2.0), params=[(-0.5, -0.5), (0, 0)], dk=(0,))
    fa2 = V.fourier_axis(sizes=(12,), dealias=(1.5,))
    sp = st.one_of(st.builds(lambda d, j: {'kind': 'cart', 'dtype': d, 'axes': [j]}, st.sampled_from('rc'), ja),
                   st.builds(lambda d, j, f: {'kind': 'cart', 'dtype': d, 'axes': [f, j]}, st.sampled_from('rc'), ja2, fa2),
                   st.builds(lambda d, f: {'kind': 'cart', 'dtype': d, 'axes': f}, st.just('r'), st.lists(fa, min_size=1, max_size=2)))
    return st.fixed_dictionaries({'sys': st.fixed_dictionaries({'space': sp, 'form': st.sampled_from(['helm', 'helm', 'first', 'pair', 'stokes']), 'rank': st.sampled_from([0, 0, 1]),
                                  'bc': st.lists(st.integers(0, 2), min_size=2, max_size=2), 'co': st.lists(st.integers(0, 4), min_size=3, max_size=3),
                                  'ncc': st.sampled_from([0, 0, 1]), 'perm': st.integers(0, 5039), 'seed': st.integers(0, 10**6)}),
                                  'terms': st.lists(st.sampled_from(NL), min_size=1, max_size=3, unique=True), 'start': st.sampled_from([0.02, 0.1]),
                                  'damp': st.sampled_from([1, 1, 0.5]), 'split': st.booleans(),
                                  'opts': st.fixed_dictionaries({'matsolver': st.sampled_from(['superlucolamdfactorized', 'superlucolamdspsolve', 'denseinverse', None]),
                                                                 'bc_top': st.booleans(), 'tau_left': st.booleans(), 'interleave_components': st.booleans()})})


def run_newton(c):
    s = lin.build(c['sys'])
    r = V.rng(c['sys']['seed'] + 1)
    cs, dist = s.cs, s.dist
    problem = d3.NLBVP(s.vars)
    G, exprs_ = [], []
    main = {f.name: f for f in s.main}
    for e in s.eqs:
        m = e['m']
        N = 0
        if m is not None:
            rk = len(m.tensorsig)
            for t in c['terms']:
                x = None
                if t == 'sq':
                    x = 0.3 * m * m if not rk else None
                elif t == 'cube':
                    x = 0.2 * m**3 if not rk else 0.2 * (m @ m) * m
                elif t == 'adv':
                    x = 0.2 * m @ d3.grad(m) if rk else 0.2 * m * d3.Differentiate(m, cs.coords[-1])
                elif t == 'exp':
                    x = 0.3 * np.exp(-0.5 * m) if not rk else None
                elif t == 'pow':
                    x = 0.3 * (2 + m * m)**0.5 if not rk else None
                elif t == 'grad2':
                    x = 0.1 * d3.grad(m) @ d3.grad(m) if not rk else None
                elif t == 'sin':
                    x = 0.3 * np.sin(m) if not rk else None
                if x is not None:
                    N = N + x
        elif 'bc' in c['terms'] and 'interp' in str(e['lhs']) and not e['lhs'].tensorsig and e['lhs'].domain.bases == ():
            N = 0.2 * e['lhs'] * e['lhs']
        full = e['lhs'] + N if not isinstance(N, Number) else e['lhs']
        exprs_.append((e, full, N))
    # manufactured root with low degree content
    naxes = dist.dim
    for f in s.main:
        V.random_coeffs(f, r)
        f.data[~low_mask(f, [1] * naxes)] = 0
        lin.consistent(f)
        f['c'] *= 0.5
    for f in s.taus:
        f['c'] = 0
    root = {f.name: f['c'].copy() for f in s.vars}
    for e, full, N in exprs_:
        for f in s.vars:
            f['c'] = root[f.name]
        g = full.evaluate().copy()
        g['c']
        # the root is exact only if data pass through the same representation
        if c['split'] and not isinstance(N, Number):
            problem.add_equation((e['lhs'], g - N))
        else:
            problem.add_equation((full, g))
    solver = problem.build_solver(ncc_cutoff=1e-14, matrix_coupling=(True,) * naxes, **c['opts'])
    start = {}
    amp = c['start']
    for f in s.vars:
        p = f.copy()
        V.random_coeffs(p, r)
        if p.domain.bases:
            p.data[~low_mask(p, [1] * naxes)] = 0
            lin.consistent(p)
        start[f.name] = root[f.name] + amp * p['c']
        f['c'] = start[f.name]
    size = max(1, max(np.abs(x).max() for x in root.values() if x.size))

    def error():
        return max(np.abs(f['c'] - root[f.name])[np.broadcast_to(V.valid_mask(f), f['c'].shape)].max(initial=0) for f in s.vars)
    errs = [error()]
    tags = list(s.tags) + list(c['terms'])
    # one damped step: exactly the solution of the linearised problem around the current state
    before = {f.name: f['c'].copy() for f in s.vars}
    solver.newton_iteration(damping=c['damp'])
    for f, p in zip(s.vars, solver.perturbations):
        assert_close(f['c'], before[f.name] - c['damp'] * p['c'], f'damped update of {f.name}', rtol=1e-12, scale=size)
    cond = max(np.linalg.cond(sp.dF_min.toarray()) for sp in solver.subproblems if sp.shape[0])
    if cond > 1e9:
        raise Skip('ill conditioned')
    # the perturbation solves the linear system whose right-hand side is the residual at the state
    for eq, F in zip(problem.equations, solver.F):
        for f in s.vars:
            f['c'] = before[f.name]
        Fv = eq['F'].evaluate().copy()
        assert_close(F['c'], Fv['c'], 'residual used by the Newton step', rtol=1e-9, scale=max(1, np.abs(Fv['c']).max(initial=0)))
    for p in list(solver.perturbations) + list(solver.F):
        p['c']
    for sp in solver.subproblems:
        if sp.shape[0]:
            x = sp.gather_inputs(solver.perturbations).copy()
            y = sp.gather_outputs(solver.F).copy()
            assert_close(sp.dF_min @ x, y, 'linear system of the Newton step', rtol=1e-9 * max(1, cond**0.5), scale=max(1e-3, np.abs(y).max(initial=0)))
    for f in s.vars:
        f['c'] = start[f.name]
    errs, steps = [error()], []
    for it in range(9):
        solver.newton_iteration()
        errs.append(error())
        steps.append(max(np.abs(p['c'])[np.broadcast_to(V.valid_mask(p), p['c'].shape)].max(initial=0) for p in solver.perturbations))
        if not errs[-1] < 1e3:
            raise Skip('left the basin of attraction')
        if steps[-1] < 1e-12 * size:
            break
    floor = 1e-9 * size + 1e-13 * cond * size
    if min(steps) > 0.3 * steps[0] > floor:
        raise Skip('outside the basin of attraction')
    what = f'Newton iteration on {s.tags} with {c["terms"]}'
    show = f'errors {["%.1e" % x for x in errs]}, steps {["%.1e" % x for x in steps]} (cond {cond:.1e})'
    require(steps[-1] <= floor, f'{what} does not converge: {show}')
    # quadratic: the number of correct digits about doubles once close
    for a, b in zip(steps, steps[1:]):
        if a < 1e-2 * size:
            require(b <= max(floor, 0.1 * a, 100 * a * a / size), f'{what} converges only linearly: {show}')
    # residuals vanish at the end
    for eq in problem.equations:
        Fv = eq['F'].evaluate().copy()
        x = np.abs(Fv['c'][np.broadcast_to(eq['valid_modes'] & V.valid_mask(Fv), Fv['c'].shape)]).max(initial=0)
        require(x <= 1e3 * floor, f'{what}: residual {x:.1e} at the converged state; {show}')
    same = errs[-1] <= 10 * floor
    return {'nontrivial': errs[0] > 1e-3 and any(not isinstance(n, Number) for _, _, n in exprs_), 'tags': tags + ['%d its' % len(steps), 'manufactured root' if same else 'other root']}


SUBS = [Sub('frechet', case, run, 1500), Sub('newton', newton_case, run_newton, 300)]
