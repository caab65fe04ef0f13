"""C11 eigenvalue problems: eigenpairs satisfy the stated equations, dense spectra are complete, sparse ones nearest, left vectors adjoint."""
import numpy as np
import scipy.linalg
import scipy.special as ss
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip
from vlib import spaces as V, lin
import dedalus.public as d3

SOLVERS = ['superlunaturalspsolve', 'superlucolamdspsolve', 'superlunaturalfactorized', 'superlunaturalfactorizedtranspose',
           'superlucolamdfactorized', 'superlucolamdfactorizedtranspose', 'scipybanded', 'sparseinverse', 'denseinverse', 'scipydenselu', None, None]
#: solvers that implement the adjoint solve
ADJOINT = ['superlunaturalfactorized', 'superlucolamdfactorized', 'superlunaturalfactorizedtranspose', 'superlucolamdfactorizedtranspose', None]
SHAPES = ['lam*m', 'm*lam', 'neg', 'shift', 'split', 'twice', 'inner', 'scaled']
OPS = ['dense', 'dense', 'sparse', 'sparse', 'ncc', 'state', 'left', 'sleft']


def case():
    return st.fixed_dictionaries({'sys': lin.system_st(forms=('helm', 'helm', 'helm', 'first', 'pair', 'stokes'), small=True),
                                  'matsolver': st.sampled_from(SOLVERS), 'shape': st.sampled_from(SHAPES), 'bc_top': st.booleans(), 'tau_left': st.booleans(),
                                  'interleave_components': st.booleans(), 'extra': st.integers(0, 7),
                                  'ops': st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10**6)), min_size=1, max_size=5)})


def affine(shape, lam, m, L, dist):
    """The same pencil written differently; returns the expression and the map from its eigenvalue to the standard one."""
    if shape == 'lam*m':
        return lam * m + L
    if shape == 'm*lam':
        return L + m * lam
    if shape == 'neg':
        return L - lam * m
    if shape == 'shift':
        return (lam + 1.5) * m + L
    if shape == 'split':
        return lam * (3 * m) + (L - lam * m) - m * lam
    if shape == 'twice':
        return lam * m + L + (lam - 2) * m
    if shape == 'inner':
        return lam * (0.5 * m + 0.5 * m) + L
    if shape == 'scaled':
        return 2 * ((lam * 2) * m + 0.5 * L)
    raise KeyError(shape)


MAPS = {'neg': lambda x: -x, 'shift': lambda x: x - 1.5, 'twice': lambda x: (x + 2) / 2, 'scaled': lambda x: x / 4}


class Run:
    def __init__(self, c, shape):
        self.s = s = lin.build(c['sys'])
        for f in s.vars:
            f['c'] = 0
        self.lam = lam = s.dist.Field(name='lam')
        self.problem = p = d3.EVP(s.vars, eigenvalue=lam)
        self.exprs = []
        for e in s.eqs:
            lhs = e['lhs'] if e['m'] is None else affine(shape, lam, e['m'], e['lhs'], s.dist)
            self.exprs.append((lhs, p.add_equation((lhs, 0), condition=e['cond'] or 'True')))
        coup = lin.full_coupling(s, p.matrix_coupling, c['extra'])
        kw = {k: c[k] for k in ('bc_top', 'tau_left', 'interleave_components')}
        if c['matsolver']:
            kw['matsolver'] = c['matsolver']
        self.solver = p.build_solver(matrix_coupling=coup, ncc_cutoff=1e-13, **kw)


def reference(sp, sigma):
    """Finite eigenvalues by shift and invert about sigma (independent of the generalized solver), and their condition numbers."""
    L, M = sp.L_min.toarray(), sp.M_min.toarray()
    A = L + sigma * M
    if not A.size or np.linalg.cond(A) > 1e9:
        raise Skip('ill conditioned')
    D = np.linalg.solve(A, M)
    mu, l, r = scipy.linalg.eig(D, left=True)
    ok = np.abs(mu) > 1e-7 * max(np.abs(mu).max(), 1e-300)
    kappa = 1 / np.maximum(1e-300, np.abs(np.sum(l.conj() * r, axis=0)))
    # L x + lam M x = 0  =>  D x = x / (sigma - lam)
    lam = sigma - 1 / mu[ok]
    relerr = kappa[ok] * np.linalg.norm(D) * 1e-14 / np.abs(mu[ok])   # of (sigma - lam)
    order = np.argsort(np.abs(lam - sigma))
    return lam[order], relerr[order], D


def run(c):
    R = Run(c, c['shape'])
    s, solver = R.s, R.solver
    kind = s.spec['space']['kind']
    real = s.spec['space']['dtype'] == 'r'
    shape = c['shape']
    sps = list(solver.subproblems)
    raised = kind != 'cart' or any((a['t'] == 'J' and (a['a'], a['b']) != (a['a0'], a['b0'])) or (a['t'] == 'F' and not real) for a in s.spec['space']['axes'])
    # (conversions in annuli and shells truncate in coefficient space but not on the grid)
    aliased = bool(s.nccs) or kind in ('annulus', 'shell')
    tags = list(s.tags) + [shape, str(c['matsolver'])]
    what = f'{s.tags} {shape} {c["matsolver"]}'
    stale = set()
    nontriv = False
    built = set()
    kind_of = None

    def pencil(sp, lam):
        return (sp.L_min + lam * sp.M_min).toarray()

    def check_pairs(sp, evals, evecs, label):
        L, M = sp.L_min, sp.M_min
        n = 0
        nL, nM = abs(L).max() if L.nnz else 0, abs(M).max() if M.nnz else 0
        for i, lam in enumerate(evals):
            if not np.isfinite(lam) or abs(lam) > 1e10:
                continue
            x = sp.pre_right_pinv @ evecs[:, i]
            sx = np.abs(x).max()
            require(sx > 0, f'{label}: zero eigenvector for {what}')
            res = (L @ x + lam * (M @ x)) / sx
            # backward stable relative to the norm of the pencil
            tol = 1e-8 * (nL + abs(lam) * nM)
            require(np.abs(res).max() <= tol, f'{label}: eigenpair {lam} leaves residual {np.abs(res).max():.2e} (allowed {tol:.2e}) in {what}')
            # evecs live in the range of the recombination
            assert_close(sp.pre_right @ x, evecs[:, i], f'{label}: eigenvector outside the valid modes in {what}', rtol=1e-10, scale=np.abs(evecs[:, i]).max())
            n += 1
        return n

    def complete(got, ref, relerr, sigma, label, n):
        """The n eigenvalues nearest sigma appear, with multiplicity, as far as the conditioning resolves them."""
        got = np.array([x for x in got if np.isfinite(x)])
        tol = np.minimum(1e-2, 1e-6 + 10 * relerr) * np.maximum(np.abs(ref - sigma), 1e-3)
        count = 0
        for i in range(min(n, len(ref))):
            if relerr[i] > 1e-5 or tol[i] > 1e-4 * max(1e-3, abs(ref[i] - sigma)):
                continue
            t = tol[i] + 1e-7 * (1 + abs(ref[i]))
            need = np.sum(np.abs(ref[:n] - ref[i]) < t)
            have = np.sum(np.abs(got - ref[i]) < 3 * t)
            require(have >= need, f'{label}: eigenvalue {ref[i]} found {have} times, expected {need}, in {what} (got {got[:12]})')
            count += 1
        return count

    def check_left(sp, evals, label):
        ok = np.isfinite(evals) & (np.abs(evals) < 1e8)
        left, mod, right = solver.left_eigenvectors, solver.modified_left_eigenvectors, solver.eigenvectors
        G = mod.conj().T @ right
        Lp = (sp.pre_left_pinv @ sp.L_min).toarray()
        Mp = (sp.pre_left_pinv @ sp.M_min).toarray()
        n = 0
        nl, nm = np.abs(Lp).max(), np.abs(Mp).max()
        for i in np.where(ok)[0]:
            y = left[:, i]
            if not np.all(np.isfinite(y)) or not np.abs(y).max():
                continue
            lam = evals[i]
            res = y.conj() @ Lp + lam * (y.conj() @ Mp)
            tol = 1e-7 * (nl + abs(lam) * nm) * np.abs(y).max()
            require(np.abs(res).max() <= tol, f'{label}: left vector of {lam} leaves adjoint residual {np.abs(res).max():.2e} (allowed {tol:.2e}) in {what}')
            # normalised against its own right vector
            scale = np.linalg.norm(mod[:, i]) * np.linalg.norm(right[:, i])
            if scale < 1e5:
                require(abs(G[i, i] - 1) < 1e-8 * max(1, scale), f'{label}: left and right vectors of {lam} have product {G[i, i]}, not one, in {what}')
                n += 1
                for j in np.where(ok)[0]:
                    sc = np.linalg.norm(mod[:, i]) * np.linalg.norm(right[:, j])
                    if i != j and abs(evals[i] - evals[j]) > 1e-2 * (1 + abs(evals[i]) + abs(evals[j])) and sc < 1e5 and abs(evals[j]) < 1e6 and abs(evals[i]) < 1e6:
                        require(abs(G[i, j]) < 1e-5 * max(1, sc), f'{label}: left vector of {evals[i]} not orthogonal to right vector of {evals[j]}: {G[i, j]} in {what}')
        return n

    def check_state(sp, i, sub, label):
        lam = solver.eigenvalues[i]
        if not np.isfinite(lam) or abs(lam) > 1e8:
            return
        vec = solver.eigenvectors[:, i]
        if real and (abs(np.imag(lam)) > 1e-12 * (1 + abs(lam)) or np.abs(np.imag(vec)).max() > 1e-12 * np.abs(vec).max()):
            return   # complex modes need complex fields
        for f in s.vars:
            V.random_coeffs(f, V.rng(i))
        solver.set_state(i, sub)
        subs = sp.subsystems
        chosen = subs[sub] if isinstance(sub, int) else sub
        for ss_ in [x for q in sps for x in q.subsystems]:
            got = ss_.gather(s.vars).copy()
            if ss_ is chosen:
                assert_close(got, vec, f'{label}: state of the chosen subsystem in {what}', rtol=1e-12, scale=np.abs(vec).max())
            else:
                require(not np.abs(got).max(initial=0), f'{label}: set_state leaves data in another subsystem of {what}')
        require(abs(R.lam['g'].ravel()[0] - lam) <= 1e-12 * (1 + abs(lam)), 'eigenvalue field')
        if aliased:
            return
        # the equations themselves, evaluated on the loaded state
        tot = 1e-300
        for lhs, eqn in R.exprs:
            out = lhs.evaluate()['c']
            ok = np.broadcast_to(eqn['valid_modes'], out.shape)
            msk = V.valid_mask(lhs.evaluate())
            ok = ok & np.broadcast_to(msk, out.shape)
            big = abs(sp.L_min).max() + abs(lam) * (abs(sp.M_min).max() if sp.M_min.nnz else 0)
            if ok.any():
                err = np.abs(out[ok]).max()
                require(err <= 1e-7 * big * np.abs(vec).max(), f'{label}: equation {lhs} not satisfied by mode {lam}: residual {err:.2e} of {big * np.abs(vec).max():.2e} in {what}')

    cur = None
    nyq = not real and kind == 'cart' and any(a['t'] == 'F' for a in s.spec['space']['axes'])
    for op, seed in [('dense', c['sys']['seed'])] + [tuple(o) for o in c['ops']]:
        rr = V.rng(seed)
        if op == 'ncc':
            if not s.nccs:
                continue
            for f in s.nccs:
                f.change_scales(1)
                f['g'] = 1 + (f['g'] - 1) * -0.7
            stale = set(built)
            tags.append('ncc-rebuild')
            continue
        if op == 'state':
            if cur is None:
                continue
            k = len(cur.subsystems)
            j = int(rr.randint(0, k))
            i = int(rr.randint(0, len(solver.eigenvalues)))
            check_state(cur, i, j if seed % 2 else cur.subsystems[j], 'state')
            tags.append('state')
            continue
        sp = sps[int(rr.randint(0, len(sps)))]
        reb = sp in stale or bool(rr.randint(0, 4) == 0)
        label = op
        first = not hasattr(sp, 'L_min')
        if first and op in ('dense', 'left'):
            try:
                solver.solve_dense(sp, left=op == 'left')   # builds the matrices
            except ValueError:
                if sp.L_min.shape[0]:
                    raise
        elif first:
            solver.build_matrices([sp], ['M', 'L'])
        if not sp.L_min.shape[0]:
            cur = None
            continue
        if op in ('dense', 'left'):
            solver.solve_dense(sp, rebuild_matrices=reb, left=op == 'left')
        else:
            if op == 'sleft' and c['matsolver'] not in ADJOINT:
                continue
            n = int(rr.randint(1, 7))
            sigma = [0.37, -1.3, -7.7, 20.1][int(rr.randint(0, 4))] + (0 if real else [0, 0, 0.7j][int(rr.randint(0, 3))])
            if reb or not hasattr(sp, 'L_min'):
                solver.build_matrices([sp], ['M', 'L'])
            m_shape = sp.L_min.shape[0]
            if m_shape - 2 <= n:
                stale.discard(sp)
                built.add(sp)
                continue
            ref, relerr, D = reference(sp, sigma)
            if len(ref) <= n + 1:
                stale.discard(sp)
                built.add(sp)
                continue
            # a single Krylov vector need not see every copy of a repeated eigenvalue
            dd = np.abs(ref[:n + 3, None] - ref[None, :n + 3]) + 1e3 * np.eye(len(ref[:n + 3]))
            multiple = bool((dd < 1e-5 * (1 + np.abs(ref[:n + 3]))).any())
            if multiple and (op == 'sleft'):
                continue
            v0 = None
            if multiple or seed % 3:
                x0 = rr.randn(m_shape) + (0 if real else 1j * rr.randn(m_shape))
                v0 = sp.pre_right @ x0
            try:
                solver.solve_sparse(sp, n, sigma, rebuild_matrices=reb, left=op == 'sleft', v0=v0)
            except RuntimeError as e:
                if 'left eigenvalues' in str(e):
                    raise Skip('left and right orders differ, reported')
                raise
            except scipy.sparse.linalg.ArpackNoConvergence:
                raise Skip('no convergence')
        cur = sp
        built.add(sp)
        stale.discard(sp)
        M = sp.M_min
        # matrices must be those of the current coefficients
        k = check_pairs(sp, solver.eigenvalues, solver.eigenvectors, label)
        if op in ('dense', 'left'):
            sigma = 0.41 if real else 0.41 + 0.2j
            require(solver.eigenvectors.shape[1] == len(solver.eigenvalues) == sp.L_min.shape[0], 'number of eigenvalues')
            try:
                ref, relerr, D = reference(sp, sigma)
            except Skip:
                ref = []
            if len(ref):
                nontriv |= complete(solver.eigenvalues, ref, relerr, sigma, label, len(ref)) > 1
        else:
            require(len(solver.eigenvalues) == n == solver.eigenvectors.shape[1], f'{len(solver.eigenvalues)} eigenvalues returned, {n} requested')
            # the count nearest the target, leaving out a group cut by the count
            d = np.abs(ref - sigma)
            m = n
            while m and abs(d[m] - d[m - 1]) < 1e-3 * d[m]:
                m -= 1
            if not multiple and np.all(relerr[:n + 1] < 1e-6):
                complete(solver.eigenvalues, ref, relerr, sigma, label, m)
                far = np.abs(solver.eigenvalues - sigma).max()
                require(far <= d[n - 1] * (1 + 1e-4) + 1e-6, f'{label}: eigenvalue at distance {far} from the target {sigma}, the {n} nearest are within {d[n-1]} in {what}')
                nontriv = True
            tags.append('sparse')
        if op in ('left', 'sleft'):
            if check_left(sp, solver.eigenvalues, label):
                tags.append('left')
        if s.nccs and (reb or sp in built):
            # the coefficients in the matrices are the current ones
            fresh = s
        order = np.argsort(np.where(np.isfinite(solver.eigenvalues), np.abs(solver.eigenvalues), np.inf))
        for i in order[:3]:
            check_state(sp, int(i), int(rr.randint(0, len(sp.subsystems))), label)
    # a second statement of the same problem has the same spectrum (and the rebuilt matrices are the current ones)
    if cur is not None and built:
        R2 = Run(c, 'lam*m')
        for f, g in zip(R2.s.nccs, s.nccs):
            f.change_scales(1)
            g.change_scales(1)
            f['g'] = g['g']
        sp2 = {sp.group: sp for sp in R2.solver.subproblems}[cur.group]
        if cur in stale:
            solver.solve_dense(cur, rebuild_matrices=True)
        R2.solver.build_matrices([sp2], ['M', 'L'])
        sigma = 0.41 if real else 0.41 + 0.2j
        try:
            ref, relerr, D = reference(sp2, sigma)
        except Skip:
            return {'nontrivial': nontriv, 'tags': tags}
        solver.solve_dense(cur)
        fn = MAPS.get(shape, lambda x: x)
        inv = {'neg': lambda y: -y, 'shift': lambda y: y - 1.5, 'twice': lambda y: (y + 2) / 2, 'scaled': lambda y: y / 4}.get(shape, lambda y: y)
        # the standard eigenvalue of (lam_std m + L): shape's own eigenvalue is inv(lam_std)
        got = solver.eigenvalues
        got = got[np.isfinite(got)]
        back = {'neg': lambda x: -x, 'shift': lambda x: x + 1.5, 'twice': lambda x: 2 * x - 2, 'scaled': lambda x: 4 * x}.get(shape, lambda x: x)(got)
        complete(back, ref, relerr, sigma, f'spectrum of the form {shape}', max(1, len(ref) // 2))
        tags.append('forms')
    return {'nontrivial': nontriv, 'tags': tags}


# --- known spectra

FAMS = ['interval', 'interval', 'advect', 'mathieu', 'disk', 'annulus', 'sphere', 'ball', 'shell', 'airy', 'fourier', 'wave']


def known_case():
    return st.fixed_dictionaries({'fam': st.sampled_from(FAMS), 'dtype': st.sampled_from(['r', 'c']), 'a': st.floats(0.3, 2.0), 'b': st.floats(0.2, 2.0), 'ab': st.sampled_from([(-0.5, -0.5), (0, 0), (-0.5, 0.5), (0.5, 0.5)]),
                                  'bc': st.tuples(st.integers(0, 1), st.integers(0, 1)), 'n': st.integers(0, 3), 'm': st.integers(0, 3), 'seed': st.integers(0, 999), 'sparse': st.booleans(), 'order': st.booleans()})


def get_modes(problem, c, target, group=None, n=3):
    solver = problem.build_solver(ncc_cutoff=1e-12)
    if group is None:
        sp = solver.subproblems[0]
    else:
        sp = next(x for x in solver.subproblems if all(g is None or g == h for g, h in zip(group, x.group)))
    if c['sparse']:
        solver.solve_sparse(sp, n, target)
    else:
        solver.solve_dense(sp)
    ev = solver.eigenvalues
    return solver, sp, ev[np.isfinite(ev)]


def has(ev, want, what, tol=1e-6):
    d = np.abs(ev - want).min(initial=np.inf)
    require(d <= tol * (1 + abs(want)), f'{what}: eigenvalue {want} missing, nearest at {d:.2e}')


def run_known(c):
    dt = np.float64 if c['dtype'] == 'r' else np.complex128
    a, b, fam = c['a'], c['b'], c['fam']
    tags = [fam, 'sparse' if c['sparse'] else 'dense', c['dtype']]
    if fam in ('interval', 'advect', 'airy'):
        co = d3.Coordinate('x')
        dist = d3.Distributor(co, dtype=dt)
        x0 = -a
        Lx = a + b
        al, be = c['ab']
        B = d3.Jacobi(co, 32, a=al, b=be, bounds=(x0, x0 + Lx))
        u, t1, t2, lam = dist.Field(name='u', bases=B), dist.Field(name='t1'), dist.Field(name='t2'), dist.Field(name='lam')
        dx = lambda f: d3.Differentiate(f, co)
        l = lambda f, n: d3.Lift(f, B.derivative_basis(2), n)
        e0, e1 = x0, x0 + Lx
        bc = [c['bc'][0], c['bc'][1]]
        if fam != 'interval':
            bc = [0, 0]
        v = 0
        if fam == 'advect':
            v = 2 * (a - 1)
            lhs = lam * u - b * dx(dx(u)) + v * dx(u)
        elif fam == 'airy':
            # u'' - z u + lam u = 0
            z = dist.Field(name='z', bases=B)
            z['g'] = dist.local_grid(B)
            lhs = -dx(dx(u)) + z * u - lam * u
        else:
            lhs = lam * u + dx(dx(u))
        ux = dx(u)
        p = d3.EVP([u, t1, t2], eigenvalue=lam)
        eqs = [(lhs + l(t1, -1) + l(t2, -2), 0), ((ux if bc[0] else u)(x=e0), 0), ((ux if bc[1] else u)(x=e1), 0)]
        for e in (eqs if c['order'] else eqs[::-1]):
            p.add_equation(e)
        k = c['n'] + (0 if bc == [1, 1] else 1)
        kk = k - (0.5 if bc[0] != bc[1] else 0)
        if fam == 'interval':
            want = (kk * np.pi / Lx) ** 2
        elif fam == 'advect':
            # lam u = b u'' - v u'
            want = -(v * v / (4 * b) + b * (k * np.pi / Lx) ** 2)
        if fam == 'airy':
            def det(s):
                # u = Ai(z - s), Bi(z - s)
                A0, _, B0, _ = ss.airy(x0 - s)
                A1, _, B1, _ = ss.airy(x0 + Lx - s)
                return A0 * B1 - A1 * B0
            from scipy.optimize import brentq
            ss_ = np.linspace(x0, x0 + 200 / Lx ** 2, 4000)
            f = det(ss_)
            roots = [brentq(det, ss_[i], ss_[i + 1], xtol=1e-13) for i in range(len(f) - 1) if f[i] * f[i + 1] < 0]
            if len(roots) <= c['n']:
                raise Skip('few roots')
            want = roots[c['n']]
        solver, sp, ev = get_modes(p, c, want + 0.013)
        has(ev, want, f'{fam} {tags}')
        near = ev[np.argmin(np.abs(ev - want))]
        # shape of the eigenfunction
        i = int(np.argmin(np.abs(solver.eigenvalues - near)))
        if fam == 'interval' and (dt is np.complex128 or np.abs(np.imag(solver.eigenvectors[:, i])).max() < 1e-9 * np.abs(solver.eigenvectors[:, i]).max()):
            solver.set_state(i)
            g = u['g'].ravel()
            xx = dist.local_grid(B).ravel() - x0
            w = np.sin(kk * np.pi / Lx * xx) if not bc[0] else np.cos(kk * np.pi / Lx * xx)
            fac = np.vdot(w, g) / np.vdot(w, w)
            assert_close(g, fac * w, f'{fam}: eigenfunction', rtol=1e-5, scale=np.abs(g).max())
            require(abs(fac) > 1e-8, 'eigenfunction vanishes')
    elif fam in ('mathieu', 'fourier', 'wave'):
        co = d3.Coordinate('x')
        dist = d3.Distributor(co, dtype=dt)
        N = 32
        if fam == 'mathieu':
            B = (d3.RealFourier if c['dtype'] == 'r' else d3.ComplexFourier)(co, N, bounds=(0, 2 * np.pi))
            q = b
            u, lam, V_ = dist.Field(name='u', bases=B), dist.Field(name='lam'), dist.Field(name='V', bases=B)
            V_['g'] = 2 * q * np.cos(2 * dist.local_grid(B))
            p = d3.EVP([u], eigenvalue=lam)
            p.add_equation((lam * u + d3.lap(u) - V_ * u, 0))
            solver, sp, ev = get_modes(p, c, ss.mathieu_a(c['n'], q) + 0.017, n=5)
            has(ev, ss.mathieu_a(c['n'], q), 'mathieu a')
            if not c['sparse'] and c['n']:
                has(ev, ss.mathieu_b(c['n'], q), 'mathieu b')
        elif fam == 'wave':
            # u_t = -p_x, p_t = -c2 u_x: imaginary pairs
            dist = d3.Distributor(co, dtype=np.complex128)
            B = d3.ComplexFourier(co, N, bounds=(0, a))
            u, pp, lam = dist.Field(name='u', bases=B), dist.Field(name='p', bases=B), dist.Field(name='lam')
            dx = lambda f: d3.Differentiate(f, co)
            p = d3.EVP([u, pp], eigenvalue=lam)
            p.add_equation((lam * u + dx(pp), 0))
            p.add_equation((lam * pp + b * dx(u), 0))
            k = 2 * np.pi / a * (c['n'] + 1)
            solver, sp, ev = get_modes(p, dict(c, sparse=c['sparse']), 1j * np.sqrt(b) * k + 0.01, n=3)
            has(ev, 1j * np.sqrt(b) * k, 'wave')
        else:
            y = d3.Coordinate('y')
            cs = d3.CartesianCoordinates('x', 'y')
            dist = d3.Distributor(cs, dtype=dt)
            F = d3.RealFourier if c['dtype'] == 'r' else d3.ComplexFourier
            bx, by = F(cs['x'], 8, bounds=(0, 2 * np.pi * a)), F(cs['y'], 8, bounds=(0, 2 * np.pi * b))
            u, lam = dist.Field(name='u', bases=(bx, by)), dist.Field(name='lam')
            p = d3.EVP([u], eigenvalue=lam)
            p.add_equation((lam * u + d3.lap(u), 0))
            want = (c['m'] / a) ** 2 + (c['n'] / b) ** 2
            solver, sp, ev = get_modes(p, c, want + 0.013, group=(c['m'], None), n=2)
            has(ev, want, f'fourier modes {c["m"]},{c["n"]}')
    elif fam in ('disk', 'annulus'):
        cs = d3.PolarCoordinates('phi', 'r')
        dist = d3.Distributor(cs, dtype=dt)
        m = c['m']
        lam = dist.Field(name='lam')
        if fam == 'disk':
            B = d3.DiskBasis(cs, (12, 24), dtype=dt, radius=a)
            u, t1 = dist.Field(name='u', bases=B), dist.Field(name='t1', bases=B.edge)
            p = d3.EVP([u, t1], eigenvalue=lam)
            p.add_equation((lam * u + d3.lap(u) + d3.lift(t1, B, -1), 0))
            p.add_equation((u(r=a), 0))
            want = (ss.jn_zeros(m, c['n'] + 1)[-1] / a) ** 2
        else:
            r0, r1 = a, a * (1 + b)
            B = d3.AnnulusBasis(cs, (12, 28), dtype=dt, radii=(r0, r1))
            u, t1, t2 = dist.Field(name='u', bases=B), dist.Field(name='t1', bases=B.outer_edge), dist.Field(name='t2', bases=B.outer_edge)
            p = d3.EVP([u, t1, t2], eigenvalue=lam)
            lb = B.derivative_basis(2)
            p.add_equation((lam * u + d3.lap(u) + d3.lift(t1, lb, -1) + d3.lift(t2, lb, -2), 0))
            p.add_equation((u(r=r0), 0))
            p.add_equation((u(r=r1), 0))
            want = cross_zero(lambda k: ss.jv(m, k * r0) * ss.yv(m, k * r1) - ss.jv(m, k * r1) * ss.yv(m, k * r0), r1 - r0, c['n'])
        solver, sp, ev = get_modes(p, c, want + 0.013, group=(m, None), n=2)
        has(ev, want, f'{fam} m={m} n={c["n"]}', tol=1e-5)
    elif fam == 'sphere':
        cs = d3.S2Coordinates('phi', 'theta')
        dist = d3.Distributor(cs, dtype=dt)
        B = d3.SphereBasis(cs, (16, 8), dtype=dt, radius=a)
        u, lam = dist.Field(name='u', bases=B), dist.Field(name='lam')
        p = d3.EVP([u], eigenvalue=lam)
        # a rotating sphere would need m; couple the degrees of one order
        p.add_equation((lam * u + d3.lap(u) - 0 * d3.MulCosine(u), 0))
        solver = p.build_solver(matrix_coupling=(False, True))
        m = c['m']
        sp = next(x for x in solver.subproblems if x.group[0] == m)
        l = m + c['n']
        if l > 6:
            raise Skip('unresolved')
        want = l * (l + 1) / a ** 2
        if c['sparse'] and sp.L_min.shape[0] if hasattr(sp, 'L_min') else False:
            pass
        solver.solve_dense(sp)
        ev = solver.eigenvalues[np.isfinite(solver.eigenvalues)]
        has(ev, want, f'sphere m={m} l={l}', tol=1e-8)
    else:
        cs = d3.SphericalCoordinates('phi', 'theta', 'r')
        dist = d3.Distributor(cs, dtype=dt)
        l = c['m']
        lam = dist.Field(name='lam')
        if fam == 'ball':
            B = d3.BallBasis(cs, (8, 6, 20), dtype=dt, radius=a)
            u, t1 = dist.Field(name='u', bases=B), dist.Field(name='t1', bases=B.surface)
            p = d3.EVP([u, t1], eigenvalue=lam)
            p.add_equation((lam * u + d3.lap(u) + d3.lift(t1, B, -1), 0))
            p.add_equation((u(r=a), 0))
            want = cross_zero(lambda k: ss.spherical_jn(l, k * a), a, c['n'], kmin=0.5)
        else:
            r0, r1 = a, a * (1 + b)
            B = d3.ShellBasis(cs, (8, 6, 24), dtype=dt, radii=(r0, r1))
            u, t1, t2 = dist.Field(name='u', bases=B), dist.Field(name='t1', bases=B.outer_surface), dist.Field(name='t2', bases=B.outer_surface)
            p = d3.EVP([u, t1, t2], eigenvalue=lam)
            lb = B.derivative_basis(2)
            p.add_equation((lam * u + d3.lap(u) + d3.lift(t1, lb, -1) + d3.lift(t2, lb, -2), 0))
            p.add_equation((u(r=r0), 0))
            p.add_equation((u(r=r1), 0))
            want = cross_zero(lambda k: ss.spherical_jn(l, k * r0) * ss.spherical_yn(l, k * r1) - ss.spherical_jn(l, k * r1) * ss.spherical_yn(l, k * r0), r1 - r0, c['n'])
        solver, sp, ev = get_modes(p, c, want + 0.013, group=(None, l, None), n=2)
        has(ev, want, f'{fam} l={l} n={c["n"]}', tol=1e-5)
    return {'nontrivial': True, 'tags': tags}


def cross_zero(f, width, n, kmin=1e-3):
    from scipy.optimize import brentq
    k = np.linspace(kmin / width, 30 / width, 6000)
    v = f(k)
    roots = [brentq(f, k[i], k[i + 1], xtol=1e-14) for i in range(len(k) - 1) if v[i] * v[i + 1] < 0 and abs(v[i]) < 1e6]
    if len(roots) <= n:
        raise Skip('few roots')
    return roots[n] ** 2


# --- eigenvalue problems derived from initial value problems

def conv_case():
    fa = V.fourier_axis(sizes=(8, 12), dealias=(1.5,))
    ja = V.jacobi_axis(sizes=(12, 16), dealias=(1.5,), params=[(-0.5, -0.5), (0, 0)], dk=(0,))
    sp = st.one_of(st.builds(lambda d, j: {'kind': 'cart', 'dtype': d, 'axes': [j]}, st.sampled_from('rc'), ja),
                   st.builds(lambda d, j, f: {'kind': 'cart', 'dtype': d, 'axes': [f, j]}, st.sampled_from('rc'), ja, V.fourier_axis(sizes=(4,), dealias=(1.5,))),
                   st.builds(lambda d, f: {'kind': 'cart', 'dtype': d, 'axes': [f]}, st.sampled_from('rc'), fa))
    return st.fixed_dictionaries({'sys': st.fixed_dictionaries({'space': sp, 'form': st.sampled_from(['helm', 'helm', 'first', 'pair']), 'rank': st.just(0), 'bc': st.lists(st.integers(0, 1), min_size=2, max_size=2),
                                                                'co': st.lists(st.integers(0, 4), min_size=3, max_size=3), 'ncc': st.sampled_from([0, 0, 1]), 'perm': st.integers(0, 5039), 'seed': st.integers(0, 10**6)}),
                                  'nl': st.sampled_from(['sq', 'adv', 'mix', 'const', 'number', 'none', 'field']), 'bg': st.booleans(), 'pert': st.booleans(), 'ev': st.booleans()})


def run_conv(c):
    s = lin.build(c['sys'])
    S = s.S
    r = V.rng(c['sys']['seed'] + 3)
    u = s.main[0]
    if 'pair' == s.form:
        u = [f for f in s.main if not f.tensorsig][0]
    cart_axis = 0
    jax = [i for i, a in enumerate(c['sys']['space']['axes']) if a['t'] == 'J']
    ax = jax[0] if jax else S.dim - 1
    bb = S.bases[ax]
    co = s.cs.coords[ax]
    dx = lambda f: d3.Differentiate(f, co)
    # background varying along the coupled axis only
    u0 = s.dist.Field(bases=u.domain.bases, name='u0')
    q = 2
    prof = s.dist.Field(bases=bb, name='prof')
    V.random_coeffs(prof, r)
    prof['c'][prof['c'] != 0] *= 0.3
    from vlib.nccs import low_mask
    prof.data[~low_mask(prof, [q] * S.dim)] = 0
    for e in s.eqs:
        if e['m'] is u:
            target = e
    one = s.dist.Field(bases=u.domain.bases, name='one')
    k = 0.8
    def rhs(w):
        return {'sq': w * w, 'adv': w * dx(w), 'mix': k * w * w - w * dx(w), 'const': None, 'number': None, 'none': None, 'field': None}[c['nl']]
    fixed = {'const': one, 'number': 3.0, 'none': 0, 'field': one + one}
    F = rhs(u) if rhs(u) is not None else fixed[c['nl']]
    for f in s.vars:
        f['c'] = 0
    ivp = d3.IVP(s.vars)
    for e in s.eqs:
        lhs = e['lhs'] if e['m'] is None else d3.dt(e['m']) + e['lhs']
        ivp.add_equation((lhs, F if e is target else 0), condition=e['cond'] or 'True')
    kw = {}
    def load(f):
        f['g'] = 0
        f.change_scales(1)
        prof.change_scales(1)
        f['g'] = f['g'] + prof['g']
    if c['bg']:
        bgs = []
        for f in s.vars:
            b = s.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name=f.name + '_0')
            bgs.append(b)
        load(bgs[s.vars.index(u)])
        kw['backgrounds'] = bgs
    else:
        load(u)
    if c['pert']:
        kw['perturbations'] = [s.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name=f.name + '_1') for f in s.vars]
    lam1 = s.dist.Field(name='lam')
    if c['ev']:
        kw['eigenvalue'] = lam1
    ncc_ok = bb if True else None
    # a coefficient depending on every axis cannot enter separable axes: only one dimensional backgrounds are usable there
    if S.dim > 1 and F is not None and rhs(u) is not None:
        raise Skip('background must be one dimensional')
    evp = ivp.build_EVP(**kw)
    require(len(evp.variables) == len(s.vars), 'variables of the converted problem')
    sol = evp.build_solver(ncc_cutoff=1e-13)
    # the same problem by hand
    lam = s.dist.Field(name='mu')
    p = d3.EVP(s.vars, eigenvalue=lam)
    w0 = s.dist.Field(bases=bb, name='w0')
    w0['c'] = prof['c']
    w0x = dx(w0).evaluate()
    for e in s.eqs:
        lhs = e['lhs'] if e['m'] is None else lam * e['m'] + e['lhs']
        if e is target:
            if c['nl'] == 'sq':
                lhs = lhs - 2 * (w0 * u)
            elif c['nl'] == 'adv':
                lhs = lhs - w0 * dx(u) - w0x * u
            elif c['nl'] == 'mix':
                lhs = lhs - (2 * k) * (w0 * u) + w0 * dx(u) + w0x * u
        p.add_equation((lhs, 0), condition=e['cond'] or 'True')
    if c['bg']:
        pass
    hand = p.build_solver(ncc_cutoff=1e-13)
    n = 0
    for sp1 in sol.subproblems:
        sp2 = {x.group: x for x in hand.subproblems}[sp1.group]
        sol.build_matrices([sp1], ['M', 'L'])
        hand.build_matrices([sp2], ['M', 'L'])
        for name in ('M_min', 'L_min'):
            A, B = getattr(sp1, name).toarray(), getattr(sp2, name).toarray()
            require(A.shape == B.shape, 'matrix shapes of the converted problem')
            if A.size:
                assert_close(A, B, f'{name} of the converted problem {c["nl"]} {s.tags}', rtol=1e-9, scale=max(1, np.abs(B).max()))
                n += np.abs(A).max() > 0
    return {'nontrivial': n > 0, 'tags': list(s.tags) + [c['nl'], 'bg' if c['bg'] else 'self']}


SUBS = [Sub('modes', case, run, 500), Sub('known', known_case, run_known, 400), Sub('convert', conv_case, run_conv, 300)]
