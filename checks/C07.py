"""C07 assembled matrices vs directly evaluated expressions; gather/scatter structure of subproblems."""
import numpy as np
from numbers import Number
from scipy import sparse
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Violation, Skip, HarnessError
from vlib import spaces as V, ops, lin
from vlib.nccs import shift_mask, low_mask, radial_ncc
import dedalus.public as d3
import dedalus.core.subsystems as subsystems
import dedalus.core.basis as dbasis

PROG = ['grad', 'div', 'lap', 'curl', 'trace', 'transpose', 'skew', 'scale', 'ncc', 'ncc', 'ncc', 'nccdot', 'nccdot', 'ncccross', 'add', 'add', 'd', 'comp', 'interp', 'integ', 'ave', 'lift', 'radial', 'dict', 'sub', 'const']


def dealiased(sp):
    p = dict(sp['polar'], dealias=[1.5, 1.5])
    z = dict(sp['z'], d=max(1.5, sp['z']['d']))
    return dict(sp, polar=p, z=z)


def space_st():
    cart = st.one_of(V.cart_space(dims=(1, 2), sizes=(8, 6, 12), dealias=(1.5, 2.0)), V.cart_space(dims=(2, 3), sizes=(6, 8), sizes3=(4, 6), dealias=(1.5, 2.0)))
    pol = V.curvi_polar(nphi=(8, 12), nr=(6, 8, 10), dealias=((1.5, 1.5), (2, 2)))
    sph = V.curvi_sphere(nth=(6, 8), nphi=(8, 12), dealias=((1.5, 1.5),))
    s3 = V.curvi_3d(nphi=(8,), nth=(4, 6), nr=(6, 8), dealias=((1.5, 1.5, 1.5),))
    cyl = V.curvi_cyl().map(dealiased)
    return st.one_of(cart, cart, pol, pol, sph, s3, cyl)


def case():
    var = st.tuples(st.sampled_from([0, 0, 1, 1, 2]), st.integers(0, 3)).map(list)
    step = st.tuples(st.sampled_from(PROG), st.integers(0, 9), st.integers(0, 9), st.integers(0, 23)).map(list)
    return st.builds(lambda sp, v, prog, pick, extra, seed, lay: {'space': sp, 'vars': v, 'prog': prog, 'pick': pick, 'extra': extra, 'seed': seed, 'ncclay': lay},
                     space_st(), st.lists(var, min_size=1, max_size=2), st.lists(step, min_size=1, max_size=6), st.lists(st.integers(0, 9), min_size=1, max_size=2),
                     st.integers(0, 7), st.integers(0, 10**6), st.booleans())


def run(c):
    sp = c['space']
    S = V.build(sp)
    kind = sp['kind']
    r = V.rng(c['seed'])
    cart, cs, naxes = kind == 'cart', S.cs, S.dist.dim
    polk = sp['polar']['kind'] if kind == 'cyl' else kind
    vars, pool = [], []
    tags = [kind, sp['dtype']]
    for i, (rank, sub) in enumerate(c['vars']):
        if cart and S.dim == 3:
            rank = min(rank, 1)
        bases = S.bases
        if cart and S.dim > 1 and sub == 3 and i:
            bases = S.bases[:-1]
        f = S.dist.Field(bases=bases, tensorsig=(cs,) * rank, name=f'v{i}')
        vars.append(f)
        pool.append((f, rank, 'full' if bases is S.bases else 'edge', bases, np.zeros(naxes, int)))
    nccs = []

    def make_ncc(rank, v, operand_bases):
        """Low-mode coefficient field in a supported direction; returns field and its budget per axis."""
        q = [1, 2, 0, 3][v % 4]
        bud = np.zeros(naxes, int)
        if cart:
            sel = [i for i in range(naxes) if ((v // 4) >> i) & 1] or [naxes - 1]
            bases = tuple(S.bases[i] for i in sel)
            for i in sel:
                bud[i] = q
        elif kind in ('disk', 'annulus'):
            bases, sel = (S.bases[0].radial_basis,), [1]
            bud[1] = q + 2 * rank + S.bases[0].k * (kind == 'annulus')
        elif kind == 'sphere':
            bases, sel = (S.bases[0].latitude_basis,), [1]
            bud[1] = q + rank
        elif kind in ('ball', 'shell'):
            bases, sel = (S.bases[0].radial_basis,), [2]
            bud[2] = q + 3 * rank + (1 if kind == 'ball' else S.bases[0].k)
        else:
            bases, sel = (S.bases[1].radial_basis,), [2]
            bud[2] = q + 2 * rank + S.bases[1].k * (polk == 'annulus')
        f = S.dist.Field(bases=bases, tensorsig=(cs,) * rank, name=f'n{len(nccs)}')
        if kind in ('ball', 'shell'):
            radial_ncc(f, rank, S.bases[0].radial_basis, q, r)
        else:
            V.random_coeffs(f, r)
            f.data[~low_mask(f, [q] * naxes)] = 0
        if c['ncclay']:
            f['g']
        nccs.append(f)
        return f, bud

    def push(e, rank, dom, bases, bud):
        if isinstance(e, Number) or rank > 2 + (cart and S.dim == 1):
            return
        pool.append((e, rank, dom, bases, bud))

    used = set()
    for op, i, j, v in c['prog']:
        e, rank, dom, bases, bud = pool[i % len(pool)]
        full = dom == 'full'
        if op in ('grad', 'div', 'lap', 'curl'):
            if not full or bases is not S.bases and not cart:
                continue
            if kind in ('annulus', 'shell', 'cyl'):
                bud = bud.copy()
                bud[-1] += 1 + (op == 'lap')  # level conversions of the other terms cost radial degrees
            if op == 'grad' and rank < 2 and not (cart and S.dim == 3 and rank > 1):
                push(d3.grad(e), rank + 1, dom, bases, bud)
            elif op == 'div' and rank > 0:
                push(d3.div(e), rank - 1, dom, bases, bud)
            elif op == 'lap':
                push(d3.lap(e), rank, dom, bases, bud)
            elif op == 'curl' and rank == 1 and (cart and S.dim == 3 or kind in ('ball', 'shell')):
                push(d3.curl(e), rank, dom, bases, bud)
            else:
                continue
        elif op == 'trace':
            if rank != 2 or kind == 'sphere':
                continue
            push(d3.trace(e), 0, dom, bases, bud)
        elif op == 'transpose':
            if rank != 2:
                continue
            push(d3.transpose(e), 2, dom, bases, bud)
        elif op == 'skew':
            if rank != 1 or not (kind in ('disk', 'annulus', 'sphere') or cart and S.dim == 2):
                continue
            push(d3.skew(e), 1, dom, bases, bud)
        elif op == 'scale':
            push([2.5, -0.5, 3][v % 3] * e, rank, dom, bases, bud)
        elif op in ('ncc', 'nccdot', 'ncccross'):
            if kind == 'cyl' and sp['polar'].get('k', 0):
                pass
            if not full or (bases is not S.bases and not cart):
                continue
            if any(x.name == 'tau' and e.has(x) for x in vars):
                continue  # a lifted mode has no headroom
            if op == 'ncc':
                nr = [0, 0, 1, 2][v % 4]
                if nr + rank > 2:
                    nr = 0
                n, b = make_ncc(nr, v // 4 + j, bases)
                push(n * e if v % 2 else e * n, nr + rank, dom, S.bases if cart else bases, bud + b)
            elif op == 'nccdot':
                if rank < 1:
                    continue
                nr = 1 + (v % 3 == 2)
                if rank + nr - 2 > 2:
                    continue
                n, b = make_ncc(nr, v // 4 + j, bases)
                push(n @ e if v % 2 else e @ n, nr + rank - 2, dom, S.bases if cart else bases, bud + b)
            else:
                if rank != 1 or not (cart and S.dim == 3 or kind in ('ball', 'shell') and sp['dtype'] == 'c'):
                    continue
                n, b = make_ncc(1, v // 4 + j, bases)
                push(d3.cross(n, e) if v % 2 else d3.cross(e, n), 1, dom, S.bases if cart else bases, bud + b)
        elif op in ('add', 'sub'):
            cands = [p for p in pool if p[1] == rank and (p[2] == dom)]
            e2, _, dom2, bases2, bud2 = cands[j % len(cands)]
            if dom == 'edge' and bases2 is not bases:
                continue
            push(e + e2 if op == 'add' else e - 2 * e2, rank, dom, bases, np.maximum(bud, bud2))
        elif op == 'd':
            if not cart or not full:
                continue
            ax = v % S.dim
            push(d3.Differentiate(e, cs.coords[ax]), rank, dom, bases, bud)
        elif op == 'comp':
            continue
        elif op == 'interp':
            if not full:
                continue
            if cart:
                ax = [i for i, a in enumerate(sp['axes']) if a['t'] == 'J']
                if not ax:
                    continue
                ax = ax[v % len(ax)]
                pos = ['left', 'right', 'center', sum(sp['axes'][ax]['bounds']) / 2.3 if sp['axes'][ax]['bounds'][0] >= 0 else sp['axes'][ax]['bounds'][0] * 0.3 + sp['axes'][ax]['bounds'][1] * 0.7][v % 4]
                if not isinstance(pos, str):
                    lo, hi = sp['axes'][ax]['bounds']
                    pos = lo + 0.37 * (hi - lo)
                push(d3.Interpolate(e, cs.coords[ax], pos), rank, 'edge', ('i', ax, pos), bud)
            elif kind in ('disk', 'annulus', 'ball', 'shell', 'cyl'):
                p = sp['polar'] if kind == 'cyl' else sp
                if 'radius' in p:
                    pos = p['radius'] * [1, 0.6][v % 2]
                else:
                    lo, hi = p['radii']
                    pos = [lo, hi, 0.3 * lo + 0.7 * hi][v % 3]
                if kind == 'cyl':
                    continue
                push(d3.Interpolate(e, cs['r'] if hasattr(cs, '__getitem__') else cs.coords[-1], pos), rank, 'edge', ('i', naxes - 1, pos), bud)
        elif op in ('integ', 'ave'):
            if not full:
                continue
            if op == 'ave' and kind in ('ball', 'shell', 'sphere'):
                continue
            if rank and not cart:
                continue
            if kind == 'sphere' or kind == 'cyl':
                continue
            fn = d3.integ if op == 'integ' else d3.ave
            if cart and v % 2:
                ax = (v // 2) % S.dim
                push(fn(e, cs.coords[ax]), rank, 'edge', ('s', ax), bud)
            else:
                push(fn(e), rank, 'edge', ('s', -1), bud)
        elif op == 'lift':
            if kind == 'sphere' or kind == 'cyl' or (cart and sp['axes'][-1]['t'] != 'J'):
                continue
            if cart:
                tb = S.bases[:-1]
                lb = S.bases[-1]
            else:
                b = S.bases[0]
                tb = (b.edge if kind in ('disk',) else b.outer_edge if kind == 'annulus' else b.surface if kind == 'ball' else b.outer_surface,)
                lb = b
            if any(x.name == 'tau' for x in vars):
                continue
            trank = rank
            tau = S.dist.Field(bases=tb, tensorsig=(cs,) * trank, name='tau')
            vars.append(tau)
            k = v % 3
            lb = lb.derivative_basis(k) if k else lb
            push(d3.lift(tau, lb, -1 - (v // 3) % 2), trank, 'full', S.bases, np.zeros(naxes, int))
        elif op == 'radial':
            if rank != 1 or not full or kind not in ('ball', 'shell') or dom != 'full':
                continue
            if not (v % 2):
                R = sp['radius'] if kind == 'ball' else sp['radii'][v // 2 % 2]
                push(d3.radial(d3.Interpolate(e, cs.coords[-1], R)), 0, 'edge', ('rad', R), bud)
            else:
                R = sp['radius'] if kind == 'ball' else sp['radii'][v // 2 % 2]
                push(d3.angular(d3.Interpolate(e, cs.coords[-1], R)), 9, 'edge', ('ang', R), bud) if False else None
        elif op == 'const':
            if not cart or rank:
                continue
            g = S.dist.Field(tensorsig=(cs,), name=f'k{len(nccs)}')
            g['g'] = r.standard_normal(g['g'].shape)
            nccs.append(g)
            push(g * e if v % 2 else e * g, 1, dom, bases, bud)
        else:
            continue
        used.add(op)
    comps = [p for p in pool if not any(p[0] is v for v in vars)]
    if not comps:
        raise Skip('no composite')
    # problem variables must all be listed even when not all appear
    checked = 0
    nontriv = False
    for pk in c['pick']:
        e, rank, dom, bases, bud = comps[(-1 - pk) % len(comps)]
        if isinstance(e, Number) or not e.has(*vars):
            continue
        need = [v for v in vars if e.has(v)]
        problem = d3.LBVP(vars)
        problem.add_equation((e, 0))
        eq = problem.equations[0]
        coup = np.array(eq['matrix_coupling']).copy()
        if not cart and kind not in ('cyl',) and False:
            pass
        for i in range(naxes):
            if (c['extra'] >> i) & 1 and cart:
                coup[i] = True
        if kind in ('disk', 'annulus', 'sphere', 'ball', 'shell', 'cyl'):
            coup[-1] = True
            if kind in ('ball', 'shell') and c['extra'] & 2 and False:
                coup[1] = True
            if kind == 'cyl' and c['extra'] & 1 and sp['z']['t'] == 'J':
                coup[0] = True
        if not coup.any():
            coup[-1] = True
        solver = problem.build_solver(matrix_coupling=tuple(bool(x) for x in coup), ncc_cutoff=1e-13)
        L = eq['L']
        for f in vars:
            V.random_coeffs(f, r)
            f.data[~shift_mask(f, bud)] = 0
            if f.domain.bases:
                f.change_scales(1.5)
                f['g'], f['c']  # project out the redundant m=0 spin parts of real tensors
        want = e.evaluate() if hasattr(e, 'evaluate') else e.copy()
        T2 = L.evaluate()
        g1, g2 = want.copy(), T2.copy()
        for g in (g1, g2):
            g.change_scales(1.5)
        assert_close(np.array(g2['g']), np.array(g1['g']), f'prepared LHS of {e} evaluates differently', rtol=1e-8, scale=max(1e-6, np.abs(g1['g']).max() if g1['g'].size else 1, *[np.abs(f['c']).max() for f in vars if f['c'].size]))
        T2.require_coeff_space()
        for f in vars:
            f.require_coeff_space()
        L.gather_ncc_coeffs()
        valid = eq['valid_modes']
        tot = max(1e-6, np.abs(T2.data).max() if T2.data.size else 0)
        inmax = max(np.abs(f.data).max() for f in vars if f.data.size)
        covered = np.zeros(T2.data.shape, int)
        for p in solver.subproblems:
            mats = L.expression_matrices(subproblem=p, vars=problem.LHS_variables, ncc_cutoff=1e-13, max_ncc_terms=None)
            ok = p.valid_modes(T2, valid).ravel()
            for ss in p.subsystems:
                y = ss.gather([T2]).copy()
                got = np.zeros(len(y), dtype=S.dtype)
                mag = 0
                for f, m in mats.items():
                    require(any(f is x for x in vars), f'matrix for unknown variable {f}')
                    x = ss.gather([f]).copy()
                    m = sparse.csr_matrix(m)
                    require(m.shape == (len(y), len(x)), f'matrix of {e} has shape {m.shape} for {len(y)}x{len(x)} modes')
                    got = got + m @ x
                    mag = max(mag, (abs(m) @ np.abs(x)).max() if m.nnz else 0)
                covered[ss.field_slices(T2)] += 1
                assert_close(got[ok], y[ok], f'matrix of {e} (group {ss.group}, coupling {list(map(bool, coup))})', rtol=1e-9, scale=max(tot, inmax, mag))
                nontriv |= bool(np.abs(y[ok]).max() > 1e-8) if ok.any() else False
        require((covered[np.broadcast_to(valid, covered.shape) & V.valid_mask(T2)] == 1).all(), f'valid output modes of {e} not covered exactly once')
        checked += 1
    if not checked:
        raise Skip('nothing to check')
    return {'nontrivial': nontriv, 'tags': tags + sorted(used)}



# --- whole problems: permutations, validity filters, expanded patterns

def problem_case():
    return st.fixed_dictionaries({'sys': lin.system_st(), 'opts': st.fixed_dictionaries({
        'bc_top': st.booleans(), 'tau_left': st.booleans(), 'interleave_components': st.booleans(), 'store_expanded_matrices': st.booleans()}),
        'extra': st.integers(0, 7), 'ivp': st.booleans(), 'dtm': st.integers(0, 2)})


def run_problem(c):
    s = lin.build(c['sys'])
    r = V.rng(c['sys']['seed'] + 1)
    opts = dict(c['opts'])
    ivp = c['ivp'] and s.form != 'cond'
    if ivp:
        problem = d3.IVP(s.vars)
        scale = [1, 2.5, None][c['dtm']]
        nm = 0
        for e in s.eqs:
            lhs = e['lhs']
            if e['m'] is not None:
                nm += 1
                dt = d3.TimeDerivative(e['m'])
                lhs = lhs + (scale * dt if scale else d3.TimeDerivative(2 * e['m']))
            problem.add_equation((lhs, 0))
        if not nm:
            ivp = False
    if not ivp:
        problem = d3.LBVP(s.vars)
        for e in s.eqs:
            problem.add_equation((e['lhs'], 0), condition=e['cond'] or 'True')
    coup = lin.full_coupling(s, problem.matrix_coupling, c['extra'] if s.form != 'cond' else 0)
    if s.form == 'cond':
        coup = (False,) * s.dist.dim
    kw = dict(ncc_cutoff=1e-13, matrix_coupling=coup, **opts)
    solver = problem.build_solver(d3.RK111, **kw) if ivp else problem.build_solver(**kw)
    names = ['M', 'L'] if ivp else ['L']
    solver.build_matrices(solver.subproblems, names)
    lin.exact(s, r)
    if not (s.form in ('first', 'stokes') and s.spec['space']['kind'] in ('annulus', 'shell')):
        # (products of radial coefficients and lifted top modes alias differently on the grid)
        for f in s.taus:
            V.random_coeffs(f, r)
            lin.consistent(f)
    # reduced reality constraints and nonexistent modes excluded from the random data
    vars = problem.variables
    data = [f['c'].copy() for f in vars]

    def reset():
        for f, x in zip(vars, data):
            f['c'] = x
    outs = {}
    for n in names:
        outs[n] = []
        for eq in problem.equations:
            reset()
            ex = eq[n]
            out = s.dist.Field(bases=eq['domain'].bases, tensorsig=eq['tensorsig'], dtype=eq['dtype'])
            if ex != 0:
                T = ex.evaluate()
                T.require_coeff_space()
                require(T.domain == eq['domain'] and T.tensorsig == eq['tensorsig'], 'prepared matrix expression is not in the equation space')
                out['c'] = T.data
            else:
                out['c']
            outs[n].append(out)
    # evaluated LHS in physical space matches the prepared expressions
    for i, (e, eq) in enumerate(zip(s.eqs, problem.equations)):
        reset()
        a = e['lhs'].evaluate().copy()
        b = outs['L'][i].copy()
        for g in (a, b):
            if g.domain.bases:
                g.change_scales(1.5)
        assert_close(np.array(b['g']), np.array(a['g']), f'equation {i} LHS changed when added to the problem', rtol=1e-8, scale=max(1e-6, np.abs(a['g']).max(), max(np.abs(x).max() for x in data if x.size)))
    reset()
    targets = [f.copy() for f in vars]
    for t in targets:
        t['c'] = 0
    nvar = neqn = 0
    nontriv = False
    covered = [np.zeros(f.data.shape, int) for f in vars]
    for sp in solver.subproblems:
        L = sp.L_min
        x = sp.gather_inputs(tuple(vars)).copy()
        require(L.shape == (sp.shape[0], x.shape[0]) and L.shape[0] == L.shape[1], f'subproblem {sp.group} matrix is {L.shape} for {x.shape[0]} unknowns')
        nvar += x.size
        sp.scatter_inputs(x, tuple(targets))
        for n in names:
            y = sp.gather_outputs(tuple(outs[n])).copy()
            m = getattr(sp, n + '_min')
            got = m @ x
            if not y.size:
                continue
            mag = max(np.abs(y).max(), (abs(m) @ np.abs(x)).max() if m.nnz else 0, 1e-6)
            assert_close(got, y, f'{n} matrix of subproblem {sp.group} ({s.tags}, {opts}, coupling {coup})', rtol=1e-9, scale=mag)
            nontriv |= bool(np.abs(y).max() > 1e-8)
        # matrix of ones through the scatter marks covered modes
        for k, f in enumerate(targets):
            for ss in sp.subsystems:
                covered[k][ss.field_slices(f)] += 1
        if ivp and opts['store_expanded_matrices']:
            require(sp.LHS.shape == L.shape, 'combined matrix shape')
            sp.LHS.data[:] = 0.7 * sp.M_exp.data - 1.3 * sp.L_exp.data
            want = (0.7 * sp.M_min - 1.3 * L).toarray()
            assert_close(sp.LHS.toarray(), want, f'expanded patterns of subproblem {sp.group}', rtol=1e-12, scale=max(1e-6, np.abs(want).max(initial=0)))
            assert_close(sp.M_exp.toarray(), sp.M_min.toarray(), 'M_exp', rtol=1e-12, scale=max(1e-6, abs(sp.M_min).max() if sp.M_min.nnz else 0))
    for k, f in enumerate(vars):
        if not f.data.size:
            continue
        valid = f.valid_modes if hasattr(f, 'valid_modes') else V.valid_mask(f)
        ok = np.broadcast_to(V.valid_mask(f), f.data.shape)
        require((covered[k][ok] == 1).all(), f'modes of {f.name} not in exactly one subproblem')
        # scatter is the inverse of gather on all retained modes; nothing else is touched
        back = targets[k]['c']
        ok = ok & np.broadcast_to(valid, f.data.shape)
        assert_close(back[ok], data[k][ok], f'scatter(gather) of {f.name}', rtol=0, atol=0, scale=1)
    return {'nontrivial': nontriv and nvar > 3, 'tags': s.tags + ['ivp' if ivp else 'lbvp', 'coupled' if all(coup) else 'mixed' if any(coup) else 'separable']}


SUBS = [Sub('expression_matrices', case, run, 1100), Sub('problem_matrices', problem_case, run_problem, 600)]


# --- coefficients and variables using every retained mode

def dense_case():
    cart = st.one_of(V.cart_space(dims=(1,), sizes=(4, 8, 12, 16, 10), dealias=(2.0,), max_jacobi=1), V.cart_space(dims=(2,), sizes=(4, 6, 8), dealias=(2.0,), max_jacobi=2))
    ann = V.curvi_polar(kinds=('annulus',), nphi=(4, 8), nr=(6, 8, 11), dealias=((2, 2),), ks=(0,))
    sph = V.curvi_sphere(nth=(4, 6, 8), nphi=(8,), dealias=((2, 2),))
    shell = V.curvi_3d(kinds=('shell', 'ball'), nphi=(4,), nth=(4,), nr=(6, 8, 11), dealias=((2, 2, 2),), ks=(0,))
    return st.fixed_dictionaries({'space': st.one_of(cart, cart, ann, sph, shell), 'sel': st.integers(1, 3), 'rank': st.sampled_from([0, 0, 1]), 'nrank': st.sampled_from([0, 0, 1]), 'level': st.integers(0, 2),
                                  'first': st.booleans(), 'seed': st.integers(0, 10**6), 'terms': st.one_of(st.none(), st.integers(0, 99)), 'coup': st.integers(0, 3)})


def run_dense(c):
    sp = c['space']
    kind = sp['kind']
    cart = kind == 'cart'
    if cart:
        sp = dict(sp, axes=[dict(a, a=a['a0'], b=a['b0']) if a['t'] == 'J' else a for a in sp['axes']])
    S = V.build(sp)
    r = V.rng(c['seed'])
    cs, naxes = S.cs, S.dist.dim
    rank, nrank = c['rank'], c['nrank']
    if not cart:
        nrank = 0
    if kind in ('sphere', 'shell', 'ball'):
        rank = 0
    u = S.dist.Field(bases=S.bases, tensorsig=(cs,) * rank, name='u')
    if cart:
        sel = [i for i in range(naxes) if (c['sel'] >> i) & 1] or [naxes - 1]
        nb = []
        for i in sel:
            b = S.bases[i]
            if sp['axes'][i]['t'] == 'J' and c['level']:
                b = b.derivative_basis(c['level'])
            nb.append(b)
    elif kind == 'sphere':
        sel, nb = [1], [S.bases[0].latitude_basis]
    else:
        sel, nb = [naxes - 1], [S.bases[0].radial_basis]
    f = S.dist.Field(bases=tuple(nb), tensorsig=(cs,) * nrank, name='f')
    if kind not in ('shell', 'ball'):
        V.random_coeffs(f, r)
    cut = 1e-13
    if c['terms'] is not None and naxes == 1:
        # keep a random number of leading modes
        f.data[..., 1 + c['terms'] % f.data.shape[-1]:] = 0
    if kind == 'shell':
        f.preset_scales(1)
        f['g'] = np.broadcast_to(r.standard_normal(f['g'].shape[-1]), f['g'].shape)
    if kind == 'ball':
        f.preset_scales(1)
        R = S.bases[0].radial_basis.global_grid(S.dist, 1).reshape(1, 1, -1)
        f['g'] = np.polynomial.chebyshev.chebval(2 * R**2 / sp['radius']**2 - 1, r.standard_normal(R.size - 1))
    e = f * u if c['first'] else u * f
    if nrank and rank and c['seed'] % 2:
        e = d3.dot(f, u) if c['first'] else d3.dot(u, f)
    problem = d3.LBVP([u])
    problem.add_equation((e, 0))
    eq = problem.equations[0]
    coup = list(eq['matrix_coupling'])
    if cart:
        for i in range(naxes):
            coup[i] = bool(coup[i]) or bool((c['coup'] >> i) & 1)
    else:
        coup[-1] = True
    if not any(coup):
        coup[-1] = True
    solver = problem.build_solver(matrix_coupling=tuple(bool(x) for x in coup), ncc_cutoff=cut)
    L = eq['L']
    V.random_coeffs(u, r)
    u.change_scales(1.5)
    u['g'], u['c']
    want = e.evaluate().copy()
    want.require_coeff_space()
    u.require_coeff_space()
    L.gather_ncc_coeffs()
    nontriv = False
    tot = max(1e-6, np.abs(want.data).max())
    vm = want.copy()
    vm['c'] = V.valid_mask(want)
    for p in solver.subproblems:
        mats = L.expression_matrices(subproblem=p, vars=problem.LHS_variables, ncc_cutoff=cut, max_ncc_terms=None)
        ok = p.valid_modes(want, eq['valid_modes']).ravel()
        for ss in p.subsystems:
            y = ss.gather([want]).copy()
            ok = ok & (np.abs(ss.gather([vm])) > 0.5)  # (Nyquist modes are zeroed by the transforms)
            got = sparse.csr_matrix(mats[u]) @ ss.gather([u]).copy()
            assert_close(got[ok], y[ok], f'product matrix of {e} with all modes on {kind} (group {ss.group}, coupling {list(map(bool, coup))})', rtol=1e-8, scale=tot)
            nontriv |= bool(ok.any() and np.abs(y[ok]).max() > 1e-6)
    return {'nontrivial': nontriv, 'tags': [kind, f'n{nrank}', f'r{rank}', f'level{c["level"]}']}


SUBS.append(Sub('dense_nccs', dense_case, run_dense, 600))
