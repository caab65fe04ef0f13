"""C05 interpolation, integration, averaging and lifting vs analytic functionals."""
import itertools
import numpy as np
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Violation, Skip, HarnessError
from vlib import spaces as V, ops
from checks.C01 import smooth_fn, jac_modes
import dedalus.public as d3


# ------------------------------------------------------------------ Cartesian
def act_fn(F, i, act, ax, pos=None):
    """Apply a 1D functional along axis i of an Fn."""
    lo, hi = ax['bounds']
    c, s = F.c[i], F.s[i]
    t = {}
    for k, v in F.terms.items():
        f = k[i]
        if act == 'interp':
            x = (pos - c) / s
            w = x**f[1] if f[0] == 'p' else np.exp(1j * f[1] * x)
        else:
            a, b = (lo - c) / s, (hi - c) / s
            if f[0] == 'p':
                w = (b**(f[1] + 1) - a**(f[1] + 1)) / (f[1] + 1)
            elif f[1] == 0:
                w = b - a
            else:
                w = (np.exp(1j * f[1] * b) - np.exp(1j * f[1] * a)) / (1j * f[1])
            w = w * s
            if act == 'ave':
                w = w / (hi - lo)
        key = k[:i] + (('p', 0),) + k[i+1:]
        t[key] = t.get(key, 0) + v * w
    return F.like(t)


def cart_case():
    step = st.tuples(st.sampled_from(['interp', 'interp', 'integ', 'ave']), st.sampled_from(['left', 'right', 'center', 0.0, 1.0, 0.5, 0.137, 0.83, 0.999]), st.integers(0, 3))

    def mk(sp, rank, perm, steps, n, seed, state, style, out):
        return {'space': sp, 'rank': rank if len(sp['axes']) < 3 else min(rank, 1), 'perm': [p for p in perm if p < len(sp['axes'])][:n], 'steps': [list(s) for s in steps],
                'seed': seed, 'state': state, 'style': style, 'out': out}
    return st.builds(mk, V.cart_space(dims=(1, 2, 2, 3), sizes=(8, 6, 5, 12, 4, 16) if False else (8, 6, 12, 4, 16), sizes3=(4, 6, 8)), st.integers(0, 2), st.permutations([0, 1, 2]),
                     st.lists(step, min_size=3, max_size=3), st.integers(1, 3), st.integers(0, 10**6),
                     st.tuples(st.sampled_from([None, 1.0, 1.5, 2.0]), st.one_of(st.none(), st.integers(0, 5))).map(list), st.integers(0, 5), st.sampled_from([1.0, 1.5, 2.0]))


def run_cart(c):
    sp = c['space']
    S = V.build(sp)
    r = V.rng(c['seed'])
    rank = c['rank']
    F = V.tensor(rank, S.dim, lambda i: smooth_fn(S, r, rank))
    f = V.field_from(S, F, rank, name='f')
    amp = np.abs(np.array(f['g'])).max() + 1e-300
    snaps = ops.snapshot([f])
    ops.disturb(f, c['state'])
    apply = lambda fn: np.vectorize(fn, otypes=[object])(np.asarray(F, dtype=object)) if rank else V_obj(fn(F[()]))
    e = f
    style = c['style']
    tags = ['rank%d' % rank, 'dim%d' % S.dim]
    names = V.NAMES
    vol = 1.0
    whole = None
    if style in (4, 5):   # all coordinates at once
        act = 'integ' if c['steps'][0][0] in ('interp', 'integ') else 'ave'
        op = {'integ': d3.Integrate, 'ave': d3.Average}[act]
        perm = [p for p in c['perm']]
        if style == 4:
            arg = [None, S.cs, tuple(names[:S.dim]), list(S.cs.coords)][c['steps'][1][2]]
            e = op(f) if arg is None else op(f, arg)
            perm = list(range(S.dim))
        else:
            arg = [names[p] if c['steps'][0][2] % 2 else S.cs.coords[p] for p in perm]
            e = op(f, tuple(arg) if c['steps'][1][2] % 2 else list(arg)) if len(arg) > 1 or c['steps'][2][2] % 2 else op(f, arg[0])
        for p in perm:
            ax = sp['axes'][p]
            apply_to(F, lambda q: act_fn(q, p, act, ax))
            vol *= (ax['bounds'][1] - ax['bounds'][0]) if act == 'integ' else 1
        tags.append('multi:' + act)
    else:
        for p, (act, pos, v) in zip(c['perm'], c['steps']):
            ax = sp['axes'][p]
            lo, hi = ax['bounds']
            coord = S.cs.coords[p]
            if act == 'interp':
                num = {'left': lo, 'right': hi, 'center': (lo + hi) / 2}.get(pos)
                if num is None:
                    num = lo + pos * (hi - lo)
                    pos = num
                if v == 0:
                    e = d3.Interpolate(e, coord, pos)
                elif v == 1:
                    e = d3.interp(e, names[p], pos) if hasattr(d3, 'interp') else d3.Interpolate(e, names[p], pos)
                elif v == 2:
                    e = e(**{names[p]: pos})
                else:
                    e = e(**{names[p]: pos}) if isinstance(pos, str) else d3.Interpolate(e, coord, float(pos))
                apply_to(F, lambda q: act_fn(q, p, act, ax, num))
            else:
                op = {'integ': d3.Integrate, 'ave': d3.Average}[act]
                if v == 3:
                    op = {'integ': d3.integ, 'ave': d3.ave}[act]
                e = op(e, coord if v % 2 else names[p])
                apply_to(F, lambda q: act_fn(q, p, act, ax))
                vol *= (hi - lo) if act == 'integ' else 1
            tags.append(ax['t'] + ':' + act)
    wscale = max(1.0, vol)
    for _ in range(2):
        out = ops.evaluated(e)
        if isinstance(out, Number):
            require(False, f'result is the number {out}')
        got = ops.grid_at(out, c['out'])
        g = list(S.dist.local_grids(*S.bases, scales=c['out']))
        red = range(S.dim) if style == 4 else c['perm']
        for p in red:
            g[p] = g[p].reshape(-1)[:1].reshape((1,) * S.dim)
        W = V.eval_tensor(F, rank, g, S.real)
        require(got.shape == W.shape, f'result has grid shape {got.shape}, expected {W.shape}')
        assert_close(got, W, f'functionals {c["steps"]} along {list(red)} style {style}', rtol=1e-9, atol=0, scale=max(np.abs(W).max(), amp * wscale))
    ops.unchanged([f], snaps, 'functional')
    return {'nontrivial': np.abs(W).max() > 1e-9, 'tags': tags}


def V_obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def apply_to(F, fn):
    for idx in np.ndindex(*F.shape):
        F[idx] = fn(F[idx])


# ------------------------------------------------------------------ Jacobi lift
def lift_case():
    return st.builds(lambda sp, axis, n, rank, seed, dk, style: {'space': sp, 'axis': axis, 'n': n, 'rank': rank, 'seed': seed, 'dk': dk, 'style': style},
                     V.cart_space(dims=(1, 2, 3), sizes=(6, 8, 12), sizes3=(4, 6)), st.integers(0, 2), st.integers(1, 12), st.integers(0, 1), st.integers(0, 10**6),
                     st.integers(0, 2), st.integers(0, 2))


def run_lift(c):
    sp = c['space']
    jac = [i for i, a in enumerate(sp['axes']) if a['t'] == 'J']
    if not jac:
        raise Skip('no Jacobi axis')
    S = V.build(sp)
    i = jac[c['axis'] % len(jac)]
    ax = sp['axes'][i]
    rank = c['rank']
    r = V.rng(c['seed'])
    rest = tuple(b for j, b in enumerate(S.bases) if j != i)
    tau = S.dist.Field(bases=rest, tensorsig=(S.cs,) * rank, name='tau')
    V.random_coeffs(tau, r)
    n = -(1 + (c['n'] - 1) % ax['n'])
    dk = c['dk']
    ob = S.bases[i].derivative_basis(dk)
    d = np.array(tau['c'])
    e = d3.Lift(tau, ob, n)
    if c['style'] == 1:
        e = d3.Lift(2 * tau, ob, n)
        d = 2 * d
    out = ops.evaluated(e)
    out.change_scales(1)
    got = np.array(out['c'])
    want = np.zeros_like(got)
    ix = [slice(None)] * (rank + S.dim)
    ix[rank + i] = slice(ax['n'] + n, ax['n'] + n + 1)
    ok = want[tuple(ix)].shape == d.shape
    require(ok, f'Lift: coefficient shape {got.shape} for tau {d.shape}')
    # lifted coefficients refer to the named output basis: compare as functions on the grid
    P = S.dist.Field(bases=S.bases[:i] + (ob,) + S.bases[i+1:], tensorsig=(S.cs,) * rank)
    want[tuple(ix)] = d
    P['c'] = want
    x = np.ravel(S.dist.local_grids(*S.bases, scales=2)[i])
    lo, hi = ax['bounds']
    a, b = ax['a'] + dk, ax['b'] + dk
    poly = jac_modes(ax['n'], a, b, 2 * (x - lo) / (hi - lo) - 1)[ax['n'] + n]
    tau.change_scales(2)
    m = np.array(tau['g']) * (2 if c['style'] == 1 else 1)
    W = m * poly.reshape((1,) * (rank + i) + (-1,) + (1,) * (S.dim - 1 - i))
    out.change_scales(2)
    tolscale = max(np.abs(W).max(), np.abs(m).max())
    assert_close(np.array(out['g']), W, f'Lift onto mode {n} of Jacobi({a},{b}) size {ax["n"]}', rtol=1e-9, atol=0, scale=tolscale)
    P.change_scales(2)
    assert_close(np.array(P['g']), W, 'lifted mode built from coefficients', rtol=1e-9, atol=0, scale=tolscale)
    require(out.domain.get_basis(S.cs.coords[i]).a == a and out.domain.get_basis(S.cs.coords[i]).b == b, 'Lift: not expressed in the requested basis')
    out.change_scales(1)
    assert_close(np.array(out['c']), want, f'Lift coefficients onto mode {n}', rtol=1e-8, atol=0, scale=max(np.abs(want).max(), 1e-3))
    return {'nontrivial': np.abs(W).max() > 1e-6, 'tags': ['dk%d' % dk, 'rank%d' % rank, 'dim%d' % S.dim]}


# ------------------------------------------------------------------ curvilinear
CHAINS = {'disk': ['phi', 'r'], 'annulus': ['phi', 'r'], 'sphere': ['phi', 'theta'], 'ball': ['phi', 'theta', 'r'], 'shell': ['phi', 'theta', 'r'], 'cyl': ['z', 'phi', 'r']}
KINDOPS = {
    'disk': ['interp', 'interp', 'integ', 'ave', 'azave', 'ring'], 'annulus': ['interp', 'interp', 'integ', 'ave', 'azave', 'ring'],
    'sphere': ['interp', 'interp', 'ave', 'azave'],
    'ball': ['interp', 'interp', 'integ', 'azave', 'sphave', 'surfave'], 'shell': ['interp', 'interp', 'integ', 'azave', 'sphave', 'surfave'],
    'cyl': ['interp', 'interp', 'integ', 'ave', 'integz', 'integp', 'azave', 'integ_interp'],
}


def curvi_case():
    def item(kind):
        def mk(rank, k, perm, n, seed, state, pos, v):
            return {'rank': rank, 'op': KINDOPS[kind][k % len(KINDOPS[kind])], 'perm': perm, 'n': n, 'seed': seed, 'state': state, 'pos': pos, 'v': v}
        return st.builds(mk, st.sampled_from([0, 0, 1, 1, 2]), st.integers(0, 23), st.permutations([0, 1, 2]), st.integers(1, 3), st.integers(0, 10**6),
                         st.tuples(st.sampled_from([None, 1.0, 1.5]), st.one_of(st.none(), st.integers(0, 5))).map(list),
                         st.lists(st.sampled_from([0.0, 1.0, 0.31, 0.77, 0.5]), min_size=3, max_size=3), st.integers(0, 3))
    space = st.one_of(V.curvi_polar(), V.curvi_sphere(nth=(4, 6, 8)), V.curvi_3d(kinds=('ball',)), V.curvi_3d(kinds=('shell',)), V.curvi_cyl())
    return space.flatmap(lambda sp: st.lists(item(sp['kind']), min_size=1, max_size=8).map(lambda its: {'space': sp, 'items': its}))


def quad(S, n=24):
    """Independent quadrature grid and weights (geometric volume element) of the space: Gauss-Legendre / uniform."""
    sp = S.spec
    kind = sp['kind']
    gl, wl = np.polynomial.legendre.leggauss(n)
    pol = sp['polar'] if kind == 'cyl' else sp
    phi = 2 * np.pi * np.arange(40) / 40
    wphi = np.full(40, 2 * np.pi / 40)
    if 'radii' in pol:
        lo, hi = pol['radii']
    else:
        lo, hi = 0.0, pol['radius']
    rr = lo + (hi - lo) * (gl + 1) / 2
    wr = wl * (hi - lo) / 2
    th = np.arccos(gl)
    if kind in ('disk', 'annulus'):
        return [phi, rr], [wphi, wr * rr]
    if kind == 'sphere':
        return [phi, th], [wphi, wl * sp['radius']**2]
    if kind in ('ball', 'shell'):
        return [phi, th, rr], [wphi, wl, wr * rr**2]
    z = sp['z']
    a, b = z['bounds']
    if z['t'] == 'F':
        zz = a + (b - a) * np.arange(40) / 40
        wz = np.full(40, (b - a) / 40)
    else:
        zz = a + (b - a) * (gl + 1) / 2
        wz = wl * (b - a) / 2
    return [zz, phi, rr], [wz, wphi, wr * rr]


def mesh(axes):
    n = len(axes)
    return [np.asarray(a, dtype=float).reshape((1,) * i + (-1,) + (1,) * (n - 1 - i)) for i, a in enumerate(axes)]


def comps_at(S, F, rank, g):
    return V.to_components(V.eval_tensor(F, rank, V.cart_points(S, g), S.real), rank, V.frame(S, g))


def run_curvi(c):
    S = V.build(c['space'])
    tags, non, skipped = [], False, 0
    for it in c['items']:
        try:
            info = curvi_item(S, c['space'], it)
        except Skip as e:
            skipped += 1
            continue
        tags += info['tags']
        non |= bool(info['nontrivial'])
    if skipped == len(c['items']):
        raise Skip('unresolved')
    return {'nontrivial': non, 'tags': tags}


def wsum(v, ws, axes, lead=0):
    for ax in sorted(axes, reverse=True):
        v = np.moveaxis(np.tensordot(v, ws[ax], axes=(lead + ax, 0))[..., None], -1, lead + ax)
    return v


def curvi_item(S, sp, c):
    kind = sp['kind']
    pol = sp['polar'] if kind == 'cyl' else sp
    r = V.rng(c['seed'])
    op, rank = c['op'], c['rank']
    if op not in ('interp', 'azave'):
        rank = 0
    cdim = 2 if kind in ('disk', 'annulus') else 3
    F = V.tensor(rank, cdim, lambda i: smooth_fn(S, r, rank, nterms=3))
    f = V.field_from(S, F, rank, name='f')
    amp = np.abs(np.array(f['g'])).max() + 1e-300
    snaps = ops.snapshot([f])
    ops.disturb(f, c['state'])
    names = CHAINS[kind]
    ded = f.domain.dealias
    g0 = mesh([np.ravel(x) for x in S.dist.local_grids(*S.bases, scales=ded)])
    axes, ws = quad(S)
    q = mesh(axes)
    cs = S.cs
    v = c['v']
    e = f
    where = ''
    if op in ('interp', 'integ_interp'):
        perm = [names[i] for i in c['perm'] if i < len(names)][:c['n']]
        if op == 'integ_interp':
            perm = ['z'] if v % 2 else ['r']
        pos = {}
        lo, hi = pol['radii'] if 'radii' in pol else (0.0, pol.get('radius', 1.0))
        for p in perm:
            t = c['pos'][names.index(p)]
            if p == 'r':
                pos[p] = lo + (hi - lo) * t
                if lo == 0 and t == 0:
                    pos[p] = 0.4 * hi   # components are not defined on the axis
            elif p == 'theta':
                pos[p] = [0.3, 3.0, 0.9, 1.7, np.pi / 2][[0.0, 1.0, 0.31, 0.77, 0.5].index(t)]
            elif p == 'phi':
                pos[p] = 2 * np.pi * t
            else:
                a, b = sp['z']['bounds']
                pos[p] = a + (b - a) * t
        if kind == 'cyl' and 'phi' in perm and 'z' in perm[perm.index('phi'):] and 'r' in perm[perm.index('z'):] and not c.get('known'):
            raise Skip('known finding: lock lost')
        # interpolations in azimuth/colatitude give grid-locked fields; later reductions needing coefficients are refused
        if v % 2 and op == 'interp' and len(perm) > 1:
            e = f(**{p: pos[p] for p in perm})
        else:
            for p in perm:
                coord = cs[p] if v == 2 and kind != 'cyl' else p
                e = d3.Interpolate(e, coord, pos[p]) if v == 2 else e(**{p: pos[p]})
        g = list(g0)
        for p in perm:
            g[names.index(p)] = np.full((1,) * len(g), pos[p])
        where = f'{perm} at {pos}'
        if op == 'interp':
            want = lambda: comps_at(S, F, rank, g)
        else:
            # remaining integral over what is left: the other factor of the cylinder
            if perm == ['z']:
                e = d3.Integrate(e, S.cp)
                q[0] = g[0]
                ws = [np.ones(1)] + ws[1:]
            else:
                e = d3.Integrate(e, S.cz) if v < 2 else d3.Average(e, 'z')
                if v >= 2:
                    ws[0] = ws[0] / ws[0].sum()
                q = [q[0], g0[1], g[2]]
                ws = [ws[0]]
            want = lambda: wsum(comps_at(S, F, 0, q), ws if perm == ['z'] else [ws[0]], [0, 1, 2] if perm == ['z'] else [0])
    elif op in ('integ', 'ave'):
        O = d3.Integrate if op == 'integ' else d3.Average
        if kind == 'cyl':
            arg = [None, cs, (S.cz, S.cp), (S.cp, 'z')][v]
        else:
            arg = [None, cs, (cs,), [cs]][v]
        e = O(f) if arg is None else O(f, arg)
        tot = 1.0 if op == 'integ' else 1 / np.prod([w.sum() for w in ws])
        want = lambda: wsum(comps_at(S, F, 0, q), ws, range(len(ws))) * tot
    elif op in ('integz', 'integp'):
        if op == 'integz':
            e = d3.Integrate(f, S.cz) if v < 2 else d3.Average(f, 'z')
            if v >= 2:
                ws[0] = ws[0] / ws[0].sum()
            want = lambda: wsum(comps_at(S, F, 0, [q[0]] + g0[1:]), ws, [0])
        else:
            e = d3.Integrate(f, S.cp) if v < 2 else d3.Average(f, S.cp)
            tot = 1.0 if v < 2 else 1 / (ws[1].sum() * ws[2].sum())
            want = lambda: wsum(comps_at(S, F, 0, [g0[0]] + q[1:]), ws, [1, 2]) * tot
    elif op == 'azave':
        ca = S.cp['phi'] if kind == 'cyl' else cs['phi']
        e = d3.Average(f, ca) if v % 2 else d3.Average(f, 'phi')
        i = names.index('phi')
        w1 = list(ws)
        w1[i] = ws[i] / ws[i].sum()
        gg = list(g0)
        gg[i] = q[i]
        want = lambda: wsum(comps_at(S, F, rank, gg), w1, [i], lead=rank)
    elif op == 'ring':
        lo, hi = pol['radii'] if 'radii' in pol else (0.0, pol['radius'])
        R = lo + (hi - lo) * max(c['pos'][0], 0.2)
        e = d3.Average(f(r=R), 'phi')
        want = lambda: comps_at(S, F, 0, [q[0], np.full((1, 1), R)]).mean(axis=0, keepdims=True)
    elif op == 'sphave':
        e = d3.Average(f, cs.S2coordsys)
        want = lambda: wsum(comps_at(S, F, 0, [q[0], q[1], g0[2]]), [ws[0] / (4 * np.pi), ws[1]], [0, 1])
    elif op == 'surfave':
        lo, hi = pol['radii'] if 'radii' in pol else (0.0, pol['radius'])
        R = lo + (hi - lo) * max(c['pos'][0], 0.2)
        e = d3.Average(f(r=R), cs.S2coordsys)
        want = lambda: wsum(comps_at(S, F, 0, [q[0], q[1], np.full((1, 1, 1), R)]), [ws[0] / (4 * np.pi), ws[1]], [0, 1])
    else:
        raise HarnessError(op)
    W = want()
    vol = np.prod([w.sum() for w in ws]) if 'integ' in op else 1.0
    sc = max(np.abs(W).max(), amp * max(1.0, vol))
    try:
        for _ in range(2):
            out = ops.evaluated(e)
            got = np.array(out['g'])
            if got.shape[rank:] != W.shape[rank:]:
                out.change_scales(ded)
                got = np.array(out['g'])
            # averaged axes hold one representative or a constant axis
            if got.shape != W.shape:
                W2 = np.broadcast_to(W, got.shape)
            else:
                W2 = W
            assert_close(got, W2, f'{kind} {op} rank {rank} {where}', rtol=1e-9, atol=0, scale=sc)
    except ValueError as ex:
        if op == 'interp' and 'locked' in str(ex) and ('phi' in perm or 'theta' in perm):
            ops.unchanged([f], snaps, f'{kind} {op}')
            return {'nontrivial': False, 'tags': [f'{kind}:refused-locked']}
        raise
    ops.unchanged([f], snaps, f'{kind} {op} {where}')
    return {'nontrivial': np.abs(W).max() > 1e-9, 'tags': [f'{kind}:{op}', f'rank{rank}'] + ([f'{kind}:' + '>'.join(perm)] if op == 'interp' else [])}


SUBS = [Sub('cartesian_functionals', cart_case, run_cart, 6000),
        Sub('jacobi_lift', lift_case, run_lift, 1500),
        Sub('curvilinear_functionals', curvi_case, run_curvi, 900)]
