"""C04 curvilinear vector calculus vs Cartesian analytic calculus in the local frame."""
import numpy as np
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Violation, Skip, HarnessError
from vlib import spaces as V, ops
from checks.C01 import smooth_fn, max_degree
from checks.C03 import a_grad, a_sum, a_div, a_lap, a_curl, a_trace
import dedalus.public as d3
from dedalus.core.operators import SphereEllProduct


def project(T, R):
    """Tangential projection of every index of an ambient tensor on the sphere |x| = R (t = x/R)."""
    for ax in range(T.ndim):
        G = np.moveaxis(T, ax, 0)
        out = np.empty(G.shape, dtype=object)
        for idx in np.ndindex(*G.shape[1:]):
            xU = a_sum([G[(i,) + idx].xmul(i) for i in range(3)]) * (1 / R**2)
            for j in range(3):
                out[(j,) + idx] = G[(j,) + idx] - xU.xmul(j)
        T = np.moveaxis(out, 0, ax)
    return T


def s_grad(T, R):
    """Covariant derivative of a tangent tensor."""
    return project(a_grad(project(T, R), 3), R)


def contract(T, i=0, j=1):
    T = np.moveaxis(T, (i, j), (0, 1))
    return a_trace(T)


def obj(x):
    if isinstance(x, np.ndarray):
        return x
    a = np.empty((), dtype=object)
    a[()] = x
    return a


OPS = {
    ('flat', 0): ['grad', 'lap', 'gradgrad', 'divgrad', 'convert', 'lap', 'grad'],
    ('flat', 1): ['grad', 'div', 'lap', 'graddiv', 'tracegrad', 'transgrad', 'convert', 'divgrad', 'divtransgrad'],
    ('flat', 2): ['div', 'lap', 'trace', 'transpose', 'convert', 'divtrans', 'divdiv', 'grad'],
    ('sphere', 0): ['grad', 'lap', 'divgrad', 'gradgrad', 'mulcos', 'ellprod', 'skewgrad'],
    ('sphere', 1): ['grad', 'div', 'lap', 'skew', 'transgrad', 'mulcos', 'divskew', 'graddiv'],
    ('sphere', 2): ['div', 'transpose', 'skew', 'mulcos', 'lap', 'divdiv', 'grad'],
}
EXTRA = {  # by kind
    ('disk', 1): ['skew', 'divskew', 'bc_radial', 'bc_azimuthal', 'bc_angular'], ('annulus', 1): ['skew', 'divskew', 'bc_radial', 'bc_azimuthal', 'bc_angular'],
    ('disk', 0): ['skewgrad'], ('annulus', 0): ['skewgrad'],
    ('disk', 2): ['skew'], ('annulus', 2): ['skew'],
    ('ball', 0): ['ellprod3', 'surf_grad', 'surf_lap'], ('shell', 0): ['ellprod3', 'surf_grad', 'surf_lap'],
    ('ball', 1): ['curl', 'curl', 'curlcurl', 'curlgrad', 'bc_radial', 'bc_angular'],
    ('shell', 1): ['curl', 'curl', 'curlcurl', 'curlgrad', 'bc_radial', 'bc_angular'],
    ('ball', 2): ['curl', 'bc_radial', 'bc_angular'], ('shell', 2): ['curl', 'bc_radial', 'bc_angular'],
    ('cyl', 1): ['curl', 'curl', 'curlcurl', 'comp'],
    ('cyl', 2): ['comp'],
}
ORDER = {'grad': 1, 'div': 1, 'lap': 2, 'gradgrad': 2, 'divgrad': 2, 'graddiv': 2, 'tracegrad': 1, 'transgrad': 1, 'divtransgrad': 2, 'divtrans': 1,
         'divdiv': 2, 'curl': 1, 'curlcurl': 2, 'curlgrad': 1, 'skewgrad': 1, 'divskew': 1, 'ellprod': 2, 'surf_grad': 1, 'surf_lap': 2}


def case():
    def item(kind):
        def mk(rank, k, i, j, seed, state, out):
            lst = OPS[('sphere' if kind == 'sphere' else 'flat', rank)] + EXTRA.get((kind, rank), [])
            return {'rank': rank, 'op': lst[k % len(lst)], 'i': i, 'j': j, 'seed': seed, 'state': state, 'out': out}
        return st.builds(mk, st.sampled_from([0, 0, 1, 1, 1, 2]), st.integers(0, 59), st.integers(0, 2), st.integers(0, 2), st.integers(0, 10**6),
                         st.tuples(st.sampled_from([None, 1.0, 1.5, 2.0]), st.one_of(st.none(), st.integers(0, 5))).map(list),
                         st.sampled_from([1.0, 1.5]))
    space = st.one_of(V.curvi_polar(), V.curvi_sphere(nth=(4, 6, 8)), V.curvi_3d(kinds=('ball',)), V.curvi_3d(kinds=('shell',)), V.curvi_cyl())
    return space.flatmap(lambda sp: st.lists(item(sp['kind']), min_size=1, max_size=6).map(lambda its: {'space': sp, 'items': its}))


def run(c):
    S = V.build(c['space'])
    tags, non, skipped = [], False, 0
    for it in c['items']:
        try:
            info = run_item(S, c['space'], it)
        except Skip:
            skipped += 1
            continue
        tags += info['tags']
        non |= bool(info['nontrivial'])
    if skipped == len(c['items']):
        raise Skip('unresolved')
    return {'nontrivial': non, 'tags': tags}


def run_item(S, sp, c):
    kind = sp['kind']
    r = V.rng(c['seed'])
    rank, op = c['rank'], c['op']
    cdim = 2 if kind in ('disk', 'annulus') else 3
    R = sp.get('radius', 1.0)
    ded = 1 if op == 'mulcos' else 0
    if kind == 'cyl' and sp['polar']['kind'] == 'annulus':
        kk = sp['polar']['k']
        ded = {'curl': kk + 1, 'curlcurl': 3 * kk + 3}.get(op, ORDER.get(op, 0))   # curl uses a product, whose levels add; conversions to level k+order cost that many radial degrees in annuli and shells
    if op == 'convert' and (kind in ('annulus', 'shell') or ded == 0 and kind == 'cyl' and sp['polar']['kind'] == 'annulus'):
        ded = 2
    F = V.tensor(rank, cdim, lambda i: smooth_fn(S, r, rank, nterms=3, ded=ded))
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank, name='f')
    f.preset_scales(f.domain.dealias)

    def comps(T, scales):
        return V.grid_values(S, T, T.ndim, scales)
    f['g'] = comps(F, f.scales)
    snaps = ops.snapshot([f])
    ops.disturb(f, c['state'])
    cs = S.cs
    basis = S.bases[-1]
    sph = kind == 'sphere'
    grad = (lambda T: s_grad(T, R)) if sph else (lambda T: a_grad(T, cdim))
    div = (lambda T: contract(s_grad(T, R), 0, 1)) if sph else (lambda T: a_div(T, cdim, 0))
    lap = (lambda T: contract(s_grad(s_grad(T, R), R), 0, 1)) if sph else (lambda T: a_lap(T, cdim))
    skewnum = None
    idx = c['j'] % max(rank, 1)
    explicit = c['i'] == 1
    G = (lambda a: d3.Gradient(a, cs)) if explicit else d3.grad
    L = (lambda a: d3.Laplacian(a, cs)) if explicit else d3.lap
    surface = None
    if op == 'grad':
        e, W = G(f), grad(F)
    elif op == 'div':
        e, W = d3.div(f), div(F)
    elif op == 'lap':
        e, W = L(f), lap(F)
    elif op == 'gradgrad':
        e, W = G(G(f)), grad(grad(F))
    elif op == 'divgrad':
        e, W = d3.div(G(f)), lap(F)
    elif op == 'graddiv':
        e, W = G(d3.div(f)), grad(obj(div(F)))
    elif op == 'tracegrad':
        e, W = d3.trace(G(f)), div(F)
    elif op == 'transgrad':
        e, W = d3.transpose(G(f)), np.swapaxes(grad(F), 0, 1)
    elif op == 'divtransgrad':
        e, W = d3.div(d3.transpose(G(f))), div(np.swapaxes(grad(F), 0, 1))
    elif op == 'divtrans':
        e, W = d3.div(d3.TransposeComponents(f, indices=(1, 0))), div(np.swapaxes(F, 0, 1))
    elif op == 'divdiv':
        e, W = d3.div(d3.div(f)), div(div(F))
    elif op == 'trace':
        e, W = d3.trace(f), a_trace(project(F, R)) if sph else a_trace(F)
    elif op == 'transpose':
        e, W = d3.TransposeComponents(f, indices=[(0, 1), (1, 0), (-2, -1)][c['i']]), np.swapaxes(F, 0, 1)
    elif op == 'curl':
        e, W = d3.curl(f), a_curl(F)
    elif op == 'curlcurl':
        e, W = d3.curl(d3.curl(f)), a_curl(a_curl(F))
    elif op == 'curlgrad':
        e, W = d3.curl(d3.grad(d3.div(f))), np.array([F[0] * 0] * 3, dtype=object)
    elif op == 'convert':
        b = basis if kind != 'cyl' or c['i'] < 2 else S.bases[0]
        if not hasattr(b, 'derivative_basis'):
            b = basis
        e, W = d3.Convert(f, b.derivative_basis(1 + c['j'] % 2)), F
    elif op == 'mulcos':
        e, W = d3.MulCosine(f), np.vectorize(lambda q: q.xmul(2) * (1 / R), otypes=[object])(project(F, R))
        if rank == 0:
            W = obj(F[()].xmul(2) * (1 / R)) if isinstance(F, np.ndarray) else obj(F.xmul(2) * (1 / R))
    elif op == 'ellprod':
        e, W = SphereEllProduct(f, cs, lambda ell, rad: -ell * (ell + 1) / rad**2), lap(F)
    elif op == 'ellprod3':
        D = lambda q: a_sum([q.diff(i).xmul(i) for i in range(3)])
        f0 = F[()]
        r2lap = f0.lap()
        r2lap = a_sum([r2lap.xmul(i).xmul(i) for i in range(3)])
        e, W = d3.SphericalEllProduct(f, cs, lambda ell: ell * (ell + 1)), obj(D(D(f0)) + D(f0) - r2lap)
    elif op in ('skew', 'skewgrad', 'divskew'):
        if op == 'skew':
            e, base, W = d3.Skew(f, index=idx), F, None
            want_fn = lambda scales: rot(comps(F, scales), idx)
        elif op == 'skewgrad':
            e = d3.skew(G(f))
            want_fn = lambda scales: rot(comps(grad(F), scales), 0)
        else:   # div skew u = -(curl_z u)
            e = d3.div(d3.skew(f))
            g2 = lambda scales: comps(grad(F), scales)
            want_fn = lambda scales: -(g2(scales)[1, 0] - g2(scales)[0, 1]) if False else dskew(g2(scales))
        W = None
    elif op == 'comp':
        from dedalus.core.operators import CartCompBase
        sub = [S.cz, S.cp][c['i'] % 2]
        e = CartCompBase(f, idx, sub)
        W = None
        sl = slice(0, 1) if sub is S.cz else slice(1, 3)
        want_fn = lambda scales: np.take(comps(F, scales), range(*sl.indices(3)), axis=idx)
    elif op.startswith('bc_') or op.startswith('surf_'):
        rr = R if 'radius' in sp else sp['radii'][c['i'] % 2]
        fs = f(r=rr)
        if kind in ('ball', 'shell'):
            sb = fs.domain.get_basis(cs)
        if op == 'bc_radial':
            e = d3.radial(fs, index=idx) if rank > 1 or c['j'] else d3.radial(fs)
            pick = -1
        elif op == 'bc_angular':
            e = d3.angular(fs, index=idx) if rank > 1 else d3.angular(fs)
            pick = slice(0, 2) if kind in ('ball', 'shell') else 0
        elif op == 'bc_azimuthal':
            e = d3.azimuthal(fs, index=idx)
            pick = 0
        else:
            pick = None
            e = d3.Gradient(fs, cs.S2coordsys) if op == 'surf_grad' else d3.Laplacian(fs, cs.S2coordsys)
        W = None

        def want_fn(scales):
            g = list(S.dist.local_grids(*S.bases, scales=scales))
            g[-1] = np.full((1,) * len(g), float(rr))
            X = V.cart_points(S, g)
            E = V.frame(S, g)
            if pick is None:
                gr = V.to_components(V.eval_tensor(a_grad(F, 3), 1, X, S.real), 1, E)[:2]
                if op == 'surf_grad':
                    return gr
                D = lambda q: a_sum([q.diff(i).xmul(i) for i in range(3)])
                f0 = F[()]
                r2lap = f0.lap()
                r2lap = a_sum([r2lap.xmul(i).xmul(i) for i in range(3)])
                return V.eval_tensor(obj((r2lap - D(D(f0)) - D(f0)) * (1 / rr**2)), 0, X, S.real)
            v = V.to_components(V.eval_tensor(F, rank, X, S.real), rank, E)
            if isinstance(pick, slice):
                return np.take(v, [0, 1], axis=idx)
            return np.take(v, pick, axis=idx)
    else:
        raise HarnessError(op)
    if W is not None:
        W = obj(W)
        want_fn = lambda scales: comps(W, scales)
    amp = np.abs(comps(F, (1.5,) * S.dist.dim)).max() + 1e-300
    spp = sp['polar'] if kind == 'cyl' else sp
    length = min([1.0] + ([spp['radius']] if 'radius' in spp else [spp['radii'][0], spp['radii'][1] - spp['radii'][0]]))
    n = max(spp['shape'])
    if kind == 'cyl':
        length = min(length, (sp['z']['bounds'][1] - sp['z']['bounds'][0]) / 2)
        n = max(n, sp['z']['n'])
    geo = (n / length)**ORDER.get(op, 0)
    for attempt in range(2):
        out = ops.evaluated(e)
        sc = c['out']
        want = want_fn((sc,) * S.dist.dim)
        if isinstance(out, Number):
            require(np.abs(want).max() <= 1e-8 * amp * geo, f'{kind} {op}: result is the number {out}, expected a non-zero field')
            return {'nontrivial': False, 'tags': [kind + ':' + op]}
        got = ops.grid_at(out, sc)
        assert_close(got, want, f"{kind} {op} rank {rank}", rtol=1e-9, atol=0, scale=max(np.abs(want).max(), amp * geo))
    ops.unchanged([f], snaps, f'{kind} {op}')
    return {'nontrivial': np.abs(want).max() > 1e-9, 'tags': [f'{kind}:{op}', f'rank{rank}', sp['dtype'] if kind != 'cyl' else spp['dtype']]}


def rot(v, idx):
    w = np.moveaxis(v, idx, 0)
    return np.moveaxis(np.array([w[1], -w[0]]), 0, idx)


def dskew(g):
    """div(skew u) from components of grad u: skew u = (u_r, -u_phi) in (phi, r) order."""
    return g[0, 1] - g[1, 0]


SUBS = [Sub("curvilinear_operators", case, run, 700)]
