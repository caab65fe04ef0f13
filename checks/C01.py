"""C01 spectral transforms vs direct evaluation of the documented mode expansions."""
import numpy as np
import scipy.special as sp
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Violation, Skip
from vlib import spaces as V
import dedalus.public as d3

SCALES = [1.0, 1.5, 2.0, 0.5, 0.75, 1.25, 3.0]


# ------------------------------------------------ independent 1D mode functions
def jac_norm(n, a, b):
    """L2 norm^2 of P_n^(a,b) with weight (1-x)^a (1+x)^b."""
    if n == 0:
        return 2**(a+b+1) * sp.beta(a+1, b+1)
    return np.exp((a+b+1)*np.log(2) - np.log(2*n+a+b+1) + sp.gammaln(n+a+1) + sp.gammaln(n+b+1) - sp.gammaln(n+1) - sp.gammaln(n+a+b+1))


def jac_modes(M, a, b, x):
    """Orthonormal Jacobi polynomials, shape (M, x.size)."""
    return np.array([sp.eval_jacobi(n, a, b, x) / np.sqrt(jac_norm(n, a, b)) for n in range(M)])


def jac_grid(N, a, b):
    if N == 1:
        return np.array([(b - a) / (a + b + 2)])
    return sp.roots_jacobi(N, a, b)[0]


def axis_matrices(ax, real, scale):
    """(grid in problem coords, backward (N,M), forward (M,N)) from definitions."""
    M = ax['n']
    N = int(np.ceil(scale * M))
    lo, hi = ax['bounds']
    if ax['t'] == 'F':
        th = 2 * np.pi * np.arange(N) / N
        x = lo + (hi - lo) * np.arange(N) / N
        K = min((N - 1) // 2, (M - 1) // 2)
        if real:
            B = np.zeros((N, M)); F = np.zeros((M, N))
            for k in range(K + 1):
                B[:, 2*k] = np.cos(k * th)
                F[2*k] = np.cos(k * th) * (1 if k == 0 else 2) / N
                if k > 0:
                    B[:, 2*k+1] = -np.sin(k * th)
                    F[2*k+1] = -np.sin(k * th) * 2 / N
        else:
            B = np.zeros((N, M), complex); F = np.zeros((M, N), complex)
            for k in range(-K, K + 1):
                B[:, k % M] = np.exp(1j * k * th)
                F[k % M] = np.exp(-1j * k * th) / N
        return x, B, F
    a0, b0, a, b = ax['a0'], ax['b0'], ax['a'], ax['b']
    xi = jac_grid(N, a0, b0)
    x = lo + (hi - lo) * (xi + 1) / 2
    B = jac_modes(M, a, b, xi).T.copy()
    B[:, N:] = 0
    # forward: interpolating polynomial of degree < N, truncated in the (a0, b0) family, re-expanded in (a, b)
    V0 = jac_modes(N, a0, b0, xi).T                    # (N, N)
    C0 = np.linalg.inv(V0)                             # grid -> base coefficients
    K = min(N, M)
    C0 = C0[:K]
    y = jac_grid(K, a0, b0)
    conv = np.linalg.solve(jac_modes(K, a, b, y).T, jac_modes(K, a0, b0, y).T)
    F = np.zeros((M, N))
    F[:K] = conv @ C0
    return x, B, F


def apply(mats, data, rank):
    for i, A in enumerate(mats):
        data = np.moveaxis(np.tensordot(A, data, axes=(1, rank + i)), 0, rank + i)
    return data


def with_lib(ax, which, real):
    ax = dict(ax)
    if ax['t'] == 'F':
        opts = [None, 'matrix', 'scipy', 'fftw'] + (['fftpack', 'fftw_hc'] if real else [])
        ax['lib'] = opts[which % len(opts)]
    elif ax['a0'] == ax['b0'] == -0.5:
        ax['lib'] = [None, 'matrix', 'scipy_dct', 'fftw_dct'][which % 4]
    else:
        ax['lib'] = [None, 'matrix'][which % 2]
    return ax


def cart_case(direction):
    def mk(sp_, libs, scales, rank, seed, vs):
        axes = [with_lib(a, l, sp_['dtype'] == 'r') for a, l in zip(sp_['axes'], libs)]
        for a in axes:
            a['d'] = 1.0
        return {'space': dict(sp_, axes=axes), 'scales': scales[:len(axes)], 'rank': rank if len(axes) < 3 else min(rank, 1), 'seed': seed, 'spike': vs}
    return st.builds(mk, V.cart_space(dims=(1, 1, 2, 3), sizes=(8, 6, 12, 16, 4, 10, 2)), st.lists(st.integers(0, 5), min_size=3, max_size=3),
                     st.lists(st.sampled_from(SCALES), min_size=3, max_size=3), st.integers(0, 2), st.integers(0, 10**6), st.integers(0, 5))


def fix_sizes(space):
    # very small Jacobi/Fourier sizes are allowed; Fourier sizes must be even
    return space


def run_cart_backward(c):
    S = V.build(c['space'])
    rank, r = c['rank'], V.rng(c['seed'])
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank)
    f.preset_scales(tuple(c['scales']))
    f.preset_layout('c')
    data = r.standard_normal(f.data.shape)
    if not S.real:
        data = data + 1j * r.standard_normal(data.shape)
    if c['spike'] == 0:   # a single mode
        k = r.randint(data.size)
        d = np.zeros_like(data); d.flat[k] = data.flat[k]; data = d
    mats = [axis_matrices(a, S.real, s) for a, s in zip(c['space']['axes'], c['scales'])]
    f['c'] = data
    want = apply([m[1] for m in mats], data, rank)
    got = np.array(f['g'])
    assert_close(got, want, f"backward transform {c['space']} scales {c['scales']} rank {rank}", rtol=1e-10)
    # grids handed to the user are the points the values live on
    g = S.dist.local_grids(*S.bases, scales=tuple(c['scales']))
    for i, (gi, m) in enumerate(zip(g, mats)):
        assert_close(np.ravel(gi), m[0], f'grid of axis {i}', rtol=1e-10)
        require(gi.shape[i] == gi.size, 'grid not oriented along its axis')
    return {'nontrivial': np.abs(want).max() > 1e-3, 'tags': ['dim%d' % S.dim, 'rank%d' % rank] + ['lib:%s:%s' % (a['t'], a['lib']) for a in c['space']['axes']]}


def run_cart_forward(c):
    S = V.build(c['space'])
    rank, r = c['rank'], V.rng(c['seed'])
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank)
    f.preset_scales(tuple(c['scales']))
    f.preset_layout('g')
    data = r.standard_normal(f.data.shape)
    if not S.real:
        data = data + 1j * r.standard_normal(data.shape)
    mats = [axis_matrices(a, S.real, s) for a, s in zip(c['space']['axes'], c['scales'])]
    f['g'] = data
    want = apply([m[2] for m in mats], data, rank)
    got = np.array(f['c'])
    assert_close(got, want, f"forward transform {c['space']} scales {c['scales']} rank {rank}", rtol=1e-9)
    return {'nontrivial': True, 'tags': ['dim%d' % S.dim, 'rank%d' % rank]}


def run_cart_roundtrip(c):
    """Resolved coefficients survive a round trip through any grid at least as fine as the modes; several fields together too."""
    S = V.build(c['space'])
    rank, r = c['rank'], V.rng(c['seed'])
    scales = tuple(max(1.0, s) for s in c['scales'])
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank)
    V.random_coeffs(f, r)
    # drop Nyquist entries (documented as zeroed by the transforms)
    data = np.array(f['c'])
    for i, ax in enumerate(c['space']['axes']):
        if ax['t'] == 'F' and not S.real and ax['n'] % 2 == 0:
            sl = [slice(None)] * data.ndim
            sl[rank + i] = ax['n'] // 2
            data[tuple(sl)] = 0
    f['c'] = data
    f.change_scales(scales)
    f.require_grid_space()
    got = np.array(f['c'])
    assert_close(got, data, 'coeff->grid->coeff', rtol=1e-10)
    return {'nontrivial': np.abs(data).max() > 0, 'tags': ['dim%d' % S.dim]}


# ------------------------------------------------ curvilinear
def mode_groups(f):
    """(component-independent) group arrays of the coefficient layout, as plain integer arrays."""
    lay = f.dist.coeff_layout
    els = np.array(np.meshgrid(*lay.local_elements(f.domain, 1), indexing='ij'))
    gr = lay.local_group_arrays(f.domain, 1)
    return els, [np.ma.getdata(g) for g in gr]


def zern(dim, n, k, l, r):
    """Unit-normalised Zernike radial function on the unit ball: int Q^2 (1-r^2)^k r^(dim-1) dr = 1."""
    b = l + dim / 2 - 1
    q = r**l * sp.eval_jacobi(n, k, b, 2 * r**2 - 1)
    # with z = 2r^2-1: r^(2l+dim-1)(1-r^2)^k dr = 2^-(k+b+2) (1-z)^k (1+z)^b dz
    return q / np.sqrt(jac_norm(n, k, b) / 2**(k + b + 2))


def az(m, phi, real, par):
    if real:
        return np.cos(m * phi) if par == 0 else -np.sin(m * phi)
    return np.exp(1j * m * phi)


def legendre_mode(ell, m, ct):
    """Unit-normalised (on [-1,1]) associated Legendre with Condon-Shortley-like sign (-1)^max(m,0)."""
    am = abs(m)
    P = (1 - ct**2)**(am / 2) * sp.eval_jacobi(ell - am, am, am, ct)
    P = P / np.sqrt(jac_norm(ell - am, am, am))
    return P * (-1.0)**max(m, 0)


def run_curvi_scalar(c):
    """Grid values of a scalar from a handful of coefficients = the mode sum."""
    sps = c['space']
    S = V.build(sps)
    r = V.rng(c['seed'])
    kind = sps['kind']
    nd = S.dim
    f = S.dist.Field(bases=S.bases)
    scales = tuple(c['scales'][:nd])
    els, groups = mode_groups(f)
    V.random_coeffs(f, r)
    mask = np.array(f['c']) != 0
    data = np.array(f['c'])
    # keep modes that the grid resolves
    idxs = np.argwhere(mask)
    pick = idxs[r.permutation(len(idxs))[:c['nmodes']]]
    keep = np.zeros(data.shape, bool)
    for i in pick:
        keep[tuple(i)] = True
    data[~keep] = 0
    f.preset_scales(scales)
    f['c'] = data
    g = S.dist.local_grids(*S.bases, scales=scales)
    phi = g[0]
    want = 0 * sum(g) + (0 if S.real else 0j)
    Nphi = sps['shape'][0]
    used = 0
    k = sps.get('k', 0)
    for i in map(tuple, pick):
        m = int(groups[0][i])
        par = els[0][i] % 2
        cval = data[i]
        mmax_grid = (int(np.ceil(scales[0] * Nphi)) - 1) // 2
        if abs(m) > mmax_grid:
            continue
        if kind == 'disk':
            n = int(els[1][i]) - abs(m) // 2
            rr = g[1] / sps['radius']
            rad = zern(2, n, sps['alpha'] + k, abs(m), rr)
            mode = az(m, phi, S.real, par) * rad
        elif kind == 'annulus':
            n = int(els[1][i])
            R0, R1 = sps['radii']
            xi = 2 * (g[1] - R0) / (R1 - R0) - 1
            a, b = sps['alpha']
            mode = az(m, phi, S.real, par) * ((R1 - R0) / g[1])**k * jac_modes(n + 1, a + k, b + k, xi)[n].reshape(g[1].shape)
        elif kind == 'sphere':
            ell = int(groups[1][i])
            mode = az(m, phi, S.real, par) * legendre_mode(ell, m, np.cos(g[1]))
        else:
            ell = int(groups[1][i])
            ang = az(m, phi, S.real, par) * legendre_mode(ell, m, np.cos(g[1]))
            if kind == 'ball':
                n = int(els[2][i]) - ell // 2
                rad = zern(3, n, sps['alpha'] + k, ell, g[2] / sps['radius'])
            else:
                n = int(els[2][i])
                R0, R1 = sps['radii']
                xi = 2 * (g[2] - R0) / (R1 - R0) - 1
                a, b = sps['alpha']
                rad = ((R1 - R0) / g[2])**k * jac_modes(n + 1, a + k, b + k, xi)[n].reshape(g[2].shape)
            mode = ang * rad
        used += 1
        want = want + cval * mode
    got = np.array(f['g'])
    assert_close(got, want, f'{kind} scalar mode sum', rtol=1e-8, scale=max(np.abs(want).max(), 1e-2))
    return {'nontrivial': used > 0, 'tags': [kind, sps['dtype']]}


def curvi_any():
    return st.one_of(V.curvi_polar(), V.curvi_sphere(), V.curvi_3d())


def curvi_modes_case():
    def mk(s, sc, seed, nm):
        s = dict(s)
        return {'space': s, 'scales': [sc[0], sc[1], sc[2]], 'seed': seed, 'nmodes': nm}
    return st.builds(mk, curvi_any(), st.tuples(*[st.sampled_from([1.0, 1.5, 2.0, 1.25])] * 3), st.integers(0, 10**6), st.integers(1, 6))


def run_curvi_roundtrip(c):
    """Valid coefficients, any rank: survive coeff->grid->coeff on a fine enough grid, and on the base grid the map is a projection."""
    sps = c['space']
    S = V.build(sps)
    r = V.rng(c['seed'])
    rank = c['rank']
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank)
    V.random_coeffs(f, r)
    # the valid subspace of tensors is the image of the transforms: project once on a fine grid
    f.change_scales(c['fine'])
    f.require_grid_space()
    d0 = np.array(f['c'])
    f.require_grid_space()
    d1 = np.array(f['c'])
    assert_close(d1, d0, f"{sps['kind']} rank {rank} fine roundtrip", rtol=1e-8)
    if rank == 0:
        # scalars: the validity mask alone describes the representable functions
        f2 = S.dist.Field(bases=S.bases)
        V.random_coeffs(f2, V.rng(c['seed'] + 1))
        e0 = np.array(f2['c'])
        f2.change_scales(c['fine'])
        f2.require_grid_space()
        assert_close(np.array(f2['c']), e0, f"{sps['kind']} scalar roundtrip", rtol=1e-8)
        f2.change_scales(1)
        f2.require_grid_space()
        assert_close(np.array(f2['c']), e0, f"{sps['kind']} scalar roundtrip on base grid", rtol=1e-8)
    f.change_scales(1)
    f.require_grid_space()
    d2 = np.array(f['c'])
    f.require_grid_space()
    d3_ = np.array(f['c'])
    assert_close(d3_, d2, f"{sps['kind']} rank {rank} base-grid projection", rtol=1e-8)
    return {'nontrivial': np.abs(d0).max() > 1e-8, 'tags': [sps['kind'], 'rank%d' % rank, sps['dtype']]}


def curvi_rt_case():
    return st.builds(lambda s, rank, seed, fine: {'space': s, 'rank': rank, 'seed': seed, 'fine': fine},
                     st.one_of(curvi_any(), V.curvi_cyl()), st.integers(0, 2), st.integers(0, 10**6), st.sampled_from([1.5, 2.0]))


# smooth tensor fields known in Cartesian form
def max_degree(sps, rank, k=None):
    """Largest polynomial degree of Cartesian components that the spectral space represents exactly."""
    kind = sps['kind']
    k = sps.get('k', 0) if k is None else k
    mmax = (sps['shape'][0] - 1) // 2
    if kind == 'disk':
        nr = sps['shape'][1]
        # components with |m| <= d + rank; radial degree index
        return min(mmax - rank, nr - 1 - rank)
    if kind == 'annulus':
        return min(mmax - rank, sps['shape'][1] - 1 - k)
    if kind in ('sphere', 'ball', 'shell'):
        lmax = sps['shape'][1] - (2 if sps['dtype'] == 'r' else 1)   # documented load-balancing choice
    if kind == 'sphere':
        return min(mmax, lmax) - rank
    if kind == 'ball':
        return min(mmax - rank, lmax - rank, sps['shape'][2] - 1 - rank)
    if kind == 'shell':
        return min(mmax - rank, lmax - rank, sps['shape'][2] - 1 - k)
    raise ValueError


def poly_fn(r, dim, deg, nterms, cplx, c=None, s=None):
    """Random polynomial Fn of total degree <= deg."""
    t = {}
    for _ in range(nterms):
        while True:
            e = tuple(int(x) for x in r.randint(0, deg + 1, size=dim))
            if sum(e) <= deg:
                break
        v = float(np.round(r.standard_normal(), 3)) + (1j * float(np.round(r.standard_normal(), 3)) if cplx else 0)
        t[tuple(('p', n) for n in e)] = v
    return V.Fn(t, c or (0,) * dim, s or (1,) * dim)


def axis_fn_terms(r, ax, real, nterms, maxdeg=None):
    """1D factors representable on an axis."""
    if ax['t'] == 'F':
        K = (ax['n'] - 1) // 2
        return [('e', int(r.randint(-K, K + 1))) for _ in range(nterms)]
    K = ax['n'] - 1 if maxdeg is None else min(maxdeg, ax['n'] - 1)
    return [('p', int(r.randint(0, K + 1))) for _ in range(nterms)]


def axis_cs(ax):
    lo, hi = ax['bounds']
    if ax['t'] == 'F':
        return lo, (hi - lo) / (2 * np.pi)
    return (lo + hi) / 2, (hi - lo) / 2


def smooth_fn(S, r, rank, nterms=4, deg=None, ded=0):
    """Random function exactly representable on space S (component of a rank-`rank` tensor)."""
    sps = S.spec
    kind = sps['kind']
    if kind == 'cart':
        cs = [axis_cs(a) for a in sps['axes']]
        facs = [axis_fn_terms(r, a, S.real, nterms, None if deg is None else deg) for a in sps['axes']]
        t = {}
        for j in range(nterms):
            t[tuple(f[j] for f in facs)] = r.standard_normal() + 1j * r.standard_normal()
        return V.Fn(t, [x[0] for x in cs], [x[1] for x in cs])
    if kind == 'cyl':
        d = max_degree(sps['polar'], rank) - ded
        d = d if deg is None else min(d, deg)
        if d < 0:
            raise Skip('unresolved')
        p = poly_fn(r, 2, d, nterms, True)
        c, s = axis_cs(sps['z'])
        fz = axis_fn_terms(r, sps['z'], S.real, nterms, deg)
        t = {}
        for (k2, v), z in zip(p.terms.items(), fz):
            t[(z,) + k2] = v
        return V.Fn(t, (c, 0, 0), (s, 1, 1))
    d = max_degree(sps, rank) - ded
    d = d if deg is None else min(d, deg)
    if d < 0:
        raise Skip('unresolved')
    R = sps['radius'] if 'radius' in sps else sps['radii'][1]
    dim = 2 if kind in ('disk', 'annulus') else 3
    return poly_fn(r, dim, d, nterms, True, s=(R,) * dim)


def run_analytic(c):
    """Values given on one grid reappear, by spectral interpolation, as the same analytic tensor field on another grid."""
    sps = c['space']
    S = V.build(sps)
    r = V.rng(c['seed'])
    rank = c['rank']
    cdim = 3 if sps['kind'] in ('sphere', 'ball', 'shell', 'cyl') else S.dim
    if sps['kind'] == 'cart' and S.dim == 3:
        rank = min(rank, 1)
    F = V.tensor(rank, cdim, lambda i: smooth_fn(S, r, rank))
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank)
    s1, s2 = c['scales']
    f.preset_scales(s1)
    f['g'] = V.grid_values(S, F, rank, f.scales)
    f.require_coeff_space()
    f.change_scales(s2)
    got = np.array(f['g'])
    want = V.grid_values(S, F, rank, f.scales)
    assert_close(got, want, f"{sps['kind']} rank {rank} spectral interpolation {s1}->{s2}", rtol=1e-8)
    return {'nontrivial': np.abs(want).max() > 1e-6 and s1 != s2, 'tags': [sps['kind'], 'rank%d' % rank, sps['dtype']]}


def analytic_case():
    return st.builds(lambda s, rank, seed, a, b: {'space': s, 'rank': rank, 'seed': seed, 'scales': [a, b]},
                     st.one_of(curvi_any(), V.curvi_cyl(), V.cart_space()), st.integers(0, 2), st.integers(0, 10**6),
                     st.sampled_from([1.5, 1.0, 2.0]), st.sampled_from([2.0, 1.0, 1.5, 1.75]))


def run_axisym(c):
    """Axisymmetric / spherically symmetric versions of the bases (as used for coefficients)."""
    sps = c['space']
    S = V.build(sps)
    r = V.rng(c['seed'])
    kind = sps['kind']
    b = S.bases[0]
    red = {'disk': 'radial_basis', 'annulus': 'radial_basis', 'sphere': 'latitude_basis', 'ball': 'radial_basis', 'shell': 'radial_basis'}[kind]
    if c['meridional'] and kind in ('ball', 'shell') and hasattr(b, 'meridional_basis'):
        red = 'meridional_basis'
    rb = getattr(b, red)
    rank = c['rank']
    f = S.dist.Field(bases=rb, tensorsig=(S.cs,) * rank)
    R = sps['radius'] if 'radius' in sps else sps['radii'][1]
    n = {'disk': sps['shape'][-1], 'annulus': sps['shape'][-1], 'sphere': sps['shape'][1] - 1, 'ball': sps['shape'][-1], 'shell': sps['shape'][-1]}[kind]
    k = sps.get('k', 0)
    # degree in r of f(r^2) r^rank must fit
    if kind in ('annulus', 'shell'):
        deg = (n - 1 - k - rank) // 2
    elif kind == 'sphere':
        deg = n - 1 - rank
    else:
        deg = n - 2 - rank
    if deg < 0:
        raise Skip('unresolved')
    deg = min(deg, 5)
    co = [np.polynomial.Polynomial(r.standard_normal(deg + 1)) for _ in range(3)]
    s1, s2 = c['scales']

    def values(scales):
        if kind in ('ball', 'shell') and red == 'radial_basis':
            g = S.dist.local_grids(b, scales=scales)
            g = [g[0][:1], g[1][:, :1], g[2]]
        else:
            g = S.dist.local_grids(rb, scales=scales)
        if kind in ('disk', 'annulus'):
            rr = g[1] / R
            z = 0 * sum(g)
            if rank == 0:
                return co[0](rr**2) + z
            return np.array([rr * co[0](rr**2) + z, rr * co[1](rr**2) + z])
        if kind == 'sphere':
            ct, sn = np.cos(g[1]), np.sin(g[1])
            z = 0 * sum(g)
            if rank == 0:
                return co[0](ct) + z
            return np.array([sn * co[0](ct) + z, sn * co[1](ct) + z])
        rr = g[2] / R
        z = 0 * sum(g)
        th = 1 if red == 'radial_basis' else np.cos(g[1])**0
        if rank == 0:
            return co[0](rr**2) * th + z
        if red == 'meridional_basis':   # rotation about z, and radial flow
            return np.array([rr * np.sin(g[1]) * co[1](rr**2) + z, z, rr * co[0](rr**2) + z])
        return np.array([z, z, rr * co[0](rr**2) + z])
    f.preset_scales(s1)
    f['g'] = values(f.scales)
    f.require_coeff_space()
    f.change_scales(s2)
    want = values(f.scales)
    assert_close(np.array(f['g']), want, f'{kind} {red} rank {rank}', rtol=1e-8)
    return {'nontrivial': s1 != s2, 'tags': [kind, red, 'rank%d' % rank]}


def axisym_case():
    return st.builds(lambda s, rank, seed, a, b, m: {'space': s, 'rank': rank, 'seed': seed, 'scales': [a, b], 'meridional': m},
                     st.one_of(V.curvi_polar(), V.curvi_sphere(nth=(6, 8, 12)), V.curvi_3d(nr=(6, 8, 10))), st.integers(0, 1), st.integers(0, 10**6),
                     st.sampled_from([1.5, 1.0, 2.0]), st.sampled_from([2.0, 1.0, 1.5, 1.75]), st.booleans())


SUBS = [
    Sub('cart_backward', lambda: cart_case('b'), run_cart_backward, 1600),
    Sub('cart_forward', lambda: cart_case('f'), run_cart_forward, 1600),
    Sub('cart_roundtrip', lambda: cart_case('r'), run_cart_roundtrip, 600),
    Sub('curvi_scalar_modes', curvi_modes_case, run_curvi_scalar, 1200),
    Sub('curvi_roundtrip', curvi_rt_case, run_curvi_roundtrip, 700),
    Sub('analytic_interpolation', analytic_case, run_analytic, 1200),
    Sub('axisymmetric', axisym_case, run_axisym, 300),
]
