"""C23 random initialisation is reproducible and independent of the process layout; filters keep exactly the requested modes."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation, expect_raises
from vlib import spaces as V, mpi
from checks import C16
import dedalus.public as d3
from dedalus.tools.random_arrays import ChunkedRandomArray, IndexArray, rng_element, rng_elements, chunked_rng

JOBS = 3
DISTS = [('standard_normal', {}), ('normal', {'loc': -1.5, 'scale': 0.25}), ('uniform', {}), ('uniform', {'low': 2.0, 'high': 5.0}), ('exponential', {'scale': 2.0}), ('random', {}), ('integers', {'low': -5, 'high': 90}), ('weibull', {'a': 2.5}),
         ('poisson', {'lam': 3.0}), ('standard_cauchy', {}), ('laplace', {}), ('binomial', {'n': 5, 'p': 0.3}), ('beta', {'a': 0.5, 'b': 2.0}), ('lognormal', {'sigma': 0.5})]


def reference(shape, seed, dist):
    """One uninterrupted stream of draws, laid out in C order."""
    name, kw = DISTS[dist]
    n = int(np.prod(shape))
    return getattr(np.random.default_rng(seed), name)(size=max(n, 1), **kw)[:n].reshape(shape)


# ---------------------------------------------------------------------------------------------------------------- arrays

def slice_case():
    def mk(shape, keys, seed, chunk, dist, order, short, idx):
        return {'shape': shape, 'keys': [k[:len(shape)] for k in keys], 'seed': seed, 'chunk': chunk, 'dist': dist, 'order': order, 'short': short, 'idx': idx}
    bound = st.one_of(st.none(), st.integers(-9, 9))
    sl = st.tuples(bound, bound, st.sampled_from([None, None, None, 1, 2, 3, -1, -2])).map(list)
    return st.builds(mk, st.lists(st.sampled_from([0, 1, 2, 3, 4, 5, 6, 7, 3, 4, 5, 6, 7, 9]), min_size=1, max_size=4), st.lists(st.lists(sl, min_size=4, max_size=4), min_size=1, max_size=4), st.integers(0, 2**32), st.sampled_from([1, 2, 3, 5, 7, 16, 64, 1000, 2**20]),
                     st.integers(0, len(DISTS) - 1), st.sampled_from(['C', 'C', 'F']), st.integers(0, 4), st.lists(st.integers(0, 300), max_size=6))


def run_slice(c):
    shape = tuple(c['shape'])
    name, kw = DISTS[c['dist']]
    full = reference(shape, c['seed'], c['dist'])
    what = f'random array of shape {shape}, {name}{kw}, chunks of {c["chunk"]}'
    A = ChunkedRandomArray(shape, c['seed'], c['chunk'], name, **kw)
    I = IndexArray(shape, order=c['order'])
    flat = np.arange(full.size).reshape(shape, order=c['order'])
    nontrivial = False
    for key in c['keys']:
        key = tuple(slice(*k) for k in key)
        if c['short'] < len(shape):
            key = key[:max(1, len(key) - c['short'])]
        if c['short'] == 4 and key:
            key = key[0]
        ends = [k.indices(n) for k, n in zip(key if isinstance(key, tuple) else (key,), shape)]
        if any((b - a) * step < 0 for a, b, step in ends):
            continue    # slices that end before they start are refused
        got = A[key]
        want = full[key]
        require(got.shape == want.shape, f'{what}: slice {key} has shape {got.shape}, not {want.shape}')
        require(np.array_equal(got, want), f'{what}: slice {key} is {got.ravel()[:4]} for {want.ravel()[:4]}')
        nontrivial |= want.size > 1
        ix = I[key]
        require(np.array_equal(ix, flat[key]), f'indices of shape {shape} order {c["order"]}, slice {key}: {ix.ravel()[:6]}')
    expect_raises(lambda: A[(slice(None),) * (len(shape) + 1)], (ValueError,), f'{what}: too many selections')
    # elements by index
    if c['idx']:
        n = max(c['idx']) + 1
        stream = reference((n,), c['seed'], c['dist'])
        got = rng_elements(np.array(c['idx']), c['seed'], c['chunk'], name, **kw)
        require(np.array_equal(got, stream[c['idx']]), f'{what}: elements {c["idx"]} are {got} for {stream[c["idx"]]}')
        i = c['idx'][0]
        require(rng_element(i, c['seed'], c['chunk'], name, **kw) == stream[i], f'{what}: element {i}')
        g = chunked_rng(c['seed'], min(c['chunk'], 50), name, **kw)
        parts = []
        for k in range(3):
            j, d = next(g)
            require(j == k, f'{what}: chunk {k} numbered {j}')
            parts.append(d)
        require(np.array_equal(np.concatenate(parts), reference((sum(map(len, parts)),), c['seed'], c['dist'])), f'{what}: successive chunks')
    return {'nontrivial': nontrivial, 'tags': [name, 'dim%d' % len(shape)] + (['several chunks'] if c['chunk'] < full.size else [])}


# ----------------------------------------------------------------------------------------------------------------- filling

def spaces():
    return st.one_of(V.cart_space(dims=(1, 2, 3), sizes3=(4, 6)), V.curvi_polar(), V.curvi_sphere(), V.curvi_3d(), V.curvi_cyl())


def fill_st():
    return st.fixed_dictionaries({'layout': st.sampled_from([None, 'c', 'g', 'g', 1, 2]), 'scales': st.sampled_from([None, None, 1, 1.5, 2, [1, 1.5, 2]]), 'seed': st.integers(0, 2**32), 'dist': st.integers(0, len(DISTS) - 1), 'chunk': st.sampled_from([2**20, 2**20, 1, 7, 64])})


def fill_case():
    return st.fixed_dictionaries({'space': spaces(), 'rank': st.integers(0, 2), 'fills': st.lists(fill_st(), min_size=1, max_size=3), 'state': st.integers(0, 3)})


def fill(f, q):
    dist = f.dist
    lay = q['layout']
    L = lay if not isinstance(lay, int) else next((L for L in dist.layouts if int(np.sum(L.grid_space)) == min(lay, dist.dim)))
    sc = q['scales']
    if isinstance(sc, list):
        sc = tuple(sc[:dist.dim])
        # several axes of one basis have one azimuthal resolution each; every combination is valid
    name, kw = DISTS[q['dist']]
    f.fill_random(layout=L, scales=sc, seed=q['seed'], chunk_size=q['chunk'], distribution=name, **kw)
    return L, sc


def run_fill(c):
    sp = c['space']
    S = V.build(sp)
    rank = c['rank']
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank, name='f')
    if c['state']:
        V.random_coeffs(f, V.rng(c['state']))
        f['g'] if c['state'] > 1 else f['c']
    tags = {sp['kind'], 'rank%d' % rank}
    for q in c['fills']:
        before = (f.layout, tuple(f.scales))
        L, sc = fill(f, q)
        what = f'filling a rank-{rank} field on {sp} with {q}'
        want_layout = before[0] if L is None else f.dist.get_layout_object(L)
        want_scales = before[1] if sc is None else f.dist.remedy_scales(sc)
        require(f.layout is want_layout and tuple(f.scales) == tuple(want_scales), f'{what}: left in layout {f.layout.index} at scales {f.scales}')
        shape = (S.cs.dim,) * rank + tuple(f.layout.global_shape(f.domain, f.scales))
        if S.real:
            want = reference(shape, q['seed'], q['dist'])
        else:
            want = reference(shape + (2,), q['seed'], q['dist'])
            want = want[..., 0] + 1j * want[..., 1]
        require(np.array_equal(f.data, want), f'{what}: data differs from the stream of its seed')
        tags.add(DISTS[q['dist']][0])
        if q['layout'] == 'g' and (sp['kind'] == 'cart' or not rank) and DISTS[q['dist']][0] in ('standard_normal', 'normal', 'uniform') and np.min(f.scales) >= 1:
            m = V.valid_mask(f)
            x = np.abs(f.copy()['c'])
            m = np.broadcast_to(m, x.shape)
            require(np.all(x[m] > 0), f'{what}: {int(np.sum(x[m] == 0))} valid modes are not populated')
            tags.add('modes')
    return {'tags': sorted(tags)}


def mesh_case():
    return st.fixed_dictionaries({'base': C16.spaces(), 'rank': st.integers(0, 2), 'fills': st.lists(fill_st(), min_size=1, max_size=3)})


def mesh_body(R, c):
    S = V.build(c['base']['space'], **R.kw)
    f = S.dist.Field(bases=S.bases, tensorsig=(S.cs,) * c['rank'], name='f')
    for i, q in enumerate(c['fills']):
        # in between layouts depend on the mesh: the first fill has a definite one
        fill(f, dict(q, layout='g') if q['layout'] is None else q)
        g = R.gather(f, 'filled')
        if g is not None:
            R.put(f'fill {i}', g)


def run_mesh(c):
    what = f"filling with {c['fills']} on {c['base']['space']}"
    C16.both('mesh_body', c, c['base']['mesh'], what, rtol=0, module='checks.C23')
    return {'tags': [c['base']['space']['kind'], 'n%d' % C16.size(c['base']['mesh'])]}


# ----------------------------------------------------------------------------------------------------------------- filters

def filter_case():
    sc = st.sampled_from([0.5, 0.25, 0.75, 0.3, 0.6, 1.0, 0.9])
    return st.fixed_dictionaries({'space': spaces(), 'rank': st.integers(0, 1), 'seed': st.integers(0, 10**6), 'scales': st.one_of(sc, st.lists(sc, min_size=3, max_size=3)), 'shape': st.booleans(), 'state': st.tuples(st.sampled_from([None, 1, 1.5, 2]), st.sampled_from([None, 0, 1, 2, 3])).map(list)})


def kept_cart(ax, b, s, real):
    """Which coefficients of one axis survive truncation to ceil(s n) grid points."""
    n = ax['n']
    m = int(np.ceil(s * n - 1e-9))
    if ax['t'] == 'J':
        return np.arange(n) < m
    kmax = (m - 1) // 2
    k = np.abs(np.asarray(b.wavenumbers).ravel()) * (ax['bounds'][1] - ax['bounds'][0]) / (2 * np.pi)
    return np.round(k) <= kmax


def run_filter(c):
    sp = c['space']
    S = V.build(sp)
    kind, dist = sp['kind'], S.dist
    cart = kind == 'cart'
    rank = c['rank'] if cart else 0     # the truncation of components depends on the grid itself
    f = dist.Field(bases=S.bases, tensorsig=(S.cs,) * rank, name='f')
    V.random_coeffs(f, V.rng(c['seed']))
    f.change_scales(2)
    f['g'], f['c']
    f.change_scales(1)
    x0 = np.array(f['c'])
    scales = tuple(c['scales'][:dist.dim]) if isinstance(c['scales'], list) else (c['scales'],) * dist.dim
    N = np.array(dist.grid_layout.global_shape(f.domain, 1))
    shape = np.maximum(1, np.ceil(np.array(scales) * N - 1e-9)).astype(int)
    if np.any(shape < 2):
        raise Skip('too coarse')
    if cart and any(a['t'] == 'F' and s % 2 for a, s in zip(sp['axes'], shape)):
        raise Skip('odd Fourier grids')
    if not cart:
        # keep the azimuthal grid even and the others sensible
        az = 1 if kind == 'cyl' else 0
        if shape[az] % 2 or shape[az] < 4 or np.any(shape < 2):
            raise Skip('coarse azimuth')
        if kind == 'cyl' and sp['z']['t'] == 'F' and shape[0] % 2:
            raise Skip('odd Fourier grids')
    kw = {'shape': tuple(int(s) for s in shape)} if c['shape'] else {'scales': scales if isinstance(c['scales'], list) else c['scales']}
    what = f'{kw} filters on rank-{rank} field on {sp}'
    lo, hi = f.copy(), f.copy()
    for h in (lo, hi):
        if c['state'][0]:
            h.change_scales(c['state'][0])
        if c['state'][1] is not None:
            h.change_layout(dist.layouts[c['state'][1] % len(dist.layouts)])
    was = tuple(lo.scales)
    lo.low_pass_filter(**kw)
    require(tuple(lo.scales) == was, f'{what}: scales {lo.scales} after filtering at {was}')
    hi.high_pass_filter(**kw)
    mask = np.broadcast_to(V.valid_mask(f), x0.shape)
    x0 = np.where(mask, x0, 0)
    a, b = np.where(mask, lo.copy()['c'], 0), np.where(mask, hi.copy()['c'], 0)
    s = np.abs(x0).max()
    assert_close(a + b, x0, f'{what}: low pass plus high pass', rtol=1e-9, scale=s)
    if cart:
        keep = np.ones(x0.shape[rank:], dtype=bool)
        for i, (ax, bs) in enumerate(zip(sp['axes'], S.bases)):
            keep = keep & kept_cart(ax, bs, shape[i] / ax['n'] if c['shape'] else scales[i], S.real).reshape((1,) * i + (-1,) + (1,) * (dist.dim - 1 - i))
        assert_close(a, np.where(keep, x0, 0), f'{what}: low-pass result', rtol=1e-9, scale=s)
        assert_close(b, np.where(keep, 0, x0), f'{what}: high-pass result', rtol=1e-9, scale=s)
        part = 0 < keep.sum() < keep.size
    else:
        again = lo.copy()
        again.low_pass_filter(**kw)
        if not rank:
            assert_close(np.where(mask, again['c'], 0), a, f'{what}: low pass twice', rtol=1e-8, scale=s)
        part = np.abs(b).max() > 1e-6 * s
        if np.all(shape >= N):
            assert_close(a, x0, f'{what}: low pass with the full grid', rtol=1e-9, scale=s)
        # each coefficient is either kept as it is or removed: by azimuthal order, degree and radial index
        az = 1 if kind == 'cyl' else 0
        groups = dist.coeff_layout.local_group_arrays(f.domain, 1)
        keep = np.abs(groups[az]) <= (shape[az] - 1) // 2
        if kind in ('sphere', 'shell', 'ball'):
            keep = keep & (np.abs(groups[1]) < shape[1])
        if kind != 'sphere':
            keep = keep & (np.arange(x0.shape[-1]) < shape[-1])
        if kind == 'cyl':
            i, ax = 0, sp['z']
            keep = keep & kept_cart(ax, S.bases[0], shape[0] / ax['n'] if c['shape'] else scales[0], S.real).reshape((-1, 1, 1))
        keep = np.broadcast_to(keep, x0.shape)
        require(np.all(np.abs(a[~keep]) <= 1e-9 * s), f'{what}: low pass leaves {int(np.sum(np.abs(a[~keep]) > 1e-9 * s))} modes beyond the coarse grid')
        pol = sp['polar'] if kind == 'cyl' else sp
        if not pol.get('k', 0):
            assert_close(a, np.where(keep, x0, 0), f'{what}: low-pass result', rtol=1e-9, scale=s)
            part = 0 < (keep & mask).sum() < mask.sum()
    return {'nontrivial': bool(part), 'tags': [kind, 'rank%d' % rank, 'shape' if c['shape'] else 'scales']}


SUBS = [Sub('slices', slice_case, run_slice, quick=3000, thorough=200000), Sub('fill', fill_case, run_fill, quick=600, thorough=30000), Sub('filter', filter_case, run_filter, quick=800, thorough=30000),
        Sub('meshes', mesh_case, run_mesh, quick=120, thorough=8000)]


def finish():
    mpi.Server.stop()
