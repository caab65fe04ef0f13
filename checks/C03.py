"""C03 Cartesian differential operators vs analytic calculus."""
import numpy as np
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Violation, Skip, HarnessError
from vlib import spaces as V, ops
from checks.C01 import smooth_fn
import dedalus.public as d3

EPS3 = np.zeros((3, 3, 3))
for _p, _s in {(0, 1, 2): 1, (1, 2, 0): 1, (2, 0, 1): 1, (0, 2, 1): -1, (2, 1, 0): -1, (1, 0, 2): -1}.items():
    EPS3[_p] = _s


# ---- analytic operators on object arrays of Fn (Cartesian components) ----
def a_grad(F, dim):
    out = np.empty((dim,) + F.shape, dtype=object)
    for i in range(dim):
        for idx in np.ndindex(*F.shape):
            out[(i,) + idx] = F[idx].diff(i)
    return out

def a_sum(items):
    out = items[0]
    for x in items[1:]:
        out = out + x
    return out

def a_div(F, dim, index=0):
    G = np.moveaxis(F, index, 0)
    out = np.empty(G.shape[1:], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = a_sum([G[(i,) + idx].diff(i) for i in range(dim)])
    return out

def a_lap(F, dim):
    out = np.empty(F.shape, dtype=object)
    for idx in np.ndindex(*F.shape):
        out[idx] = a_sum([F[idx].diff(i).diff(i) for i in range(dim)])
    return out

def a_curl(F):
    """Right-handed curl over the first index."""
    out = np.empty(F.shape, dtype=object)
    for rest in np.ndindex(*F.shape[1:]):
        for i in range(3):
            j, k = (i + 1) % 3, (i + 2) % 3
            out[(i,) + rest] = F[(k,) + rest].diff(j) - F[(j,) + rest].diff(k)
    return out

def a_trace(F):
    out = np.empty(F.shape[2:], dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = a_sum([F[(i, i) + idx] for i in range(F.shape[0])])
    return out

def a_skew(F, index):
    """2D rotation: (x, y) -> (-y, x)."""
    G = np.moveaxis(F, index, 0)
    out = np.empty(G.shape, dtype=object)
    for idx in np.ndindex(*G.shape[1:]):
        out[(0,) + idx] = -G[(1,) + idx]
        out[(1,) + idx] = G[(0,) + idx]
    return np.moveaxis(out, 0, index)


OPS0 = ['d', 'dd', 'grad', 'lap', 'gradgrad', 'divgrad', 'grad1', 'convert', 'lap1']
OPS1 = ['d', 'dd', 'grad', 'div', 'lap', 'curl', 'curlcurl', 'skew', 'comp', 'convert', 'graddiv', 'divgrad', 'skewgrad']
OPS2 = ['d', 'div', 'trace', 'transpose', 'lap', 'skew', 'comp', 'convert', 'divdiv', 'tracegrad']


def case():
    def mk(sp, rank, op0, op1, op2, i, j, seed, state, out, mask, rh):
        dim = len(sp['axes'])
        if dim == 3:
            rank = min(rank, 2)
        opn = [op0, op1, op2][rank]
        if dim == 3 and mask and rank == 2:
            pass
        use = [bool((mask >> a) & 1) for a in range(dim)] if mask else [True] * dim
        if not any(use):
            use[0] = True
        if opn in ('curl', 'curlcurl') and dim != 3:
            opn = 'div' if opn == 'curl' else 'lap'
        if opn in ('skew', 'skewgrad') and dim != 2:
            opn = 'grad' if rank < 2 else 'trace'
        return {'space': sp, 'use': use, 'rank': rank, 'op': opn, 'i': i, 'j': j, 'seed': seed, 'state': state, 'out': out, 'rh': rh}
    return st.builds(mk, V.cart_space(sizes3=(4, 6)), st.integers(0, 2), st.sampled_from(OPS0), st.sampled_from(OPS1), st.sampled_from(OPS2),
                     st.integers(0, 2), st.integers(0, 2), st.integers(0, 10**6),
                     st.tuples(st.sampled_from([None, 1.0, 1.5, 2.0]), st.one_of(st.none(), st.integers(0, 5))).map(list),
                     st.sampled_from([1.0, 1.5]), st.sampled_from([0, 0, 0, 1, 2, 3, 5, 6]), st.booleans())


def run(c):
    sp = c['space']
    dim = len(sp['axes'])
    S = V.build(sp)
    if dim == 3 and not c['rh']:
        S.cs = d3.CartesianCoordinates(*V.NAMES[:3], right_handed=False)
        S.dist = d3.Distributor(S.cs, dtype=S.dtype)
        S.bases = tuple(V.make_axis_basis(S.cs.coords[i], ax, S.dtype) for i, ax in enumerate(sp['axes']))
    r = V.rng(c['seed'])
    rank, op = c['rank'], c['op']
    use = c['use']
    bases = tuple(b for b, u in zip(S.bases, use) if u)

    def comp(idx):
        f = smooth_fn(S, r, rank, nterms=3)
        # constant along unused axes
        t = {}
        for k, v in f.terms.items():
            key = tuple(fac if u else ('p', 0) for fac, u in zip(k, use))
            t[key] = t.get(key, 0) + v
        return f.like(t)
    F = V.tensor(rank, dim, comp)
    f = S.dist.Field(bases=bases, tensorsig=(S.cs,) * rank, name='f')
    f.preset_scales(f.domain.dealias)

    def values(T, rk, sc):
        g = [gi if u else 0 * gi.ravel()[:1].reshape((1,) * dim) + gi.ravel()[0] for gi, u in zip(S.dist.local_grids(*S.bases, scales=sc), use)]
        return V.eval_tensor(T, rk, g, S.real)
    f['g'] = values(F, rank, tuple(s if u else 1 for s, u in zip(f.scales, use)))
    snaps = ops.snapshot([f])
    ops.disturb(f, c['state'])
    coords = S.cs.coords
    i, j = c['i'] % dim, c['j'] % dim
    sgn = 1 if c['rh'] or dim != 3 else -1
    order = 1
    D = lambda T, a: np.vectorize(lambda q: q.diff(a), otypes=[object])(T) if T.shape else np.array(T[()].diff(a), dtype=object)
    if F.shape == ():
        F = np.array(F, dtype=object)
    idx = c['j'] % max(rank, 1)
    if op == 'd':
        e = d3.Differentiate(f, coords[i]); W = D(F, i)
    elif op == 'dd':
        e = d3.Differentiate(d3.Differentiate(f, coords[i]), coords[j]); W = D(D(F, i), j); order = 2
    elif op == 'grad':
        e = d3.Gradient(f, S.cs) if c['rh'] else d3.grad(f); W = a_grad(F, dim)
    elif op == 'grad1':
        e = d3.Gradient(f, coords[i]); W = np.empty((1,), dtype=object); W[0] = F[()].diff(i)
    elif op == 'lap':
        e = d3.Laplacian(f) if c['rh'] else d3.lap(f, S.cs); W = a_lap(F, dim); order = 2
    elif op == 'lap1':
        e = d3.Laplacian(f, coords[i]); W = D(D(F, i), i); order = 2
    elif op == 'gradgrad':
        e = d3.grad(d3.grad(f)); W = a_grad(a_grad(F, dim), dim); order = 2
    elif op == 'divgrad':
        e = d3.div(d3.grad(f)); W = a_lap(F, dim); order = 2
    elif op == 'div':
        e = d3.Divergence(f, index=idx); W = a_div(F, dim, idx)
    elif op == 'divdiv':
        e = d3.div(d3.div(f)); W = a_div(a_div(F, dim, 0), dim, 0); order = 2
    elif op == 'graddiv':
        e = d3.grad(d3.div(f)); W = a_grad(a_div(F, dim), dim); order = 2
    elif op == 'curl':
        e = d3.curl(f); W = sgn * a_curl(F)
    elif op == 'curlcurl':
        e = d3.curl(d3.curl(f)); W = a_curl(a_curl(F)); order = 2
    elif op == 'skew':
        e = d3.Skew(f, index=idx); W = a_skew(F, idx); order = 0
    elif op == 'skewgrad':
        e = d3.skew(d3.grad(f), index=0); W = a_skew(a_grad(F, dim), 0)
    elif op == 'trace':
        e = d3.Trace(f); W = a_trace(F); order = 0
    elif op == 'tracegrad':
        e = d3.trace(d3.grad(d3.div(f))); W = a_trace(a_grad(a_div(F, dim), dim)); order = 2
    elif op == 'transpose':
        ind = [(0, 1), (1, 0), (-1, -2), (0, -1)][c['j'] + c['i'] & 3]
        e = d3.TransposeComponents(f, indices=ind) if ind != (0, 1) else d3.transpose(f); W = np.swapaxes(F, 0, 1); order = 0
    elif op == 'comp':
        # unit-vector projections of an index, through the public component of a Cartesian tensor
        from dedalus.core.operators import CartCompBase
        e = CartCompBase(f, idx, coords[i]); W = np.take(F, i, axis=idx); order = 0
    elif op == 'convert':
        b = [b for b in bases if hasattr(b, 'derivative_basis')]
        if not b:
            raise Skip('no convertible basis')
        b = b[c['i'] % len(b)]
        e = d3.Convert(f, b.derivative_basis(1 + c['j'] % 2)); W = F; order = 0
    else:
        raise HarnessError(op)
    if not isinstance(W, np.ndarray):
        W = np.array(W, dtype=object)
    # scale of the terms entering the result
    amp = np.abs(values(F, rank, tuple(1.5 if u else 1 for u in use))).max() + 1e-300
    geo = 1.0
    if order:
        geo = max(1.0, max((a['n'] if a['t'] == 'F' else a['n']**1.0) / ((a['bounds'][1] - a['bounds'][0]) / 2) for a, u in zip(sp['axes'], use) if u))**order
    for attempt in range(2):
        out = ops.evaluated(e)
        osc = tuple(c['out'] if u else 1 for u in use)
        want = values(W, W.ndim, osc)
        if isinstance(out, Number):
            require(np.abs(want).max() <= 1e-8 * amp * geo, f'{op}: result is the number {out}, expected non-zero field')
            return {'nontrivial': False, 'tags': [op, 'zero']}
        require(len(out.tensorsig) == W.ndim, f'{op}: rank {len(out.tensorsig)} expected {W.ndim}')
        got = ops.grid_at(out, c['out'])
        assert_close(got, want, f"{op} rank {rank} dim {dim} bases {['FJ'[a['t'] == 'J'] if u else '-' for a, u in zip(sp['axes'], use)]}",
                     rtol=1e-9, atol=0, scale=max(np.abs(want).max(), amp * geo))
    ops.unchanged([f], snaps, op)
    return {'nontrivial': np.abs(want).max() > 1e-9, 'tags': [op, f'rank{rank}', f'dim{dim}'] + (['constant-axis'] if not all(use) else [])}


SUBS = [Sub('cartesian_operators', case, run, 6000)]
