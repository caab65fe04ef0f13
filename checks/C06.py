"""C06 expressions vs pointwise algebra on grid values."""
import numpy as np
import scipy.special as scp
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Violation, Skip, HarnessError
from vlib import spaces as V, ops
from checks.C01 import smooth_fn, max_degree, poly_fn
from checks.C03 import a_grad, EPS3
import dedalus.public as d3
from dedalus.core.evaluator import Evaluator

SC = [1.0, 1.5, 2.0]
UNARY = ['sin', 'cos', 'tan', 'exp', 'log', 'sqrt', 'tanh', 'sinh', 'cosh', 'arctan', 'arcsin', 'arcsinh', 'square', 'absolute', 'exp2', 'log10', 'log2', 'erf', 'custom', 'conj', 'sign', 'arccos', 'arctanh']
PROG = ['add', 'sub', 'mul', 'mul', 'dot', 'dot', 'cross', 'trace', 'transpose', 'skew', 'comp', 'pow', 'div', 'rdiv', 'neg', 'scale', 'addnum', 'unary', 'unary', 'general', 'npadd', 'add3', 'dotidx', 'grad', 'rsub', 'mulnp']


class Node:
    def __init__(self, e, vals, rank, deg, k, resolved, amp, axes, leaf=None, final=False, name=''):
        self.e, self.vals, self.rank, self.deg, self.k = e, vals, rank, deg, k
        self.resolved, self.amp, self.axes, self.leaf, self.final, self.name = resolved, amp, axes, leaf, final, name


def case():
    leaf = st.fixed_dictionaries({'rank': st.sampled_from([0, 0, 1, 1, 2]), 'part': st.sampled_from(['full', 'full', 'full', 'partial', 'const']), 'seed': st.integers(0, 10**6),
                                  'deg': st.sampled_from([1, 2, 1, 3]), 'sub': st.integers(0, 7),
                                  'state': st.tuples(st.sampled_from([None, 1.0, 1.5, 2.0]), st.one_of(st.none(), st.integers(0, 5))).map(list)})
    step = st.tuples(st.sampled_from(PROG), st.integers(0, 11), st.integers(0, 11), st.integers(0, 23)).map(list)
    ev = st.fixed_dictionaries({'node': st.integers(0, 30), 'how': st.sampled_from(['direct', 'direct', 'handler']), 'again': st.integers(0, 2)})
    task = st.fixed_dictionaries({'node': st.integers(0, 30), 'lay': st.sampled_from(['g', 'c', 'g']), 'scales': st.sampled_from(SC), 'h': st.integers(0, 2)})
    space = st.one_of(V.cart_space(dims=(1, 2, 3), sizes=(8, 12, 16), sizes3=(6, 8)), V.cart_space(dims=(2, 3), sizes=(12, 16), sizes3=(8,)),
                      V.curvi_polar(nphi=(12, 16), nr=(8, 10)), V.curvi_sphere(nth=(8, 12), nphi=(12, 16)),
                      V.curvi_3d(nphi=(12,), nth=(8,), nr=(8, 10), ks=(0, 1)), V.curvi_cyl())
    return st.builds(lambda sp, leaves, prog, evs, tasks, ho: {'space': sp, 'leaves': leaves, 'prog': prog, 'evals': evs, 'tasks': tasks, 'handlers_first': ho},
                     space, st.lists(leaf, min_size=1, max_size=4), st.lists(step, min_size=1, max_size=9), st.lists(ev, min_size=1, max_size=4),
                     st.lists(task, min_size=0, max_size=4), st.booleans())


def user_function(a, b, p):
    return a * b['g' if False else Ellipsis] + p if not hasattr(a, 'data') else a.data * b.data + p


def cubic(x, out=None):
    return np.add(x**3, 2 * x, out=out)


def capacity(S, node):
    sp = S.spec
    if sp['kind'] == 'cart':
        return [((a['n'] - 1) // 2 if a['t'] == 'F' else a['n'] - 1) for a in sp['axes']]
    if sp['kind'] == 'cyl':
        z = sp['z']
        return [(z['n'] - 1) // 2 if z['t'] == 'F' else z['n'] - 1, max_degree(sp['polar'], node.rank, k=node.k)]
    if sp['kind'] == 'sphere':
        return [max_degree(sp, 0)]      # band limit in ell; tangential rank-r parts of ambient degree-d tensors reach d + r
    return [max_degree(sp, node.rank, k=node.k)]


def is_resolved(S, n):
    return all(d <= c for d, c in zip(n.deg, capacity(S, n)))


def run(c):
    sp = c['space']
    S = V.build(sp)
    kind = sp['kind']
    cart = kind == 'cart'
    cs = S.cs
    pol = sp['polar'] if kind == 'cyl' else sp
    k0 = pol.get('k', 0)
    # on annuli and shells the level adds up in products and costs radial degrees; elsewhere it does not matter
    lossy = pol['kind'] in ('annulus', 'shell')
    cdim = S.dim if cart or kind in ('disk', 'annulus') else 3
    tdim = S.cs.dim
    left = 1.0 if getattr(cs, 'right_handed', True) else -1.0
    if kind in ('ball', 'shell', 'cyl'):
        left = -1.0     # (phi, theta, r) and (z, phi, r) are left-handed orthonormal frames
    elif kind == 'cart':
        left = 1.0
    naxes = S.dist.dim
    full_axes = frozenset(range(naxes))
    fullded = tuple(S.dist.Field(bases=S.bases).domain.dealias)
    gridsets = {'d': list(S.dist.local_grids(*S.bases, scales=fullded))}
    for s in SC:
        gridsets[s] = list(S.dist.local_grids(*S.bases, scales=s))

    def values(F, rank, axes):
        out = {}
        for key, g in gridsets.items():
            gg = [x if i in axes else x.reshape(-1)[:1].reshape((1,) * naxes) for i, x in enumerate(g)]
            if kind != 'cart' and axes != full_axes:
                gg = list(gg)
                # radial-only fields: components in the local frame do not depend on the angles
            out[key] = V.to_components(V.eval_tensor(F, rank, V.cart_points(S, gg), S.real), rank, V.frame(S, gg))
        return out

    pool, leaves = [], []
    for li, L in enumerate(c['leaves']):
        r = V.rng(L['seed'])
        rank, part = L['rank'], L['part']
        if kind == 'cart' and S.dim == 3:
            rank = min(rank, 1) if li else rank
        axes = full_axes
        bases = S.bases
        dmax = L['deg']
        if part == 'const':
            if not cart:
                rank = 0
            axes, bases = frozenset(), ()
            F = V.tensor(rank, cdim, lambda i: V.Fn({tuple(('p', 0) for _ in range(cdim)): complex(r.standard_normal(), 0 if S.real else r.standard_normal())}, (0,) * cdim, (1,) * cdim))
            deg = [0] * (naxes if cart else 2 if kind == 'cyl' else 1)
            kk = 0
        elif cart:
            if part == 'partial' and S.dim > 1:
                axes = frozenset(i for i in range(S.dim) if (L['sub'] >> i) & 1) or frozenset([0])
                bases = tuple(b for i, b in enumerate(S.bases) if i in axes)
            deg = []
            facs = []
            cc, ss = [], []
            for i, a in enumerate(sp['axes']):
                lo, hi = a['bounds']
                cap = (a['n'] - 1) // 2 if a['t'] == 'F' else a['n'] - 1
                d = min(dmax, cap) if i in axes else 0
                deg.append(d)
                cc.append(lo if a['t'] == 'F' else (lo + hi) / 2)
                ss.append((hi - lo) / (2 * np.pi) if a['t'] == 'F' else (hi - lo) / 2)

            def one(_):
                t = {}
                for _ in range(3):
                    key = tuple((('e', int(r.randint(-d, d + 1))) if a['t'] == 'F' and i in axes else ('p', int(r.randint(0, d + 1)))) for i, (a, d) in enumerate(zip(sp['axes'], deg)))
                    t[key] = r.standard_normal() + 1j * r.standard_normal()
                t0 = tuple(('e', 0) if a['t'] == 'F' and i in axes else ('p', 0) for i, a in enumerate(sp['axes']))
                t[t0] = t.get(t0, 0) + 2.0
                return V.Fn(t, cc, ss)
            F = V.tensor(rank, cdim, one)
            kk = 0
        else:
            d = min(dmax, max_degree(pol, rank, k=k0 if lossy else None))
            if d < 0:
                continue
            kk = k0 if lossy else 0
            if part == 'partial' and kind in ('disk', 'annulus', 'ball', 'shell'):
                rank = min(rank, 1)
                if rank == 1 and kind in ('disk', 'annulus') and False:
                    rank = 0
                axes = frozenset([naxes - 1])
                bases = (S.bases[0].radial_basis,)
                R2 = float(pol.get('radius', pol.get('radii', [0, 1])[-1]))**2
                co = r.standard_normal(2)
                nn = cdim
                lo_ = {tuple(('p', 0) for _ in range(nn)): co[0]}
                if d >= 2 + rank:
                    for i in range(nn):
                        lo_[tuple(('p', 2 if j == i else 0) for j in range(nn))] = co[1] / R2
                p0 = V.Fn(lo_, (0,) * nn, (1,) * nn)
                if d < rank:
                    continue
                F = V.tensor(rank, cdim, lambda i: p0.xmul(i[0]) if rank else p0)
                deg = [(2 if d >= 2 + rank else 0) + rank]
            elif kind == 'cyl':
                dz = min(dmax, capacity(S, Node(0, 0, 0, 0, 0, 0, 0, 0))[0])
                if dz < 0:
                    continue
                F = V.tensor(rank, 3, lambda i: smooth_low(S, r, rank, dz, d))
                deg = [dz, d]
                if part == 'partial' and rank == 0:
                    which = L['sub'] % 2
                    if which:    # polar only
                        axes, bases, deg = frozenset([1, 2]), (S.bases[1],), [0, d]
                        F = V.tensor(0, 3, lambda i: strip(F0(F), 0))
                    else:
                        axes, bases, deg = frozenset([0]), (S.bases[0],), [dz, 0]
                        F = V.tensor(0, 3, lambda i: strip(strip(F0(F), 1), 2))
                        kk = 0
            else:
                F = V.tensor(rank, cdim, lambda i: smooth_fn(S, r, rank, nterms=3, deg=d) + 1.5)
                deg = [d + (rank if kind == 'sphere' else 0)]
        f = S.dist.Field(bases=bases, tensorsig=(cs,) * rank, name=f'f{li}')
        vals = values(F, rank, axes)
        if S.real and any(abs(complex(v)) > 0 for idx in np.ndindex(*np.shape(F)) for v in np.asarray(F, dtype=object)[idx].terms.values()) is False:
            pass
        f.preset_scales(f.domain.dealias)
        f['g'] = vals['d']
        node = Node(f, vals, rank, deg, kk, True, max(np.abs(v).max() for v in vals.values()), axes, leaf=F, name=f'f{li}')
        if not is_resolved(S, node):
            continue
        ops.disturb(f, L['state'])
        leaves.append(f)
        pool.append(node)
    if not leaves:
        raise Skip('no leaf')
    snaps = ops.snapshot(leaves)
    tags = []

    def get(i):
        return pool[i % len(pool)]

    def both(n, m, fn):
        return {k: fn(n.vals[k], m.vals[k]) for k in n.vals if k in m.vals}

    def expand(v, rank, extra_lead=0, extra_trail=0):
        """Insert tensor axes for outer products."""
        sh = v.shape
        return v.reshape((1,) * extra_lead + sh[:rank] + (1,) * extra_trail + sh[rank:])

    def push(e, vals, rank, deg, k, resolved, amp, axes, final=False, name=''):
        if isinstance(e, Number) or not np.all([np.all(np.isfinite(v)) for v in vals.values()]):
            return
        m = max(np.abs(v).max() for v in vals.values())
        if m > 1e5 or rank > 3:
            return
        if not resolved:
            vals = {'d': vals['d']}
        n = Node(e, vals, rank, deg, k, resolved, max(amp, m), axes, final=final, name=name)
        if resolved and not is_resolved(S, n):
            n.resolved = False
            n.vals = {'d': vals['d']}
            if not all_grid(n):
                return
        pool.append(n)
        tags.append(name)

    def all_grid(n):
        return True

    for op, i, j, v in c['prog']:
        a, b = get(i), get(j)
        if a.final or (b.final and op in ('add', 'sub', 'mul', 'dot', 'cross', 'div', 'npadd', 'add3', 'dotidx', 'general', 'rsub')):
            continue
        if op in ('add', 'sub', 'npadd', 'rsub', 'add3'):
            if a.rank != b.rank:
                continue
            final = False
            if not (a.resolved and b.resolved):
                if a.axes != b.axes or getattr(a.e, 'domain', None) is not getattr(b.e, 'domain', None):
                    continue
                if a.resolved:      # first operand sets the layout: the sum may be formed on coefficients, i.e. truncated
                    final = True
                    if lossy or not cart:
                        continue
            polar = kind in ('disk', 'annulus') and a.axes and b.axes   # radial fields are promoted in polar domains
            if not cart and a.rank and (a.axes != b.axes) and not polar:
                continue            # tensors on different curvilinear domains are not promoted
            if not cart and a.axes != b.axes and not (a.axes == frozenset() or b.axes == frozenset() or kind == 'cyl' or polar):
                continue
            if op == 'add':
                e, fn = a.e + b.e, lambda x, y: x + y
            elif op == 'sub':
                e, fn = a.e - b.e, lambda x, y: x - y
            elif op == 'npadd':
                e, fn = (np.add(a.e, b.e), lambda x, y: x + y) if v % 2 else (np.subtract(a.e, b.e), lambda x, y: x - y)
            elif op == 'rsub':
                if final or not (a.resolved and b.resolved):
                    continue
                e, fn = b.e - (a.e - b.e), lambda x, y: 2 * y - x
            else:
                if final:
                    continue
                e, fn = sum([a.e, b.e, a.e]), lambda x, y: 2 * x + y
            if isinstance(e, Number):
                continue
            push(e, both(a, b, fn), a.rank, [max(p, q) for p, q in zip(a.deg, b.deg)], max(a.k, b.k), a.resolved and b.resolved, a.amp + b.amp, a.axes | b.axes, final, op)
        elif op in ('mul', 'dot', 'cross', 'dotidx'):
            k = a.k + b.k
            deg = [p + q for p, q in zip(a.deg, b.deg)]
            if op == 'mul':
                if a.rank + b.rank > 2 and not (cart and S.dim < 3 and a.rank + b.rank == 3):
                    continue
                e = a.e * b.e if v % 3 else np.multiply(a.e, b.e)
                vals = both(a, b, lambda x, y: expand(x, a.rank, 0, b.rank) * expand(y, b.rank, a.rank, 0))
                rank = a.rank + b.rank
            elif op in ('dot', 'dotidx'):
                if a.rank < 1 or b.rank < 1 or a.rank + b.rank > 4:
                    continue
                ia, ib = (-1, 0) if op == 'dot' else (v % a.rank, (v // 3) % b.rank)
                if op == 'dotidx' and v % 5 == 0:
                    ia, ib = ia - a.rank, ib - b.rank
                e = [a.e @ b.e, d3.dot(a.e, b.e), d3.DotProduct(a.e, b.e)][v % 3] if op == 'dot' else d3.DotProduct(a.e, b.e, indices=(ia, ib))
                rank = a.rank + b.rank - 2

                def fn(x, y):
                    x = np.moveaxis(x, ia % a.rank, a.rank - 1)
                    y = np.moveaxis(y, ib % b.rank, 0)
                    x = x.reshape(x.shape[:a.rank] + (1,) * (b.rank - 1) + x.shape[a.rank:])
                    y = y.reshape((1,) * (a.rank - 1) + y.shape)
                    return (x * y).sum(axis=a.rank - 1)
                vals = both(a, b, fn)
            else:
                if a.rank != 1 or b.rank != 1 or tdim != 3:
                    continue
                e = d3.cross(a.e, b.e) if v % 2 else d3.CrossProduct(a.e, b.e)
                vals = both(a, b, lambda x, y: left * np.array([x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0]]))
                rank = 1
            push(e, vals, rank, deg, k, a.resolved and b.resolved, a.amp * b.amp * 3, a.axes | b.axes, name=op)
        elif op == 'trace':
            if a.rank < 2 or kind == 'sphere' or (not a.resolved and not cart):
                continue
            push(d3.trace(a.e), {k: np.trace(x, axis1=0, axis2=1) if x.ndim == 2 else np.einsum('ii...->...', x) for k, x in a.vals.items()}, a.rank - 2, a.deg, a.k, a.resolved, a.amp * 3, a.axes, name=op)
        elif op == 'transpose':
            if a.rank < 2 or (not a.resolved and not cart):
                continue
            ix = [(0, 1), (1, 0), (-2, -1), (0, a.rank - 1)][v % 4]
            if not cart and a.rank > 2:
                continue
            e = d3.transpose(a.e) if v % 5 == 0 else d3.TransposeComponents(a.e, indices=ix)
            ix = (0, 1) if v % 5 == 0 else tuple(q % a.rank for q in ix)
            push(e, {k: np.swapaxes(x, *ix) for k, x in a.vals.items()}, a.rank, a.deg, a.k, a.resolved, a.amp, a.axes, name=op)
        elif op == 'skew':
            if tdim != 2 or a.rank < 1 or (not a.resolved and not cart) or a.axes != full_axes:
                continue
            ix = v % a.rank

            def fn(x):
                w = np.moveaxis(x, ix, 0)
                sg = 1.0 if cart else -1.0
                return np.moveaxis(np.array([-sg * w[1], sg * w[0]]), 0, ix)
            push(d3.skew(a.e) if ix == 0 and v % 2 else d3.Skew(a.e, index=ix), {k: fn(x) for k, x in a.vals.items()}, a.rank, a.deg, a.k, a.resolved, a.amp, a.axes, name=op)
        elif op == 'comp':
            if not cart or a.rank < 1:
                continue
            ix = v % a.rank
            q = (v // 3) % tdim
            if v % 2:
                from dedalus.core.operators import CartesianComponent
                e = CartesianComponent(a.e, index=ix, comp=cs.coords[q])
            else:
                ex = S.dist.VectorField(cs, name='ex')
                ex['g'][q] = 1
                e = d3.DotProduct(a.e, ex, indices=(ix, 0))
            push(e, {k: np.take(x, q, axis=ix) for k, x in a.vals.items()}, a.rank - 1, a.deg, a.k, a.resolved, a.amp, a.axes, name=op)
        elif op == 'pow':
            if a.rank:
                continue
            p = [2, 3, 0.5, -1, -2, 2.0, 1, 0, 1.5][v % 9]
            m = np.abs(a.vals['d']).min()
            if p in (0.5, 1.5) and (S.real and a.vals['d'].min() < 0.05):
                continue
            if p < 1 and m < 0.05 or p == 1.5 and m < 0.05:
                continue
            if p == 0:
                require(a.e**0 == 1 and not hasattr(a.e**0, 'tensorsig'), 'f**0 is not 1')
                continue
            poly = p in (1, 2, 3)
            e = a.e**p if v % 2 or p in (0, 1) else np.power(a.e, p)
            with np.errstate(all='ignore'):
                vals = {k: x**p for k, x in a.vals.items()}
            push(e, vals, 0, [d * (p if poly else 1) for d in a.deg], a.k * 1, a.resolved and poly, a.amp**max(p, 1) * (1 if p >= 1 else 400), a.axes, name=f'pow{p}')
        elif op in ('div', 'rdiv'):
            if b.rank or np.abs(b.vals['d']).min() < 0.05:
                continue
            if op == 'div':
                e = a.e / b.e if v % 2 else np.divide(a.e, b.e)
                vals = {'d': a.vals['d'] / b.vals['d']}
                push(e, vals, a.rank, a.deg, a.k + b.k, False, a.amp * 400, a.axes | b.axes, name=op)
            else:
                if not (isinstance(b.e, Number)):
                    push(2.5 / b.e, {'d': 2.5 / b.vals['d']}, 0, b.deg, b.k, False, 1000, b.axes, name=op)
        elif op == 'neg':
            push(-a.e if v % 2 else np.negative(a.e) if False else -a.e, {k: -x for k, x in a.vals.items()}, a.rank, a.deg, a.k, a.resolved, a.amp, a.axes, name=op)
        elif op in ('scale', 'mulnp'):
            s = [2, -0.5, 3.25, 1.5, 1, 0.1][v % 6]
            if not S.real and v % 4 == 3:
                s = s + 0.5j
            if op == 'mulnp':
                s = np.complex128(s) if isinstance(s, complex) else np.float64(s)
            e = [a.e * s, s * a.e, a.e / (1 / s)][v % 3]
            push(e, {k: x * s for k, x in a.vals.items()}, a.rank, a.deg, a.k, a.resolved, a.amp * 4, a.axes, name=op)
        elif op == 'addnum':
            if a.rank and not cart:
                continue
            if not a.resolved and not cart:
                continue
            s = [2, -0.5, 3.25, 1.5, 0, 0.1][v % 6]
            e = [a.e + s, s + a.e, a.e - (-s), s - (-a.e)][v % 4] if a.resolved else a.e + s
            push(e, {k: x + s for k, x in a.vals.items()}, a.rank, a.deg, a.k, a.resolved, a.amp + 4, a.axes, name=op)
        elif op == 'unary':
            nm = UNARY[(v + 7 * j) % len(UNARY)]
            x = a.vals['d']
            if a.rank and not cart:
                continue
            if nm in ('log', 'sqrt', 'log10', 'log2') and (np.abs(x).min() < 0.05 or S.real and x.min() < 0.05 or not S.real and np.any((np.abs(x.imag) < 1e-6) & (x.real < 0))):
                continue
            if nm in ('arcsin', 'arccos', 'arctanh') and np.abs(x).max() > 0.95:
                continue
            if nm in ('tan', 'arctan', 'arcsinh') and (not S.real or nm == 'tan' and np.abs(np.cos(x)).min() < 0.1):
                continue
            if nm in ('sign',) and np.abs(x).min() < 1e-3 or nm == 'sign' and not S.real:
                continue
            if nm in ('exp', 'sinh', 'cosh', 'exp2') and np.abs(x).max() > 8 or np.abs(x).max() > 20:
                continue
            if nm == 'erf' and not S.real:
                continue
            if nm in ('exp2', 'tanh', 'log2') and not S.real:
                continue
            if nm == 'absolute' and not S.real:
                continue
            if nm == 'custom':
                e, w = d3.UnaryGridFunction(cubic, a.e), cubic(x)
            elif nm == 'erf':
                e, w = scp.erf(a.e), scp.erf(x)
            elif nm == 'conj':
                e, w = np.conjugate(a.e), np.conj(x)
            elif nm == 'absolute':
                e, w = abs(a.e), np.abs(x)
            else:
                uf = getattr(np, nm)
                e = [uf(a.e), d3.UnaryGridFunction(uf, a.e)][v % 2]
                w = uf(x)
            push(e, {'d': w}, a.rank, a.deg, a.k, False, max(1, a.amp) * 50, a.axes, name='u:' + nm)
        elif op == 'general':
            if a.axes != b.axes or a.rank != b.rank or a.rank > 1 or a.axes == frozenset():
                continue
            if getattr(a.e, 'domain', None) is not getattr(b.e, 'domain', None):
                continue
            calls = []

            def gf(x, y, p, q=0):
                calls.append(1)
                return np.array(x['g']) * np.array(y['g']) + p - q
            gf.__name__ = 'gf'
            e = d3.GeneralFunction(S.dist, a.e.domain, a.e.tensorsig, S.dtype, 'g', gf, args=[a.e, b.e, 0.5], kw={'q': 0.25})
            push(e, {'d': a.vals['d'] * b.vals['d'] + 0.25}, a.rank, a.deg, a.k, False, a.amp * b.amp + 1, a.axes, name=op)
        elif op == 'grad':
            if a.leaf is None or a.axes == frozenset() or kind == 'sphere' or a.rank > 1:
                continue
            if a.axes != full_axes:
                continue
            F = np.asarray(a.leaf, dtype=object)
            if a.rank == 0 and F.shape == ():
                pass
            G = a_grad(F, cdim)
            geo = 30.0
            kk = a.k + (1 if lossy else 0)
            if not is_resolved(S, Node(None, None, a.rank + 1, a.deg, kk, True, 0, a.axes)):
                continue        # a differential operator works on coefficients: its truncated output is not pointwise
            push(d3.grad(a.e), values(G, a.rank + 1, a.axes), a.rank + 1, a.deg, kk, True, a.amp * geo, a.axes, name=op)
    nontriv = False

    def check(n, got, key, what):
        W = n.vals[key]
        want_rank_shape = got.shape[:n.rank]
        require(len(got.shape) == n.rank + naxes, f'{what}: data of {n.name} has {len(got.shape)} dimensions, expected {n.rank + naxes}')
        assert_close(got, np.broadcast_to(W, np.broadcast_shapes(W.shape, got.shape)), f'{what} ({n.name}: {n.e})', rtol=1e-9, atol=0, scale=n.amp)

    def direct(evs):
        nonlocal nontriv
        for ev in evs:
            n = get(ev['node'])
            if ev['how'] == 'handler':
                n = pool[-1]
            if isinstance(n.e, Number):
                continue
            for _ in range(1 + ev['again']):
                if hasattr(n.e, 'evaluate'):
                    out = n.e.evaluate()
                else:
                    out = n.e.copy()
                    out.change_scales(fullded)
                require(tuple(out.tensorsig) == (cs,) * n.rank, f'tensor signature {out.tensorsig} of {n.e}')
                if n.final:
                    T = S.dist.Field(bases=out.domain.bases, tensorsig=out.tensorsig)
                    T.preset_scales(out.domain.dealias)
                    T['g'] = np.broadcast_to(n.vals['d'], T['g'].shape)
                    out.change_scales(1)
                    assert_close(np.array(out['c']), np.array(T['c']), f'projected sum {n.e}', rtol=1e-8, atol=0, scale=n.amp * 10)
                elif n.resolved:
                    sc = SC[(ev['node'] + ev['again']) % 3]
                    out.change_scales(sc)
                    check(n, np.array(out['g']), sc, 'evaluation')
                else:
                    check(n, np.array(out['g']), 'd', 'evaluation')
            nontriv |= n.leaf is None and np.abs(n.vals['d']).max() > 1e-9

    def handlers():
        nonlocal nontriv
        if not c['tasks']:
            return
        ev = Evaluator(S.dist, {})
        hs = [ev.add_dictionary_handler(iter=1), ev.add_dictionary_handler(iter=1), ev.add_system_handler(iter=1)]
        tasks = []
        for t, tk in enumerate(c['tasks']):
            n = get(tk['node'])
            if isinstance(n.e, Number) or not n.resolved or n.final:
                continue
            h = tk['h']
            if h == 2 and (n.leaf is not None or any(x[2] == 2 and x[0] is n for x in tasks)):
                h = 0
            if h == 2:
                h = 1   # system handlers set the output of an operator in place: exercised by the solvers
            hs[h].add_task(n.e, layout=tk['lay'], name=f't{t}', scales=tk['scales'])
            tasks.append((n, t, h, tk))
        if not tasks:
            return
        for rep in range(2):
            ev.evaluate_handlers(hs)
            for n, t, h, tk in tasks:
                out = hs[h][f't{t}']
                require(out.layout is S.dist.get_layout_object(tk['lay']), f'task in layout {out.layout}, requested {tk["lay"]}')
                require(tuple(out.tensorsig) == (cs,) * n.rank, f'tensor signature of task {n.e}')
                if tk['lay'] == 'c':
                    out = out.copy()
                got = np.array(out['g'])
                check(n, got, tk['scales'], 'task')
                nontriv |= n.leaf is None
        tags.append('handlers')
    if c['handlers_first']:
        handlers()
        direct(c['evals'])
    else:
        direct(c['evals'])
        handlers()
    ops.unchanged(leaves, snaps, 'expression evaluation')
    return {'nontrivial': bool(nontriv), 'tags': sorted(set(tags)) + [kind, 'nodes%d' % min(len(pool), 9)]}


def F0(F):
    return np.asarray(F, dtype=object)[()]


def strip(F, i):
    """Drop the dependence on variable i."""
    t = {}
    for k, v in F.terms.items():
        key = k[:i] + (('p', 0),) + k[i+1:]
        t[key] = t.get(key, 0) + v
    return F.like(t)


def smooth_low(S, r, rank, dz, d):
    p = poly_fn(r, 2, d, 3, True)
    from checks.C01 import axis_cs
    z = S.spec['z']
    c, s = axis_cs(z)
    t = {}
    for k2, v in p.terms.items():
        f = ('e', int(r.randint(-dz, dz + 1))) if z['t'] == 'F' else ('p', int(r.randint(0, dz + 1)))
        t[(f,) + k2] = v
    key = (('e', 0) if z['t'] == 'F' else ('p', 0), ('p', 0), ('p', 0))
    t[key] = t.get(key, 0) + 1.5
    return V.Fn(t, (c, 0, 0), (s, 1, 1))


SUBS = [Sub('expressions', case, run, 2800)]
