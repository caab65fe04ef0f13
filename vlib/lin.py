"""Generated square linear systems (boundary value, initial value and eigenvalue problems share them)."""
import itertools
import numpy as np
from hypothesis import strategies as st
from vlib import spaces as V
from vlib.core import Skip, HarnessError
from vlib.nccs import shift_mask, low_mask, radial_ncc
import dedalus.public as d3
import dedalus.core.basis as dbasis

FORMS = ['helm', 'helm', 'helm', 'first', 'gauge', 'stokes', 'pair', 'cond']


def spaces_st(kinds=('cart', 'cart', 'cart', 'polar', 'sphere', '3d'), dtypes=('r', 'c'), small=False, dealias=(1.5, 2.0)):
    fa = V.fourier_axis(sizes=(4, 6, 8), dealias=dealias)
    ja = V.jacobi_axis(sizes=(6, 8, 10, 12), dealias=dealias, params=[(-0.5, -0.5), (0, 0), (-0.5, 0.5), (0.5, 0.5)], dk=(0, 1))
    ja3 = V.jacobi_axis(sizes=(6, 8), dealias=dealias, params=[(-0.5, -0.5), (0, 0)], dk=(0,))
    fa3 = V.fourier_axis(sizes=(4,), dealias=dealias)
    dt = st.sampled_from(list(dtypes))
    def mk(dt, j, fs, pos):
        ax = list(fs)
        if j is not None:
            ax.insert(pos % (len(ax) + 1), j)
        return {'kind': 'cart', 'dtype': dt, 'axes': ax}
    last = st.sampled_from([9, 9, 0, 1])   # mostly last axis
    c1 = st.builds(lambda d, j: mk(d, j, [], 0), dt, ja)
    c2 = st.builds(lambda d, j, f, p: mk(d, j, [f], 1 if p == 9 else p), dt, ja, fa, last)
    c3 = st.builds(lambda d, j, f, g, p: mk(d, j, [f, g], 2 if p == 9 else p), dt, ja3, fa3, fa3, last)
    cf = st.builds(lambda d, f: mk(d, None, f, 0), dt, st.lists(fa3 if small else fa, min_size=1, max_size=2))
    d2 = tuple((d, d) for d in dealias)
    d3_ = tuple((d, d, d) for d in dealias)
    out = []
    for k in kinds:
        if k == 'cart':
            out.append(st.one_of(c1, c2, c2, cf) if small else st.one_of(c1, c2, c2, c3, cf))
        elif k == 'polar':
            out.append(V.curvi_polar(dtypes=dtypes, nphi=(8,) if small else (8, 12), nr=(6, 8), dealias=d2, ks=(0,)))
        elif k == 'sphere':
            out.append(V.curvi_sphere(dtypes=dtypes, nphi=(8,) if small else (8, 12), nth=(6, 8), dealias=d2))
        elif k == '3d':
            out.append(V.curvi_3d(dtypes=dtypes, nphi=(8,), nth=(4, 6), nr=(6, 8), dealias=d3_, ks=(0,)))
    return st.one_of(*out)


def system_st(forms=tuple(FORMS), **kw):
    return st.fixed_dictionaries({'space': spaces_st(**kw), 'form': st.sampled_from(list(forms)), 'rank': st.sampled_from([0, 0, 1]),
                                  'bc': st.lists(st.integers(0, 2), min_size=2, max_size=2), 'co': st.lists(st.integers(0, 4), min_size=3, max_size=3),
                                  'ncc': st.sampled_from([0, 0, 1, 2]), 'perm': st.integers(0, 5039), 'seed': st.integers(0, 10**6)})


class Sys:
    pass


def reorder(items, n):
    """n-th permutation (Lehmer code) of a list."""
    items = list(items)
    out = []
    for i in range(len(items), 0, -1):
        n, j = divmod(n, i)
        out.append(items.pop(j))
    return out


def build(c, mesh=None, comm=None):
    sp = c['space']
    S = V.build(sp, mesh=mesh, comm=comm)
    kind, cs, dist = sp['kind'], S.cs, S.dist
    cart = kind == 'cart'
    r = V.rng(c['seed'])
    A = [1.0, 2.0, 0.5, 5.0, 30.0][c['co'][0]]
    B = [1.0, 0.3, 2.0, 0.05, 1.0][c['co'][1]]
    C = [0.0, 0.4, -0.7, 1.0, 0.0][c['co'][2]]
    form, rank = c['form'], c['rank']
    sys = Sys()
    sys.fixed = []
    sys.S, sys.spec, sys.cs, sys.dist, sys.nccs, sys.tags = S, c, cs, dist, [], [kind, sp['dtype']]
    naxes = dist.dim
    budget = np.zeros(naxes, int)
    # --- geometry: boundaries and lifts
    if cart:
        jax = [i for i, a in enumerate(sp['axes']) if a['t'] == 'J']
        ntau = 2 if jax else 0
        if jax:
            j = jax[0]
            zc, zb = cs.coords[j], S.bases[j]
            tbases = tuple(b for i, b in enumerate(S.bases) if i != j)
            lo, hi = sp['axes'][j]['bounds']
            ends = [(-1, 'left'), (1, 'right')]
            def lift(t, n, order):
                return d3.lift(t, zb.derivative_basis(order), n)
            def at(e, end):
                return d3.Interpolate(e, zc, end)
            def dn(e):
                return d3.Differentiate(e, zc)
            nvec = dist.VectorField(cs, name='nvec')
            nvec['g'][j] = 1
            sys.fixed.append(nvec)
    elif kind == 'sphere':
        ntau = 0
    else:
        b = S.bases[0]
        if kind in ('disk', 'ball'):
            ntau = 1
            tbases = (b.edge if kind == 'disk' else b.surface,)
            ends = [(1, sp['radius'])]
        else:
            ntau = 2
            tbases = (b.outer_edge if kind == 'annulus' else b.outer_surface,)
            ends = [(-1, sp['radii'][0]), (1, sp['radii'][1])]
        rc = cs.coords[-1]
        def lift(t, n, order):
            return d3.lift(t, b.derivative_basis(order) if kind in ('annulus', 'shell') else b, n)
        def at(e, end):
            return d3.Interpolate(e, rc, end)
        if kind in ('annulus', 'shell'):
            nvec = dist.VectorField(cs, bases=b.radial_basis, name='nvec')
            nvec.change_scales(1)
            nvec['g'][-1] = dist.local_grids(b, scales=1)[-1]
            sys.fixed.append(nvec)
    if form in ('first', 'stokes') and ntau == 0:
        form = 'helm'
    if form == 'stokes' and cart and S.dim < 2:
        form = 'helm'
    if form == 'stokes' and cart and S.dim == 3:
        form = 'pair'
    if form == 'cond' and ntau:
        form = 'helm'
    if form == 'gauge' and kind == 'sphere':
        form = 'cond'
    if form in ('gauge', 'cond'):
        rank = 0
    if form == 'first' and rank and cart and S.dim == 3:
        rank = 0
    if kind in ('ball', 'shell') and form == 'first':
        rank = 0
    sys.form = form
    sys.vars, sys.eqs, sys.main, sys.taus = [], [], [], []

    def var(name, rk, bases, main=False):
        f = dist.Field(bases=bases, tensorsig=(cs,) * rk, name=name)
        sys.vars.append(f)
        (sys.main if main else sys.taus).append(f)
        return f

    def eq(lhs, m=None, cond=None, zero=False):
        sys.eqs.append({'lhs': lhs, 'm': m, 'cond': cond, 'zero': zero})

    def bc(e, grade, k):
        """Boundary conditions of one second order variable (Dirichlet, Neumann, Robin)."""
        for side, end in ends:
            kk = k[0 if side < 0 else 1]
            rk = len(e.tensorsig)
            if not cart and rk:
                kk = 0
            if kk == 0 or form == 'stokes':
                eq(at(e, end))
            else:
                d = dn(e) if cart else d3.radial(at(d3.grad(e), end))
                if cart:
                    d = at(d, end)
                eq(d if kk == 1 else (d + side * at(e, end)))

    def taus(name, rk, order=2):
        t = [var(f'{name}{i}', rk, tbases) for i in range(ntau)]
        L = sum(lift(x, -1 - i, order) for i, x in enumerate(t)) if t else 0
        return t, L

    def ncc():
        """Positive scalar coefficient in a supported direction."""
        q = c['ncc']
        if cart:
            jb = S.bases[j] if jax else S.bases[-1]
            ax = j if jax else naxes - 1
            f = dist.Field(bases=jb, name=f'n{len(sys.nccs)}')
        elif kind in ('disk', 'annulus', 'ball', 'shell'):
            f, ax = dist.Field(bases=S.bases[0].radial_basis, name=f'n{len(sys.nccs)}'), naxes - 1
        else:
            f, ax = dist.Field(bases=S.bases[0].latitude_basis, name=f'n{len(sys.nccs)}'), 1
        if kind in ('ball', 'shell'):
            radial_ncc(f, 0, S.bases[0].radial_basis, q, r)
        else:
            V.random_coeffs(f, r)
            f.data[~low_mask(f, [q] * naxes)] = 0
        f.change_scales(1)
        g = f['g']
        big = np.abs(g).max(initial=0)
        f['g'] = 1 + 0.4 * g / max(big, 1e-3)
        budget[ax] += q + (1 if kind == 'ball' else 2 if kind in ('annulus', 'shell') else 0)
        sys.nccs.append(f)
        return f

    # --- forms
    n = None
    use_ncc = c['ncc'] and form in ('helm', 'first', 'pair')
    if use_ncc and cart and not jax and S.real is False and False:
        use_ncc = 0
    if form == 'helm':
        u = var('u', rank, S.bases, True)
        t, L = taus('t', rank)
        e = A * u - B * d3.lap(u)
        if cart and C:
            e = e + C * d3.Differentiate(u, cs.coords[-1])
        if use_ncc:
            e = e + ncc() * u
        eq(e + L if ntau else e, m=u)
        if ntau:
            bc(u, None, c['bc'])
    elif form == 'first':
        u = var('u', rank, S.bases, True)
        t1, t2 = var('t1', rank, tbases), None
        if ntau == 2:
            t2 = var('t2', rank, tbases)
            gu = d3.grad(u) + nvec * lift(t1, -1, 1)
            e = A * u - B * d3.div(gu) + lift(t2, -1, 1)
        else:
            e = A * u - B * d3.div(d3.grad(u)) + lift(t1, -1, 1)
        if use_ncc:
            e = e + ncc() * u
        eq(e, m=u)
        bc(u, None, c['bc'])
    elif form == 'gauge':
        u = var('u', 0, S.bases, True)
        k = var('k', 0, (), True)
        t, L = taus('t', 0)
        e = d3.lap(u) + k
        eq(e + L if ntau else e)
        if ntau:
            bc(u, None, [1, 1])
        eq(d3.integ(u))
    elif form == 'stokes':
        u = var('u', 1, S.bases, True)
        p = var('p', 0, S.bases, True)
        tp = var('tp', 0, ())
        if ntau == 2:
            t1, t2 = var('t1', 1, tbases), var('t2', 1, tbases)
            gu = d3.grad(u) + nvec * lift(t1, -1, 1)
            eq(d3.trace(gu) + tp)
            eq(A * u - B * d3.div(gu) + d3.grad(p) + lift(t2, -1, 1), m=u)
        else:
            t1 = var('t1', 1, tbases)
            eq(d3.div(u) + tp)
            eq(A * u - B * d3.lap(u) + d3.grad(p) + lift(t1, -1, 2), m=u)
        bc(u, None, [0, 0])
        eq(d3.integ(p))
    elif form == 'pair':
        s = var('s', 0, S.bases, True)
        u = var('u', 1, S.bases, True)
        t, Ls = taus('t', 0)
        w, Lu = taus('w', 1)
        e = A * s - B * d3.lap(s) + 0.3 * d3.div(u)
        if use_ncc:
            e = e + ncc() * s
        eq(e + Ls if ntau else e, m=s)
        e = A * u - 0.5 * d3.lap(u) + C * d3.grad(s)
        eq(e + Lu if ntau else e, m=u)
        if ntau:
            bc(s, None, c['bc'])
            bc(u, None, [0, 0])
    elif form == 'cond':
        u = var('u', 0, S.bases, True)
        if kind == 'sphere':
            conds = ('ntheta!=0', 'ntheta==0')
        else:
            nm = [x.name for x in cs.coords]
            conds = (' or '.join(f'n{x}!=0' for x in nm), ' and '.join(f'n{x}==0' for x in nm))
        eq(d3.lap(u), cond=conds[0])
        eq(2 * u, cond=conds[1])
    else:
        raise HarnessError(form)
    sys.budget = budget
    sys.tags.append(form + str(rank))
    for i, e in enumerate(sys.eqs):
        e['id'] = i
    sys.vars = reorder(sys.vars, c['perm'])
    sys.eqs = reorder(sys.eqs, c['perm'] // 7)
    # fully separable conditions need every axis separable
    sys.coupling = None
    return sys


def consistent(f):
    """Project out redundant parts of real tensor coefficients (round trip on a fine grid)."""
    if f.domain.bases:
        f.change_scales(2)
        f['g'], f['c']
    return f


def exact(sys, r, decay=True):
    """Random exact data: main variables random (with headroom for coefficients), tau variables zero."""
    for f in sys.main:
        V.random_coeffs(f, r)
        f.data[~shift_mask(f, sys.budget)] = 0
        consistent(f)
    for f in sys.taus:
        f['c'] = 0
    return [f['c'].copy() for f in sys.vars]


def add_axis_couplings(coup, extra, kind):
    return coup


COUPLE_BITS = 3


def full_coupling(sys, base, extra):
    """A permissible superset of the problem's own coupling."""
    coup = np.array(base, dtype=bool)
    if sys.spec['space']['kind'] == 'cart':
        for i in range(len(coup)):
            if (extra >> i) & 1:
                coup[i] = True
    if not coup.any():
        coup[-1] = True
    return tuple(bool(x) for x in coup)
