"""Spaces (coordinates + distributor + bases) built from JSON-able specs, and analytic functions on them."""
import json, itertools
import numpy as np
from functools import reduce
from vlib.core import Violation, HarnessError, Skip
from hypothesis import strategies as st
import dedalus.public as d3
from dedalus.core import basis as dbasis, field as dfield, operators as dop

NAMES = 'xyz'


# --------------------------------------------------------------- analytic functions
class Fn:
    """Sum of products of 1D factors in affine variables.

    terms: {(f0, f1, ...): coeff}, f = ('p', n) -> t**n or ('e', k) -> exp(1j*k*t);
    t_i = (x_i - c_i)/s_i.  Real-valued functions are the real part of the sum.
    """
    def __init__(self, terms, c, s):
        self.terms = {k: v for k, v in terms.items() if v != 0}
        self.c = tuple(c)
        self.s = tuple(s)

    @property
    def dim(self):
        return len(self.c)

    def like(self, terms):
        return Fn(terms, self.c, self.s)

    def __add__(self, o):
        if not isinstance(o, Fn):
            o = self.const(o)
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t.get(k, 0) + v
        return self.like(t)
    __radd__ = __add__

    def const(self, v, kinds=None):
        return self.like({tuple(('p', 0) for _ in self.c): v})

    def __mul__(self, o):
        if not isinstance(o, Fn):
            return self.like({k: v * o for k, v in self.terms.items()})
        t = {}
        for k1, v1 in self.terms.items():
            for k2, v2 in o.terms.items():
                key = []
                for f, g in zip(k1, k2):
                    if f[0] == g[0]:
                        key.append((f[0], f[1] + g[1]))
                    elif f == ('p', 0) or (f[0] == 'e' and f[1] == 0):
                        key.append(g)
                    elif g == ('p', 0) or (g[0] == 'e' and g[1] == 0):
                        key.append(f)
                    else:
                        raise HarnessError('mixed product')
                key = tuple(key)
                t[key] = t.get(key, 0) + v1 * v2
        return self.like(t)
    __rmul__ = __mul__

    def __neg__(self):
        return self * (-1)

    def __sub__(self, o):
        return self + (-1) * o

    def diff(self, i):
        t = {}
        for k, v in self.terms.items():
            f = k[i]
            if f[0] == 'p':
                if f[1] == 0:
                    continue
                g, w = ('p', f[1] - 1), v * f[1]
            else:
                g, w = f, v * 1j * f[1]
            key = k[:i] + (g,) + k[i+1:]
            t[key] = t.get(key, 0) + w / self.s[i]
        return self.like(t)

    def __call__(self, *X):
        out = 0
        T = [(x - c) / s for x, c, s in zip(X, self.c, self.s)]
        cache = {}
        def fac(i, f):
            if (i, f) not in cache:
                cache[i, f] = T[i]**f[1] if f[0] == 'p' else np.exp(1j * f[1] * T[i])
            return cache[i, f]
        for k, v in self.terms.items():
            p = v
            for i, f in enumerate(k):
                p = p * fac(i, f)
            out = out + p
        return out + 0 * sum(T)

    def xmul(self, i):
        """Multiply by the physical coordinate x_i (polynomial axes)."""
        t = {}
        for k, v in self.terms.items():
            f = k[i]
            if f[0] == 'e':
                if f[1] != 0:
                    raise HarnessError('xmul on exponential')
                f = ('p', 0)
            k0 = k[:i] + (f,) + k[i+1:]
            k1 = k[:i] + (('p', f[1] + 1),) + k[i+1:]
            t[k1] = t.get(k1, 0) + v * self.s[i]
            t[k0] = t.get(k0, 0) + v * self.c[i]
        return self.like(t)

    def lap(self, axes=None):
        axes = range(self.dim) if axes is None else axes
        return reduce(lambda a, b: a + b, [self.diff(i).diff(i) for i in axes])


def tensor(rank, dim, fn):
    """Object array of Fn."""
    out = np.empty((dim,) * rank, dtype=object)
    for idx in np.ndindex(*out.shape):
        out[idx] = fn(idx)
    return out


# --------------------------------------------------------------- specs
def bounds_st():
    """Bounds: generic left end and length."""
    return st.tuples(st.sampled_from([0.0, -1.0, 1.0, 0.5, -2.25, 3.0]), st.sampled_from([2.0, 1.0, 2 * np.pi, 0.7, 4.5])).map(lambda t: [t[0], t[0] + t[1]])

DEALIAS = [1.0, 1.5, 2.0, 1.25]


def fourier_axis(sizes=(8, 4, 6, 12, 16, 10), dealias=DEALIAS, libs=(None,)):
    return st.fixed_dictionaries({'t': st.just('F'), 'n': st.sampled_from(list(sizes)), 'bounds': bounds_st(),
                                  'd': st.sampled_from(list(dealias)), 'lib': st.sampled_from(list(libs))})


JAC = [(-0.5, -0.5), (0, 0), (0.5, 0.5), (-0.5, 0.5), (1, 0), (0, 2), (1.5, 1.5)]


def jacobi_axis(sizes=(8, 6, 5, 12, 9, 16), dealias=DEALIAS, params=JAC, dk=(0, 1, 2)):
    """Jacobi axis: grid parameters (a0, b0) and polynomial parameters a >= a0, b >= b0."""
    def mk(n, bounds, d, p, ka, kb):
        return {'t': 'J', 'n': n, 'bounds': bounds, 'd': d, 'a0': p[0], 'b0': p[1], 'a': p[0] + ka, 'b': p[1] + kb, 'lib': None}
    return st.builds(mk, st.sampled_from(list(sizes)), bounds_st(), st.sampled_from(list(dealias)), st.sampled_from(list(params)),
                     st.sampled_from(list(dk)), st.sampled_from(list(dk)))


def axis_st(**kw):
    return st.one_of(fourier_axis(**{k: v for k, v in kw.items() if k in ('sizes', 'dealias')}), jacobi_axis(**kw))


def cart_space(dims=(1, 2, 3), dtypes=('r', 'c'), axis=None, sizes3=(4, 6, 8), max_jacobi=3, **kw):
    """Cartesian space: list of axes, possibly with no basis on some (None)."""
    def axes(dim):
        akw = dict(kw)
        if dim == 3:
            akw['sizes'] = sizes3
        return st.lists(axis or axis_st(**akw), min_size=dim, max_size=dim)
    return st.builds(lambda dt, ax: {'kind': 'cart', 'dtype': dt, 'axes': ax}, st.sampled_from(list(dtypes)),
                     st.sampled_from(list(dims)).flatmap(axes))


def NP(dt):
    return {'r': np.float64, 'c': np.complex128}[dt]


def make_axis_basis(coord, ax, dtype):
    if ax['t'] == 'F':
        cls = d3.RealFourier if dtype == np.float64 else d3.ComplexFourier
        return cls(coord, size=ax['n'], bounds=tuple(ax['bounds']), dealias=ax['d'], library=ax.get('lib'))
    return d3.Jacobi(coord, size=ax['n'], bounds=tuple(ax['bounds']), a=ax['a'], b=ax['b'], a0=ax['a0'], b0=ax['b0'],
                     dealias=ax['d'], library=ax.get('lib'))


class Space:
    """coords cs, dist, list of bases, Cartesian structure for oracles."""
    pass


def _polar_basis(cs, sp, dtype):
    kw = dict(dealias=tuple(sp['dealias']), dtype=dtype, k=sp.get('k', 0))
    if sp['kind'] == 'disk':
        return d3.DiskBasis(cs, tuple(sp['shape']), radius=sp['radius'], alpha=sp.get('alpha', 0), **kw)
    al = sp.get('alpha', [-0.5, -0.5])
    return d3.AnnulusBasis(cs, tuple(sp['shape']), radii=tuple(sp['radii']), alpha=tuple(al), **kw)


def build(sp, mesh=None, comm=None):
    dtype = NP(sp['dtype'])
    S = Space()
    S.spec = sp
    S.dtype = dtype
    S.real = dtype == np.float64
    kind = sp['kind']
    dkw = {}
    if mesh is not None:
        dkw['mesh'] = tuple(mesh)
    if comm is not None:
        dkw['comm'] = comm
    if kind == 'cart':
        dim = len(sp['axes'])
        names = NAMES[:dim]
        S.cs = d3.CartesianCoordinates(*names)
        S.dist = d3.Distributor(S.cs, dtype=dtype, **dkw)
        S.bases = tuple(make_axis_basis(S.cs.coords[i], ax, dtype) for i, ax in enumerate(sp['axes']))
        S.dim = dim
    elif kind in ('disk', 'annulus'):
        S.cs = d3.PolarCoordinates('phi', 'r')
        S.dist = d3.Distributor(S.cs, dtype=dtype, **dkw)
        S.bases = (_polar_basis(S.cs, sp, dtype),)
        S.dim = 2
    elif kind == 'sphere':
        S.cs = d3.S2Coordinates('phi', 'theta')
        S.dist = d3.Distributor(S.cs, dtype=dtype, **dkw)
        S.bases = (d3.SphereBasis(S.cs, tuple(sp['shape']), radius=sp['radius'], dealias=tuple(sp['dealias']), dtype=dtype),)
        S.dim = 2
    elif kind in ('ball', 'shell'):
        S.cs = d3.SphericalCoordinates('phi', 'theta', 'r')
        S.dist = d3.Distributor(S.cs, dtype=dtype, **dkw)
        if kind == 'ball':
            b = d3.BallBasis(S.cs, tuple(sp['shape']), radius=sp['radius'], alpha=sp.get('alpha', 0), k=sp.get('k', 0), dealias=tuple(sp['dealias']), dtype=dtype)
        else:
            b = d3.ShellBasis(S.cs, tuple(sp['shape']), radii=tuple(sp['radii']), alpha=tuple(sp.get('alpha', [-0.5, -0.5])), k=sp.get('k', 0), dealias=tuple(sp['dealias']), dtype=dtype)
        S.bases = (b,)
        S.dim = 3
    elif kind == 'cyl':
        cz = d3.Coordinate('z')
        cp = d3.PolarCoordinates('phi', 'r')
        order = sp.get('order', 'zp')
        S.cs = d3.DirectProduct(cz, cp)
        S.dist = d3.Distributor(S.cs, dtype=dtype, **dkw)
        S.cz, S.cp = cz, cp
        S.bases = (make_axis_basis(cz, sp['z'], dtype), _polar_basis(cp, sp['polar'], dtype))
        S.dim = 3
    else:
        raise HarnessError(kind)
    return S


def curvi_polar(kinds=('disk', 'annulus'), dtypes=('r', 'c'), nphi=(8, 12, 16), nr=(6, 8, 10), dealias=((1, 1), (1.5, 1.5), (1.5, 1), (2, 1.5)), ks=(0, 1, 2), mmax0=False):
    def mk(kind, dt, np_, n, d, k, alpha, rad):
        sp = {'kind': kind, 'dtype': dt, 'shape': [np_, n], 'dealias': list(d), 'k': k}
        if kind == 'disk':
            sp['radius'] = [1.0, 1.5, 0.8, 2.5][rad]
            sp['alpha'] = [0, 1, 0][alpha]
        else:
            sp['radii'] = [[1.0, 2.0], [0.5, 3.0], [0.6, 1.7], [2.0, 2.5]][rad]
            sp['alpha'] = [[-0.5, -0.5], [0, 0], [0.5, -0.5]][alpha]
        return sp
    return st.builds(mk, st.sampled_from(list(kinds)), st.sampled_from(list(dtypes)), st.sampled_from(list(nphi)), st.sampled_from(list(nr)),
                     st.sampled_from([tuple(d) for d in dealias]), st.sampled_from(list(ks)), st.integers(0, 2), st.integers(0, 3))


def curvi_sphere(dtypes=('r', 'c'), nphi=(8, 12, 16), nth=(4, 6, 8, 12), dealias=((1, 1), (1.5, 1.5), (1, 1.5))):
    # domain: azimuth not over-resolved relative to colatitude (Nphi <= 2*Ntheta); the library warns beyond it
    return st.builds(lambda dt, a, b, d, r: {'kind': 'sphere', 'dtype': dt, 'shape': [min(a, 2*b), b], 'dealias': list(d), 'radius': r},
                     st.sampled_from(list(dtypes)), st.sampled_from(list(nphi)), st.sampled_from(list(nth)), st.sampled_from([tuple(d) for d in dealias]),
                     st.sampled_from([1.0, 1.5, 0.7, 3.0]))


def curvi_3d(kinds=('ball', 'shell'), dtypes=('r', 'c'), nphi=(8, 12), nth=(4, 6, 8), nr=(5, 6, 8), dealias=((1, 1, 1), (1.5, 1.5, 1.5), (1, 1.5, 1.5)), ks=(0, 1, 2)):
    def mk(kind, dt, a, b, n, d, k, alpha, rad):
        sp = {'kind': kind, 'dtype': dt, 'shape': [min(a, 2*b), b, n], 'dealias': list(d), 'k': k}
        if kind == 'ball':
            sp['radius'] = [1.0, 1.5, 0.8, 2.0][rad]
            sp['alpha'] = [0, 1, 0][alpha]
        else:
            sp['radii'] = [[1.0, 2.0], [0.5, 3.0], [0.6, 1.7], [2.0, 2.5]][rad]
            sp['alpha'] = [[-0.5, -0.5], [0, 0], [0.5, -0.5]][alpha]
        return sp
    return st.builds(mk, st.sampled_from(list(kinds)), st.sampled_from(list(dtypes)), st.sampled_from(list(nphi)), st.sampled_from(list(nth)), st.sampled_from(list(nr)),
                     st.sampled_from([tuple(d) for d in dealias]), st.sampled_from(list(ks)), st.integers(0, 2), st.integers(0, 3))


def curvi_cyl(dtypes=('r', 'c'), kinds=('disk', 'annulus')):
    return st.builds(lambda p, z: {'kind': 'cyl', 'dtype': p['dtype'], 'polar': p, 'z': z},
                     curvi_polar(kinds=kinds, dtypes=dtypes, nphi=(8, 12), nr=(5, 6), dealias=((1, 1), (1.5, 1.5))),
                     axis_st(sizes=(4, 6, 8), dealias=(1.0, 1.5), params=JAC[:3]))


# --------------------------------------------------------------- random fields
def rng(seed):
    return np.random.RandomState(seed % (2**32))


def random_coeffs(field, r, decay=0.0):
    """Fill a field with random *valid* coefficients (a grid round trip removes invalid modes)."""
    field.preset_layout('c')
    shape = field.data.shape
    data = r.standard_normal(shape)
    if np.iscomplexobj(field.data):
        data = data + 1j * r.standard_normal(shape)
    field['c'] = data
    mask_invalid(field)
    return field


def valid_mask(field):
    """Mask of coefficient entries that carry information.

    The library's own mode bookkeeping, minus entries it documents as unused: Nyquist modes of complex
    Fourier series, -sin parts of m=0 of curvilinear scalars, and ball entries below the triangular truncation.
    """
    field.require_coeff_space()
    layout = field.layout
    m = np.array(layout.valid_elements(field.tensorsig, field.domain, 1))
    els = np.array(np.meshgrid(*layout.local_elements(field.domain, 1), indexing='ij'))
    groups = layout.local_group_arrays(field.domain, 1)
    real = field.dtype == np.float64
    rank = len(field.tensorsig)
    lead = (slice(None),) * rank
    for basis in field.domain.bases:
        ax = field.dist.get_basis_axis(basis)
        bad = np.zeros(els[0].shape, dtype=bool)
        gm = np.ma.getdata(groups[ax])
        if isinstance(basis, dbasis.Jacobi):
            continue
        if isinstance(basis, dbasis.ComplexFourier) and basis.size % 2 == 0:
            bad |= np.abs(gm) == basis.size // 2
        if hasattr(basis, 'shape') and not isinstance(basis, dbasis.IntervalBasis) and basis.dim >= 2:
            if not real and basis.shape[0] > 1:
                bad |= np.abs(gm) == basis.shape[0] // 2
            if real and rank == 0:
                bad |= (gm == 0) & (els[ax] % 2 == 1)
            for sub in range(basis.dim):
                bad |= np.ma.getmaskarray(groups[ax + sub])
        m[lead + (bad,)] = False
    return m


def mask_invalid(field):
    m = valid_mask(field)
    field.data[~m] = 0
    return field


def grids(S, scales=None, bases=None, dist=None):
    """Broadcastable local grids per axis at given scales (dealias by default)."""
    out = []
    bases = bases or S.bases
    scales = scales if scales is not None else 1
    return S.dist.local_grids(*bases, scales=scales)


def cart_points(S, g):
    """Physical Cartesian coordinates from coordinate grids."""
    k = S.spec['kind']
    if k == 'cart':
        return list(g)
    if k in ('disk', 'annulus'):
        phi, r = g
        return [r * np.cos(phi), r * np.sin(phi)]
    if k == 'sphere':
        phi, th = g
        R = S.spec['radius']
        return [R * np.sin(th) * np.cos(phi), R * np.sin(th) * np.sin(phi), R * np.cos(th) + 0 * phi]
    if k in ('ball', 'shell'):
        phi, th, r = g
        return [r * np.sin(th) * np.cos(phi), r * np.sin(th) * np.sin(phi), r * np.cos(th) + 0 * phi]
    if k == 'cyl':
        z, phi, r = g
        return [z, r * np.cos(phi), r * np.sin(phi)]


def frame(S, g):
    """Unit vectors E[a] (curvilinear component a) as Cartesian vectors: array (ncomp, ncart, ...grid)."""
    k = S.spec['kind']
    if k == 'cart':
        n = S.dim
        return np.eye(n).reshape((n, n) + (1,) * n)
    if k in ('disk', 'annulus'):
        phi, r = g
        z = 0 * (phi + r)
        return np.array([[-np.sin(phi) + z, np.cos(phi) + z], [np.cos(phi) + z, np.sin(phi) + z]])
    if k in ('sphere', 'ball', 'shell'):
        phi, th = g[0], g[1]
        z = 0 * sum(g)
        ephi = [-np.sin(phi) + z, np.cos(phi) + z, z]
        eth = [np.cos(th) * np.cos(phi) + z, np.cos(th) * np.sin(phi) + z, -np.sin(th) + z]
        er = [np.sin(th) * np.cos(phi) + z, np.sin(th) * np.sin(phi) + z, np.cos(th) + z]
        return np.array([ephi, eth] if k == 'sphere' else [ephi, eth, er])
    if k == 'cyl':
        zz, phi, r = g
        z = 0 * (zz + phi + r)
        o = z + 1
        return np.array([[o, z, z], [z, -np.sin(phi) + z, np.cos(phi) + z], [z, np.cos(phi) + z, np.sin(phi) + z]])


def to_components(T, rank, E):
    """Cartesian components T[(i,j..)+grid] -> curvilinear components with frame E[a,i,grid]."""
    T = np.asarray(T)
    for ax in range(rank):
        # contract tensor axis ax with E's cart axis, grid elementwise
        T = np.moveaxis(T, ax, 0)               # (i, rest..., grid)
        nr = rank - 1
        Ee = E.reshape(E.shape[:2] + (1,) * nr + E.shape[2:])
        T = (Ee * T[None]).sum(axis=1)
        T = np.moveaxis(T, 0, ax)
    return T


def eval_tensor(F, rank, X, real):
    """Evaluate object array of Fn at Cartesian points."""
    sh = np.broadcast_shapes(*[np.shape(x) for x in X])
    F = np.asarray(F, dtype=object)
    out = np.zeros(F.shape + sh, dtype=complex)
    for idx in np.ndindex(*F.shape):
        out[idx] = F[idx](*X)
    return out.real if real else out


def field_from(S, F, rank, scales=None, name=None, bases=None):
    """Field set from Cartesian component functions F (object array, rank `rank`)."""
    bases = S.bases if bases is None else bases
    f = S.dist.Field(bases=bases, tensorsig=(S.cs,) * rank, name=name)
    if scales is None:
        f.preset_scales(f.domain.dealias)
        scales = f.scales
    else:
        f.preset_scales(scales)
    f['g'] = grid_values(S, F, rank, f.scales)
    return f


def grid_values(S, F, rank, scales):
    g = S.dist.local_grids(*S.bases, scales=scales)
    X = cart_points(S, g)
    return to_components(eval_tensor(F, rank, X, S.real), rank, frame(S, g))
