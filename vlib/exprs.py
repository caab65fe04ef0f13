"""Generated (nonlinear) expressions over a few leaf fields, without analytic values."""
import numpy as np
import scipy.special as scp
from hypothesis import strategies as st
from vlib import spaces as V
from vlib.core import HarnessError
import dedalus.public as d3

UNARY = ['sin', 'cos', 'tanh', 'exp', 'log', 'sqrt', 'arctan', 'erf', 'square', 'sinh', 'cosh', 'arcsinh', 'arcsin', 'exp2', 'log2', 'log10', 'arccosh', 'arctanh', 'tan', 'arccos', 'absolute', 'custom']
OPS = ['add', 'add', 'sub', 'neg', 'scale', 'addnum', 'mul', 'mul', 'mul', 'dot', 'dot', 'pow', 'unary', 'unary', 'grad', 'grad', 'div', 'lap', 'curl', 'trace', 'transpose',
       'skew', 'cross', 'comp', 'interp', 'integ', 'ave', 'd', 'divide', 'dotidx', 'convert', 'addmix']


def leaf_st(n=3):
    return st.lists(st.fixed_dictionaries({'rank': st.sampled_from([0, 0, 1, 1, 2]), 'sub': st.sampled_from(['full', 'full', 'full', 'const', 'part'])}), min_size=1, max_size=n)


def prog_st(ops=tuple(OPS), size=8):
    return st.lists(st.tuples(st.sampled_from(list(ops)), st.integers(0, 11), st.integers(0, 11), st.integers(0, 23)).map(list), min_size=1, max_size=size)


def spaces_st(small=True):
    return st.one_of(V.cart_space(dims=(1, 2), sizes=(6, 8), dealias=(1.5, 2.0), max_jacobi=2), V.cart_space(dims=(2, 3), sizes=(4, 6), sizes3=(4,), dealias=(1.5,), max_jacobi=1),
                     V.curvi_polar(nphi=(8,), nr=(6, 8), dealias=((1.5, 1.5),), ks=(0,)), V.curvi_sphere(nth=(6,), nphi=(8,), dealias=((1.5, 1.5),)),
                     V.curvi_3d(nphi=(8,), nth=(4,), nr=(6,), dealias=((1.5, 1.5, 1.5),), ks=(0,)))


class Node:
    def __init__(self, e, rank, dom, depth, name=''):
        self.e, self.rank, self.dom, self.depth, self.name = e, rank, dom, depth, name


def custom(x, out=None):
    return np.add(x**3, 2 * x, out=out)


class Exprs:
    def __init__(self, S, leaves, prog, seed, amp=0.5, parts=True, nonlinear=True, smooth=2, real_ok=True, subst=None, lapfn=None, wrap=None):
        self.wrap = wrap
        self.S, self.cs, self.dist = S, S.cs, S.dist
        sp = S.spec
        kind = self.kind = sp['kind']
        cart = kind == 'cart'
        r = self.r = V.rng(seed)
        self.leaves, self.pool, self.used = [], [], set()
        tdim = S.cs.dim
        for i, L in enumerate(leaves):
            rank = L['rank']
            if kind in ('ball', 'shell') or (cart and S.dim == 3):
                rank = min(rank, 1)
            bases, dom = S.bases, 'full'
            if L['sub'] == 'const' and (cart or not rank):
                bases, dom = (), 'const'
            elif L['sub'] == 'part' and cart and S.dim > 1 and parts:
                bases, dom = tuple(b for j, b in enumerate(S.bases) if j != i % S.dim), ('part', i % S.dim)
            f = S.dist.Field(bases=bases, tensorsig=(S.cs,) * rank, name='abcde'[i])
            self.fill(f, amp, smooth)
            self.leaves.append(f)
            self.pool.append(Node(f, rank, dom, 0, f.name))
        self.lapfn = lapfn or d3.lap
        for i, fn in (subst or {}).items():
            self.pool[i].e = fn(self)
        for op, a, b, v in prog:
            try_ = self.apply(op, self.pool[(-1 - a) % len(self.pool)], self.pool[(-1 - b) % len(self.pool)], v, nonlinear)
            if try_ is not None:
                self.pool.append(try_)
                self.used.add(op)

    def fill(self, f, amp=0.5, smooth=2):
        from vlib.nccs import low_mask
        V.random_coeffs(f, self.r)
        if f.domain.bases:
            f.data[~low_mask(f, [smooth] * f.dist.dim)] = 0
            f.change_scales(1.5)
            f['g'], f['c']
            f.change_scales(1)
            g = f['g']
            f['g'] = g * (amp / max(1e-3, np.abs(g).max(initial=0)))
            f['c']
        else:
            f['g'] = amp * f['g'] / max(1e-3, np.abs(f['g']).max(initial=0))

    def combine(self, a, b):
        if a == b or b == 'const':
            return a
        if a == 'const':
            return b
        if 'edge' in (a[0], b[0]):
            return None
        return 'full'

    def apply(self, op, A, B, v, nonlinear=True):
        S, cs, kind = self.S, self.cs, self.kind
        cart = kind == 'cart'
        sp = S.spec
        e, rank = A.e, A.rank
        depth = max(A.depth, B.depth) + 1
        if depth > 6:
            return None
        full = A.dom in ('full',)
        hasdep = not A.dom == 'const'
        W = self.wrap or (lambda e: e)
        N = lambda e, rank, dom=A.dom: Node(W(e), rank, dom, depth, op)
        comb = self.combine(A.dom, B.dom)
        maxrank = 2 if not (kind in ('ball', 'shell') or (cart and S.dim == 3)) else 2
        if op in ('add', 'sub', 'addmix'):
            if B.rank != rank or comb is None:
                return None
            if op == 'add':
                return N(e + B.e, rank, comb)
            if op == 'sub':
                return N(e - B.e, rank, comb)
            return N(2 * e - B.e * 3 + e, rank, comb)
        if op == 'neg':
            return N(-e, rank)
        if op == 'scale':
            k = [2, -0.5, 3.0, 0.25][v % 4]
            return N([k * e, e * k, e / k][v % 3], rank)
        if op == 'addnum':
            if rank:
                return None
            return N([e + 2, 1.5 - e, 3 + e, e - 0.5][v % 4], 0)
        if op == 'mul':
            if comb is None or rank + B.rank > maxrank or not nonlinear:
                return None
            return N(e * B.e, rank + B.rank, comb)
        if op in ('dot', 'dotidx'):
            if comb is None or not rank or not B.rank or rank + B.rank - 2 > maxrank or not nonlinear:
                return None
            if op == 'dot':
                return N(d3.dot(e, B.e) if v % 2 else e @ B.e, rank + B.rank - 2, comb)
            return N(d3.DotProduct(e, B.e, indices=(v % rank, (v // 2) % B.rank)), rank + B.rank - 2, comb)
        if op == 'pow':
            if rank or not nonlinear:
                return None
            p = v % 6
            if p < 3:
                return N(e ** [2, 3, 2][p], 0)
            return N(W(2 + W(e * e)) ** [-1, 0.5, -1.5][p - 3], 0)
        if op == 'divide':
            if B.rank or comb is None or not nonlinear:
                return None
            return N(e / W(2 + W(B.e * B.e)), rank, comb)
        if op == 'unary':
            if rank or not nonlinear:
                return None
            u = UNARY[v % len(UNARY)]
            self.used.add(u)
            if u in ('log', 'sqrt', 'log2', 'log10', 'absolute'):
                x = W(2 + W(e * e))
            elif u == 'arccosh':
                x = W(2 + W(e * e))
            elif u in ('arcsin', 'arctanh', 'arccos', 'tan', 'exp', 'exp2', 'sinh', 'cosh'):
                x = W(e / W(2 + W(e * e)))
            else:
                x = e
            if not S.real and u in ('absolute', 'erf'):
                return None
            if u == 'custom':
                return N(d3.UnaryGridFunction(custom, x, deriv=lambda y: 3 * y**2 + 2), 0)
            if u == 'erf':
                return N(d3.UnaryGridFunction(scp.erf, x), 0)
            return N(getattr(np, u)(x), 0)
        if not full or not hasdep:
            if op in ('trace', 'transpose', 'comp', 'skew') and A.dom == 'const':
                pass
            else:
                return None
        if op == 'grad':
            if rank >= maxrank or (kind == 'sphere' and False):
                return None
            return N(d3.grad(e), rank + 1)
        if op == 'div':
            return N(d3.div(e), rank - 1) if rank and not (kind == 'sphere' and rank > 2) else None
        if op == 'lap':
            return N(self.lapfn(e), rank)
        if op == 'curl':
            if rank != 1 or (cart and S.dim != 3) or kind not in ('cart', 'ball', 'shell'):
                return None
            return N(d3.curl(e), 1)
        if op == 'trace':
            return N(d3.trace(e), rank - 2) if rank >= 2 and kind != 'sphere' else None
        if op == 'transpose':
            return N(d3.TransposeComponents(e), rank) if rank >= 2 else None
        if op == 'skew':
            if rank != 1 or cs.dim != 2:
                return None
            return N(d3.skew(e), 1)
        if op == 'cross':
            if rank != 1 or B.rank != 1 or cs.dim != 3 or comb is None or not nonlinear:
                return None
            return N(d3.cross(e, B.e), 1, comb)
        if op == 'comp':
            if not rank or not cart:
                return None
            return N(d3.Component(e, index=v % rank, coord=cs.coords[v % S.dim]) if False else e @ cs.unit_vector_fields(self.dist)[v % S.dim], rank - 1)
        if op == 'd':
            if not cart:
                return None
            return N(d3.Differentiate(e, cs.coords[v % S.dim]), rank)
        if op == 'convert':
            if cart and any(a['t'] == 'J' for a in sp['axes']):
                try:
                    bases = tuple(b.derivative_basis(1) if a['t'] == 'J' and b in e.domain.bases else b for a, b in zip(sp['axes'], S.bases) if b in e.domain.bases)
                    return N(d3.Convert(e, [b for b in bases if b not in e.domain.bases][0]), rank)
                except (IndexError, NotImplementedError):
                    return None
            return None
        if op == 'interp':
            if cart:
                ax = v % S.dim
                lo, hi = sp['axes'][ax]['bounds']
                return N(d3.Interpolate(e, cs.coords[ax], [lo, hi, lo + 0.3 * (hi - lo)][(v // 3) % 3]), rank, ('edge', ax))
            if kind == 'sphere':
                return None
            R = sp['radius'] if 'radius' in sp else sp['radii'][v % 2]
            return N(d3.Interpolate(e, cs.coords[-1], R), rank, ('edge', R))
        if op in ('integ', 'ave'):
            if not cart and rank:
                return None
            if op == 'ave' and kind in ('sphere', 'ball', 'shell'):
                return None
            if kind == 'sphere':
                return None
            f = d3.integ if op == 'integ' else d3.ave
            if cart and v % 2:
                ax = (v // 2) % S.dim
                return N(f(e, cs.coords[ax]), rank, ('edge', ax))
            return N(f(e), rank, 'const')
        return None
