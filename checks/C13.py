"""C13 unsupported formulations are refused, supported ones accepted, and refusals leave the problem unchanged."""
import numpy as np
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, Skip, Violation
from vlib import spaces as V, lin
import dedalus.public as d3
from dedalus.core.field import Operand
from dedalus.tools.exceptions import UnsupportedEquationError

OPS = ['add', 'add', 'sub', 'neg', 'scale', 'mul', 'mul', 'dot', 'grad', 'div', 'lap', 'd', 'func', 'pow', 'dt', 'dt', 'integ', 'trace', 'addnum', 'inv', 'time', 'eig', 'nccmul', 'nccmul', 'nccdot', 'skew', 'grid', 'dtncc']
LOWER = {'I': 0, 'L': 1, 'A': 1, 'N': 2}


def kadd(a, b):
    if 'N' in (a, b):
        return 'N'
    if a == b:
        return a
    return 'A'


def kmul(a, b):
    if a == 'I':
        return b
    if b == 'I':
        return a
    return 'N'


class Nd:
    """Expression with its structural dependence: on the variables (kv), the eigenvalue (ks) and the time (ht),
    its order in time derivatives (nt), whether some time derivative acts on a known quantity (bad), rank and domain."""
    def __init__(self, e, kv, rank, dom, ks='I', ht=False, nt=0, bad=False, depth=0):
        self.e, self.kv, self.rank, self.dom, self.ks, self.ht, self.nt, self.bad, self.depth = e, kv, rank, dom, ks, ht, nt, bad, depth


def case():
    space = st.one_of(V.cart_space(dims=(1, 2), sizes=(4, 6, 8), dealias=(1.5,), max_jacobi=2), V.cart_space(dims=(1, 2), sizes=(4, 6), dealias=(1.5,), max_jacobi=2),
                      V.curvi_polar(kinds=('disk', 'annulus'), nphi=(4,), nr=(4,), dealias=((1.5, 1.5),), ks=(0,)), V.curvi_sphere(nth=(4,), nphi=(4,), dealias=((1.5, 1.5),)),
                      V.curvi_3d(nphi=(4,), nth=(4,), nr=(4,), dealias=((1.5, 1.5, 1.5),), ks=(0,)))
    step = st.tuples(st.sampled_from(OPS), st.integers(0, 20), st.integers(0, 20), st.integers(0, 23)).map(list)
    return st.fixed_dictionaries({'space': space, 'problem': st.sampled_from(['IVP', 'IVP', 'LBVP', 'EVP', 'NLBVP']), 'prog': st.lists(step, min_size=3, max_size=10),
                                  'eqs': st.lists(st.tuples(st.integers(0, 30), st.integers(-4, 30)).map(list), min_size=3, max_size=8), 'seed': st.integers(0, 10**6)})


def run(c):
    S = V.build(c['space'])
    cs, dist, kind = S.cs, S.dist, c['space']['kind']
    cart = kind == 'cart'
    r = V.rng(c['seed'])
    def fld(name, bases, rank=0):
        f = dist.Field(bases=bases, tensorsig=(cs,) * rank, name=name)
        f['g'] = 1 + 0.1 * r.standard_normal(f['g'].shape)
        return f
    u, w = fld('u', S.bases), fld('w', S.bases, 1)
    tau = fld('tau', ())
    q = fld('q', ())
    sig = dist.Field(name='sigma')
    sig['g'] = 1
    t = dist.Field(name='t', dtype=np.float64) if S.real else None
    vars = [u, w, tau]
    # coefficients: depend only on the last axis
    cb = (S.bases[-1],) if cart else (S.bases[0].latitude_basis,) if kind == 'sphere' else (S.bases[0].radial_basis,)
    a = dist.Field(bases=cb, name='a')
    a['g'] = 1.3
    b = dist.Field(bases=cb, tensorsig=(cs,), name='b')
    b['g'] = 0
    b['g'][-1] = 0.5
    full = dist.Field(bases=S.bases, name='g')
    full['g'] = 0.3
    pdom = 'full' if cart and S.dim == 1 else 'part'
    pool = [Nd(u, 'L', 0, 'full'), Nd(w, 'L', 1, 'full'), Nd(tau, 'L', 0, 'const'), Nd(a, 'I', 0, pdom), Nd(b, 'I', 1, pdom), Nd(q, 'I', 0, 'const'), Nd(full, 'I', 0, 'full')]
    prob = c['problem']
    if prob == 'EVP':
        pool.append(Nd(sig, 'I', 0, 'const', ks='L'))
    if prob == 'IVP' and t is not None:
        pool.append(Nd(t, 'I', 0, 'const', ht=True))
    nbase = len(pool)
    ORD = {'const': 0, 'part': 1, 'full': 2}

    def joind(x, y):
        return x if ORD[x] >= ORD[y] else y
    used = set()
    for op, i, j, v in c['prog']:
        A, B = pool[(-1 - i) % len(pool)], pool[(-1 - j) % len(pool)]
        if op == 'time':
            B, op = next((p for p in pool[:nbase] if p.ht), B), 'mul'
        if op == 'eig':
            B, op = next((p for p in pool[:nbase] if p.ks == 'L'), B), 'mul'
        if op == 'nccmul':
            B, op = pool[3 + 2 * (v % 2)], 'mul'
        if op == 'nccdot':
            B, op = pool[4], 'dot'
        if op == 'dt' and v % 3 == 0:
            A = next((p for p in reversed(pool) if p.nt and p.kv == 'L'), A)
        if op == 'dtncc':
            if prob != 'IVP':
                continue
            B = pool[[3, 5, 4][v % 3]]
            B, op = Nd(d3.dt(B.e), 'I', B.rank, B.dom, nt=1, bad=True, depth=1), 'mul'
        if max(A.depth, B.depth) > 5:
            continue
        e = A.e
        mk = lambda e, **kw: Nd(e, **{**dict(kv=A.kv, rank=A.rank, dom=A.dom, ks=A.ks, ht=A.ht, nt=A.nt, bad=A.bad, depth=A.depth + 1), **kw})
        both = dict(ht=A.ht or B.ht, nt=max(A.nt, B.nt), bad=A.bad or B.bad, depth=max(A.depth, B.depth) + 1, dom=joind(A.dom, B.dom))
        n = None
        if op in ('add', 'sub'):
            if A.rank != B.rank:
                continue
            if not cart and kind not in ('disk', 'annulus') and (A.dom == 'part') != (B.dom == 'part'):
                continue  # radial and latitude fields of curvilinear bases are only supported as coefficients
            n = mk(e + B.e if op == 'add' else e - B.e, kv=kadd(A.kv, B.kv), ks=kadd(A.ks, B.ks), **both)
        elif op == 'neg':
            n = mk(-e)
        elif op == 'scale':
            n = mk([2 * e, e * -0.5, e / 4][v % 3])
        elif op == 'addnum':
            if A.rank:
                continue
            n = mk(e + 2 if v % 2 else 1 - e, kv=kadd(A.kv, 'I'), ks=kadd(A.ks, 'I'))
        elif op == 'mul':
            if A.rank + B.rank > 2:
                continue
            # only coefficients in the last direction: products of full fields are not coefficients in curvilinear geometry
            n = mk(e * B.e if v % 2 else B.e * e, kv=kmul(A.kv, B.kv), ks=kmul(A.ks, B.ks), rank=A.rank + B.rank, **both)
        elif op == 'dot':
            if not A.rank or not B.rank or A.rank + B.rank > 3:
                continue
            n = mk(e @ B.e if v % 2 else B.e @ e, kv=kmul(A.kv, B.kv), ks=kmul(A.ks, B.ks), rank=A.rank + B.rank - 2, **both)
        elif op in ('grad', 'div', 'lap', 'd'):
            if A.dom != 'full':
                continue
            if op == 'grad' and A.rank < 2:
                n = mk(d3.grad(e), rank=A.rank + 1)
            elif op == 'div' and A.rank:
                n = mk(d3.div(e), rank=A.rank - 1)
            elif op == 'lap':
                n = mk(d3.lap(e))
            elif op == 'd' and cart:
                n = mk(d3.Differentiate(e, cs.coords[v % S.dim]))
            else:
                continue
        elif op == 'trace':
            if A.rank != 2 or kind == 'sphere':
                continue
            n = mk(d3.trace(e), rank=0)
        elif op == 'skew':
            if A.rank != 1 or cs.dim != 2:
                continue
            n = mk(d3.skew(e))
        elif op in ('func', 'pow', 'inv'):
            if A.rank:
                continue
            x = [np.sin(e), np.exp(e), np.tanh(e)][v % 3] if op == 'func' else e ** [2, 3, 2.5][v % 3] if op == 'pow' else 1 / e
            n = mk(x, kv='I' if A.kv == 'I' else 'N', ks='I' if A.ks == 'I' else 'N')
        elif op == 'grid':
            if A.rank:
                continue
            n = mk(d3.UnaryGridFunction(np.cosh, e), kv='I' if A.kv == 'I' else 'N', ks='I' if A.ks == 'I' else 'N')
        elif op == 'dt':
            if prob != 'IVP':
                continue
            n = mk(d3.dt(e), nt=A.nt + 1, bad=A.bad or A.kv == 'I')
        elif op == 'integ':
            if A.rank or A.dom != 'full' or kind == 'sphere':
                continue
            n = mk(d3.integ(e), dom='const')
        if n is None or isinstance(n.e, Number):
            continue
        pool.append(n)
        used.add(op)
    P = {'IVP': d3.IVP, 'LBVP': d3.LBVP, 'NLBVP': d3.NLBVP, 'EVP': d3.EVP}[prob]
    kw = {'EVP': {'eigenvalue': sig}}.get(prob, {})
    if prob == 'IVP' and t is not None:
        kw = {'time': t}
    problem = P(vars, **kw)
    tags, nacc, nref = [kind, prob], 0, 0
    for li, ri in c['eqs']:
        lin_pool = [p for p in pool if p.kv == 'L' and p.depth] or pool
        Lp = lin_pool if li % 3 else pool
        L = Lp[(-1 - li // 3) % len(Lp)]
        if ri < 0:
            R = Nd([0, 0, 3.5, -1][ri + 4], 'I', L.rank, 'const')
        else:
            Rp = [p for p in pool if p.rank == L.rank and p.kv == 'I' and not p.nt] if ri % 3 == 1 else [p for p in pool if p.rank == L.rank] if ri % 3 == 2 else pool
            Rp = Rp or pool
            R = Rp[(-1 - ri // 3) % len(Rp)]
        if not cart and (L.dom == 'part' or R.dom == 'part' and kind not in ('disk', 'annulus')):
            continue
        if not cart and prob == 'NLBVP' and 'N' in (L.kv, R.kv):
            continue  # (only axisymmetric coefficients are supported)
        if not cart and L.rank and isinstance(R.e, Number) and R.e:
            continue  # (constant tensors have no curvilinear expansion)
        why = None
        rnum = isinstance(R.e, Number)
        if R.rank != L.rank and not rnum:
            why = 'ranks'
        elif prob == 'NLBVP':
            if kadd(L.kv, R.kv) == 'I':
                continue   # no dependence on the variables at all: nothing to solve for
        else:
            if prob != 'EVP' and ORD[R.dom] > ORD[L.dom]:
                why = 'domain'
            if L.kv != 'L':
                why = f'LHS is {L.kv}'
            if prob == 'IVP':
                if L.ht:
                    why = 'LHS has the time'
                if L.nt > 1:
                    why = 'order'
                if R.nt:
                    why = 'RHS has time derivatives'
                if L.bad:
                    why = 'time derivative of a known quantity'
            if prob == 'LBVP' and R.kv != 'I':
                why = 'RHS has variables'
            if prob == 'EVP':
                if not (rnum and R.e == 0):
                    why = 'RHS nonzero'
                if L.ks == 'N':
                    why = 'nonlinear in the eigenvalue'
                    if L.nt:
                        continue
        if why is None and not cart and (has_full(L, full) or prob == 'NLBVP' and has_full(R, full)):
            continue
        if L.kv == 'L' and L.bad and why == 'time derivative of a known quantity':
            tags.append('dt of known times variable')
        eq = f'{prob} {L.e} = {R.e} on {kind}'
        before = list(problem.equations)
        try:
            problem.add_equation((L.e, R.e))
            ok = True
        except Exception as err:
            ok, exc = False, err
        if why is None:
            if not ok:
                if isinstance(exc, UnsupportedEquationError) or isinstance(exc, (ValueError, NotImplementedError, AttributeError, TypeError, IndexError, KeyError, AssertionError, RuntimeError)):
                    if prob == 'NLBVP' and 'not implemented' in str(exc).lower():
                        continue
                    if kind == 'sphere' and isinstance(exc, NotImplementedError) and 'Convert' in str(exc):
                        continue  # axisymmetric fields of the sphere are only supported as coefficients
                raise Violation(f'refused the supported equation {eq}: {type(exc).__name__}: {exc}')
            nacc += 1
            require(len(problem.equations) == len(before) + 1 and all(x is y for x, y in zip(problem.equations, before)), f'equation list after accepting {eq}')
        else:
            require(not ok, f'accepted an unsupported equation ({why}): {eq}')
            if why in ('LHS is N', 'LHS is A', 'RHS has variables', 'order', 'LHS has the time', 'RHS has time derivatives', 'domain', 'RHS nonzero') and prob != 'NLBVP':
                require(isinstance(exc, (UnsupportedEquationError, ValueError, AttributeError, NotImplementedError, TypeError)), f'{eq}: refused with {type(exc).__name__}: {exc}')
            nref += 1
            require(len(problem.equations) == len(before) and all(x is y for x, y in zip(problem.equations, before)), f'refused equation {eq} changed the problem')
            tags.append('refused: ' + why)
    if nacc:
        tags.append('accepted')
    return {'nontrivial': nacc + nref > 1, 'tags': tags + sorted(used)}


def has_full(n, full):
    """Curvilinear coefficients may only depend on the last direction."""
    return isinstance(n.e, Operand) and n.e.has(full)


# ------------------------------------------------------------------------------------------ typing rules of operations

CSETS = [(2, 2), (2, 2), (1, 1), (1, 2), (3,), (3, 1), (2,), (1, 3)]
TOPS = ['add', 'add', 'sub', 'mul', 'dot', 'dot', 'dot', 'cross', 'trace', 'trace', 'transpose', 'transpose', 'skew', 'div', 'curl', 'fieldpow', 'numpow', 'cdot', 'equation', 'equation', 'variables']


def type_case():
    op = st.fixed_dictionaries({'op': st.sampled_from(TOPS), 'i': st.integers(0, 40), 'j': st.integers(0, 40), 'x': st.integers(-4, 3), 'y': st.integers(-4, 3)})
    return st.fixed_dictionaries({'cs': st.sampled_from(CSETS), 'curv': st.sampled_from(['', '', 'polar', 'sphere', 'ball', 'cyl']), 'dtype': st.sampled_from(['r', 'c']), 'ax': st.sampled_from(['F', 'J']),
                                  'fields': st.lists(st.fixed_dictionaries({'ts': st.lists(st.integers(0, 1), max_size=3), 'basis': st.sampled_from([0, 0, 0, 0, 1, 2, 3, 4, 5, 9, 9]),
                                                                            'dtype': st.sampled_from([0] * 9 + [1]), 'dist': st.sampled_from([0] * 9 + [1])}), min_size=4, max_size=8),
                                  'ops': st.lists(op, min_size=3, max_size=10)})


class TF:
    def __init__(self, e, ts, basis, cplx, dist):
        self.e, self.ts, self.basis, self.cplx, self.dist = e, ts, basis, cplx, dist


def run_types(c):
    """Operations are accepted exactly when their operands have matching signatures, bases, data types and distributors."""
    cplx = c['dtype'] == 'c'
    dt, odt = (np.complex128, np.float64) if cplx else (np.float64, np.complex128)
    F = d3.ComplexFourier if cplx else d3.RealFourier
    oF = d3.RealFourier if cplx else d3.ComplexFourier
    sph = lambda dt: dict(dtype=dt)
    if c['curv'] == '':
        names = iter('xyzw')
        css = [d3.CartesianCoordinates(*[next(names) for _ in range(n)]) for n in c['cs']]
        mkdist = lambda: d3.Distributor(tuple(css), dtype=dt)
        def bases(kind, cx):
            co = css[0].coords[0]
            FF = F if cx == cplx else oF
            if c['ax'] == 'F':
                return [(FF(co, 8, bounds=(0, 1)),), (FF(co, 12, bounds=(0, 1)),), (FF(co, 8, bounds=(0, 2)),), (FF(co, 8, bounds=(0, 1), dealias=1.5),), (d3.ChebyshevT(co, 8, bounds=(0, 1)),), (d3.Legendre(co, 8, bounds=(0, 1)),)][kind]
            return [(d3.ChebyshevT(co, 8, bounds=(0, 1)),), (d3.ChebyshevT(co, 12, bounds=(0, 1)),), (d3.ChebyshevT(co, 8, bounds=(0, 2)),), (d3.ChebyshevT(co, 8, bounds=(0, 1), dealias=1.5),), (FF(co, 8, bounds=(0, 1)),), (d3.Legendre(co, 8, bounds=(0, 1)),)][kind]
    else:
        cv = c['curv']
        if cv == 'cyl':
            cz, cp = d3.Coordinate('z'), d3.PolarCoordinates('phi', 'r')
            css = [d3.DirectProduct(cz, cp)]
        else:
            css = [{'polar': d3.PolarCoordinates, 'sphere': d3.S2Coordinates, 'ball': d3.SphericalCoordinates}[cv](*{'polar': ('phi', 'r'), 'sphere': ('phi', 'th'), 'ball': ('phi', 'th', 'r')}[cv])]
        mkdist = lambda: d3.Distributor(css[0], dtype=dt)
        def bases(kind, cx):
            D = dt if cx == cplx else odt
            n, rad, k, dl = [(0, 1, 0, 1), (1, 1, 0, 1), (0, 2, 0, 1), (0, 1, 0, 1.5), (0, 1, 1, 1), (0, 1, 0, 1)][kind]
            if cv == 'sphere':
                b = d3.SphereBasis(css[0], (8, 6 if n else 4), radius=rad, dtype=D, dealias=(dl, dl))
            elif cv == 'ball':
                b = d3.BallBasis(css[0], (8, 4, 6 if n else 4), radius=rad, k=k, dtype=D, dealias=(dl, dl, dl))
            else:
                pc = css[0] if cv == 'polar' else cp
                b = d3.DiskBasis(pc, (8, 6 if n else 4), radius=rad, k=k, dtype=D, dealias=(dl, dl))
            return (b,) if cv != 'cyl' else ((d3.ComplexFourier if cx else d3.RealFourier)(cz, 4, bounds=(0, 1)), b)
    dists = [mkdist(), None]
    pool = []
    equiv = {4, 0} if c['curv'] in ('polar', 'ball', 'cyl') else set()   # derivative levels mix
    if c['curv'] == 'sphere':
        equiv = {0, 4}
    equiv |= {0, 5} if c['curv'] else set()
    jac = c['curv'] == '' and c['ax'] == 'J'
    for i, f in enumerate(c['fields']):
        if f['dist']:
            if dists[1] is None:
                dists[1] = mkdist()
        d = dists[f['dist']]
        cx = cplx != bool(f['dtype'])
        D = np.complex128 if cx else np.float64
        b = None if f['basis'] == 9 else f['basis']
        ts = tuple(min(t, len(css) - 1) for t in f['ts'])
        if b is None and c['curv']:
            ts = ()   # (constant tensors have no curvilinear expansion)
        fld = d.Field(bases=() if b is None else bases(b, cx), tensorsig=tuple(css[t] for t in ts), dtype=D, name=f'f{i}')
        fld['g'] = 1
        pool.append(TF(fld, ts, b, cx, f['dist']))
    # always some plain operands to combine with
    for ts in ((), (0,), (0, 0)):
        fld = dists[0].Field(bases=bases(0, cplx), tensorsig=tuple(css[t] for t in ts), name='p%d' % len(ts))
        fld['g'] = 1
        pool.append(TF(fld, ts, 0, cplx, 0))

    def canon(b):
        return 0 if b in equiv else b

    def basis_ok(A, B, add):
        a, b = canon(A.basis), canon(B.basis)
        if A.cplx != B.cplx and a is not None and b is not None:
            return False
        return a is None or b is None or a == b

    good = bad = 0
    tags = [c['curv'] or 'cart']
    for o in c['ops']:
        A, B = pool[o['i'] % len(pool)], pool[o['j'] % len(pool)]
        op, x, y = o['op'], o['x'], o['y']
        dim = lambda t: css[t].dim
        ok, res, fn = None, None, None
        same = A.dist == B.dist and A.cplx == B.cplx and basis_ok(A, B, False)
        if op in ('add', 'sub'):
            ok = same and A.ts == B.ts
            fn = (lambda: A.e + B.e) if op == 'add' else (lambda: A.e - B.e)
        elif op == 'mul':
            if len(A.ts) + len(B.ts) > 4:
                continue
            ok = same
            fn = lambda: A.e * B.e
        elif op == 'dot':
            if (x, y) != (-1, 0) and o['i'] % 2:
                x, y = -1, 0
            rin = lambda k, t: -len(t) <= k < len(t)
            ok = same and rin(x, A.ts) and rin(y, B.ts) and A.ts[x] == B.ts[y]
            if rin(x, A.ts) and rin(y, B.ts) and A.ts[x] != B.ts[y]:
                tags.append('contraction of different coordinate systems')
            fn = lambda: d3.DotProduct(A.e, B.e, indices=(x, y))
            if ok and len(A.ts) + len(B.ts) > 5:
                continue
        elif op == 'cdot':
            ok = same and len(A.ts) > 0 and len(B.ts) > 0 and A.ts[-1] == B.ts[0]
            fn = lambda: A.e @ B.e
        elif op == 'cross':
            ok = same and len(A.ts) == len(B.ts) == 1 and A.ts == B.ts and dim(A.ts[0]) == 3
            fn = lambda: d3.cross(A.e, B.e)
        elif op == 'trace':
            ok = len(A.ts) >= 2 and A.ts[0] == A.ts[1]
            if c['curv'] == 'sphere' and ok:
                continue    # not offered on the sphere
            if ok and A.basis is None and c['curv']:
                continue
            fn = lambda: d3.trace(A.e)
        elif op == 'transpose':
            r = len(A.ts)
            if x < 0 or y < 0:
                x, y = 0, 1
            ok = x < r and y < r and x != y and A.ts[x] == A.ts[y]
            fn = lambda: d3.transpose(A.e, indices=(x, y))
            if ok and (x > 1 or y > 1 or (A.basis is None and c['curv'])):
                continue
        elif op == 'skew':
            ok = len(A.ts) >= 1 and dim(A.ts[0]) == 2
            if ok and (len(A.ts) != 1 or A.basis is None):
                continue
            fn = lambda: d3.skew(A.e)
        elif op == 'div':
            ok = len(A.ts) >= 1
            if ok and A.basis is None or len(A.ts) > 2:
                continue
            if c['curv'] and len(set(A.ts)) > 1:
                continue
            fn = lambda: d3.div(A.e)
        elif op == 'curl':
            ok = len(A.ts) == 1 and dim(A.ts[0]) == 3
            if ok and (A.basis is None or A.ts[0] != 0):
                continue
            if len(A.ts) > 1:
                continue
            if not ok and c['curv'] in ('polar', 'sphere'):
                pass
            fn = lambda: d3.curl(A.e)
        elif op == 'fieldpow':
            ok = False
            fn = lambda: A.e ** B.e
        elif op == 'numpow':
            ok = True
            if A.ts:
                continue
            fn = lambda: A.e ** (2 + abs(x))
        elif op == 'variables':
            ok = A.dist == B.dist
            fn = lambda: d3.LBVP([A.e, B.e])
            if A.e is B.e:
                continue
        elif op == 'equation':
            # A = B as an initial value equation of variable A
            if A.e is B.e or not hasattr(A.e, 'name') or A.basis is None and B.basis is not None:
                continue
            ok = same and A.ts == B.ts
            def fn():
                pr = d3.LBVP([A.e])
                pr.add_equation((A.e, B.e))
        what = f'{op} of {desc(A)}' + (f' and {desc(B)} (indices {x}, {y})' if op in ('add', 'sub', 'mul', 'dot', 'cdot', 'cross', 'equation', 'variables', 'fieldpow', 'transpose') else '') + f" with systems {[x.names for x in css] if not c['curv'] else c['curv']}, {c['ax']}"
        if op in ('mul', 'dot', 'cdot', 'cross') and A.cplx != B.cplx and A.dist == B.dist and (None in (A.basis, B.basis) or jac):
            continue   # products with complex constants evaluate on the grid (no meaning is lost, nothing documented)
        try:
            res = fn()
            if op not in ('equation', 'variables') and hasattr(res, 'evaluate'):
                res = res.evaluate()
            acc = True
        except Exception as e:
            acc, err = False, e
        if ok:
            require(acc, f'refused the supported {what}: ' + (f'{type(err).__name__}: {err}' if not acc else ''))
            good += 1
        else:
            require(not acc, f'accepted the ill-typed {what}')
            bad += 1
            tags.append('refused ' + op)
    return {'nontrivial': good > 0 and bad > 0, 'tags': tags}


def desc(A):
    return f"<signature {A.ts}, basis {A.basis}, {'complex' if A.cplx else 'real'}, dist {A.dist}>"


# ------------------------------------------------------------------------------------------ square systems

def square_case():
    return st.fixed_dictionaries({'sys': lin.system_st(small=True), 'problem': st.sampled_from(['LBVP', 'IVP', 'EVP', 'NLBVP']),
                                  'change': st.sampled_from(['none', 'drop equation', 'drop equation', 'repeat equation', 'drop variable', 'extra variable', 'shrink equation', 'time derivative']), 'k': st.integers(0, 7)})


def run_square(c):
    sys = lin.build(c['sys'])
    S, dist = sys.S, sys.dist
    vars, eqs = list(sys.vars), list(sys.eqs)
    change, prob = c['change'], c['problem']
    k = c['k']
    if change == 'drop equation':
        if len(eqs) < 2:
            raise Skip('single equation')
        del eqs[k % len(eqs)]
    elif change == 'repeat equation':
        eqs.append(eqs[k % len(eqs)])
    elif change == 'drop variable':
        if not sys.taus:
            raise Skip('no tau variable')
        v = sys.taus[k % len(sys.taus)]
        keep = [x for x in vars if x is not v]
        # the tau field becomes a known quantity: equations must not contain it
        eqs = [dict(e, lhs=drop(e['lhs'], v)) for e in eqs]
        vars = keep
    elif change == 'extra variable':
        vars.append(dist.Field(name='extra', bases=() if k % 2 else S.bases))
    elif change == 'shrink equation':
        e = eqs[k % len(eqs)]
        if not hasattr(e['lhs'], 'domain') or not e['lhs'].domain.bases or e['lhs'].tensorsig or c['sys']['space']['kind'] != 'cart':
            raise Skip('no smaller equation')
        ax = e['lhs'].domain.bases[-1].coord
        lhs = e['lhs'](**{ax.name: (e['lhs'].domain.bases[-1].bounds[0])})
        eqs = [dict(x, lhs=lhs, m=None) if x is e else x for x in eqs]
    elif change == 'time derivative':
        if prob == 'IVP':
            raise Skip('allowed')
        eqs = [dict(x, lhs=x['lhs'] + d3.dt(x['m'] if x['m'] is not None else x['lhs'])) if i == k % len(eqs) else x for i, x in enumerate(eqs)]
    sigma = dist.Field(name='sigma')
    P = {'IVP': d3.IVP, 'LBVP': d3.LBVP, 'NLBVP': d3.NLBVP, 'EVP': d3.EVP}[prob]
    acc, err = True, None
    try:
        problem = P(vars, **({'eigenvalue': sigma} if prob == 'EVP' else {}))
        for e in eqs:
            lhs = e['lhs']
            if prob == 'IVP' and e['m'] is not None:
                lhs = d3.dt(e['m']) + lhs
            if prob == 'EVP' and e['m'] is not None:
                lhs = sigma * e['m'] + lhs
            problem.add_equation((lhs, 0), **({'condition': e['cond']} if e['cond'] else {}))
        kw = {'matrix_coupling': (False,) * dist.dim} if sys.form == 'cond' and sys.taus == [] and change not in ('extra variable',) else {}
        if prob == 'IVP':
            solver = problem.build_solver(d3.RK222, **kw)
            solver.step(1e-3)
        elif prob == 'EVP':
            solver = problem.build_solver(**kw)
            for sp in solver.subproblems:
                solver.solve_dense(sp, rebuild_matrices=True)
        else:
            solver = problem.build_solver(**kw)
            solver.solve() if prob == 'LBVP' else solver.newton_iteration()
    except Exception as e:
        acc, err = False, e
    what = f"{prob} of {sys.form} on {c['sys']['space']['kind']} with change '{change}' (variables {[v.name for v in vars]}, equations {[str(e['lhs'])[:60] + (' if ' + e['cond'] if e['cond'] else '') for e in eqs]})"
    tags = [prob, change, sys.form]
    if change == 'none':
        if not acc:
            if 'not square' in str(err).lower() or 'non-square' in str(err).lower():
                raise Violation(f'refused a square system as not square: {what}: {err}')
            raise Violation(f'refused the supported {what}: {type(err).__name__}: {err}')
    else:
        require(not acc, f'accepted a formulation that is not square: {what}' if change != 'time derivative' else f'accepted a time derivative in a problem without time: {what}')
        if change != 'time derivative':
            tags.append('err:' + type(err).__name__ + ':' + str(err)[:30])
    return {'nontrivial': change != 'none' or len(eqs) > 1, 'tags': tags}


def drop(e, v):
    out = e.replace(v, 0) if hasattr(e, 'replace') else e
    return out


SUBS = [Sub('equations', case, run, 3000), Sub('types', type_case, run_types, 1800), Sub('square', square_case, run_square, 600)]
