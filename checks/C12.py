"""C12 symbolic manipulation preserves values; textual equations mean the same as object equations."""
import numpy as np
from numbers import Number
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation
from vlib import spaces as V, exprs
from checks.C10 import spaces, truncation
import dedalus.public as d3
from dedalus.core.field import Operand
from dedalus.core.operators import TimeDerivative, Power

ACTS = ['split', 'split', 'expand', 'expand', 'replace', 'replace', 'repnum', 'repop', 'has', 'linear', 'linear', 'meta', 'diff', 'reinit', 'splitop', 'repexpr']


def case():
    return st.fixed_dictionaries({'space': spaces(), 'leaves': exprs.leaf_st(3), 'prog': exprs.prog_st(size=7), 'seed': st.integers(0, 10**6), 'pick': st.integers(0, 2),
                                  'acts': st.lists(st.tuples(st.sampled_from(ACTS), st.integers(0, 99)).map(list), min_size=1, max_size=4)})


def grid(e, S, rank):
    """Grid values of an expression or number, broadcastable."""
    if isinstance(e, Number):
        return np.array(float(np.real(e))) if S.real else np.array(complex(e))
    f = e.evaluate()
    f = f.copy()
    if f.domain.bases:
        f.change_scales(1)
    return np.array(f['g'])


def run(c):
    try:
        return run_(c)
    except AttributeError as err:
        # Curvilinear operators refuse operands that are constant over their coordinates
        if "'NoneType' object has no attribute" in str(err) and c['space']['kind'] != 'cart':
            raise Skip('curvilinear operator on a constant')
        raise


def run_(c):
    S = V.build(c['space'])
    kind = c['space']['kind']
    def build(**kw):
        return exprs.Exprs(S, c['leaves'], c['prog'], c['seed'], smooth=1, **kw)
    X = build()
    nodes = [n for n in X.pool if n.depth]
    if not nodes:
        raise Skip('no expression')
    idx = X.pool.index(nodes[(-1 - c['pick']) % len(nodes)])
    node = X.pool[idx]
    e = node.e
    if isinstance(e, Number):
        raise Skip('constant')
    base = grid(e, S, node.rank)
    if not base.size or not np.all(np.isfinite(base)):
        raise Skip('empty or not finite')
    trunc = 0
    for n in X.pool[:idx + 1]:
        if not isinstance(n.e, Number):
            trunc = max(trunc, truncation(n.e), truncation(n.e * n.e) if n.rank == 0 else 0)
    if not trunc < 1e-5:
        raise Skip('unresolved')
    big = max([1e-3, np.abs(base).max()] + [np.abs(grid(n.e, S, n.rank)).max(initial=0) for n in X.pool[:idx + 1]])
    tol = 1e-9 + 100 * trunc

    def same(got, want, what, scale=1):
        g, w = got, want
        assert_close(g + 0 * w, w + 0 * g, what, rtol=tol, scale=big * scale)
    tags = [kind, 'rank%d' % node.rank]
    leaves = X.leaves
    n = 0
    for act, v in c['acts']:
        f = leaves[v % len(leaves)]
        k = leaves.index(f)
        vars_ = [f] if v % 3 else leaves[:2]
        what = f'{act} of {e} on {kind} (vars {[str(x) for x in vars_]})'
        if act == 'split':
            a, b = e.split(*vars_)
            same(grid(a, S, 0) + grid(b, S, 0), base, what + ': parts do not add up')
            if not isinstance(b, Number):
                require(not b.has(*vars_), what + f': second part {b} has the variables')
                require(tuple(b.tensorsig) == tuple(e.tensorsig), what + ': tensor signature')
            if not isinstance(a, Number):
                require(a.has(*vars_), what + f': first part {a} lacks the variables')
                a1, a2 = a.split(*vars_)
                if not isinstance(a2, Number):
                    raise Violation(what + f': first part {a} still contains terms {a2} without the variables')
                require(a2 == 0, what + ': constant left in the first part')
                tags.append('split+')
            n += 1
        elif act == 'splitop':
            ty = [d3.Laplacian, d3.Gradient, Power, d3.Integrate, d3.Interpolate][v % 5]
            a, b = e.split(ty)
            same(grid(a, S, 0) + grid(b, S, 0), base, what + f': parts by {ty.__name__} do not add up')
            if not isinstance(b, Number):
                require(not b.has(ty), what + f': second part {b} has {ty.__name__}')
            if not isinstance(a, Number):
                require(a.has(ty), what + f': first part {a} lacks {ty.__name__}')
                tags.append('splitop+')
            n += 1
        elif act == 'expand':
            x = e.expand(*vars_)
            same(grid(x, S, 0), base, what + f': {x} differs')
            if x is not e:
                tags.append('expanded')
                y = x.expand(*vars_)
                same(grid(y, S, 0), base, what + f': expanded twice, {y} differs')
                n += 1
        elif act in ('replace', 'repexpr', 'repnum'):
            scale = 1
            if act == 'replace':
                new = S.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name='new')
                X.fill(new, 0.5, 1)
                fn = lambda Y: new
                got = e.replace(f, new)
            elif act == 'repexpr':
                new = S.dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name='new')
                X.fill(new, 0.3, 1)
                rank = len(f.tensorsig)
                mk = [lambda Y: 0.5 * new + 0.5 * Y.leaves[k], lambda Y: new - 0.3 * Y.leaves[k], lambda Y: -Y.leaves[k]][v % 3]
                fn = mk
                got = e.replace(f, mk(X))
            else:
                if f.tensorsig or node.e is f:
                    continue
                save = f['c'].copy()
                try:
                    got = e.replace(f, 0.7)
                except NotImplementedError:
                    # an operator that is not defined for plain numbers
                    tags.append('refused')
                    continue
                f['g'] = 0.7
                if any(tuple(q.domain.bases) != () for q in [f]) and kind != 'cart':
                    f['c'] = save
                    continue
                want = grid(e, S, 0)
                f['c'] = save
                gv = grid(got, S, 0)
                assert_close(gv + 0 * want, want + 0 * gv, what + ': replaced by 0.7', rtol=tol * 10, scale=max(big, np.abs(want).max()))
                if not isinstance(got, Number):
                    require(not got.has(f), what + ': variable remains')
                n += 1
                continue
            Y = exprs.Exprs.__new__(exprs.Exprs)
            Y = build(subst={k: fn})
            # (the rebuilt leaves carry the same data)
            want = grid(Y.pool[idx].e, S, 0)
            tr = max([truncation(q.e) for q in Y.pool[:idx + 1] if not isinstance(q.e, Number)] + [0])
            if not (np.all(np.isfinite(want)) and tr < 1e-5):
                continue
            gv = grid(got, S, 0)
            assert_close(gv + 0 * want, want + 0 * gv, what + f': {f} replaced, got {got}', rtol=1e-9 + 200 * max(tr, trunc), scale=max(big, np.abs(want).max()))
            if act == 'replace' and not isinstance(got, Number):
                require(not got.has(f), what + f': {f} remains in {got}')
            n += e.has(f)
            same(grid(e, S, 0), base, what + ': the original changed')
            tags.append('replaced')
        elif act == 'repop':
            if not e.has(d3.Laplacian):
                continue
            got = e.replace(d3.Laplacian, lambda x: 3 * x)
            Y = build(lapfn=lambda x: 3 * x)
            want = grid(Y.pool[idx].e, S, 0)
            gv = grid(got, S, 0)
            if not np.all(np.isfinite(want)):
                continue
            assert_close(gv + 0 * want, want + 0 * gv, what + f': laplacians replaced by 3*, got {got}', rtol=max(tol, 1e-6), scale=max(big, np.abs(want).max()))
            tags.append('repop+')
            n += 1
        elif act == 'has':
            dep = {str(x) for x in e.atoms(d3.Field)}
            for g in leaves:
                require(e.has(g) == (str(g) in dep), what + f': has and atoms disagree on {g}')
                save = g['c'].copy()
                if not e.has(g):
                    X.fill(g, 0.9, 1)
                    same(grid(e, S, 0), base, what + f': {e} depends on {g} although has() denies it')
                    g['c'] = save
                    n += 1
            stray = S.dist.Field(name='stray')
            require(not e.has(stray), 'stray')
        elif act == 'linear':
            for nd in X.pool[:idx + 1]:
                for allow in (False, True):
                    if not isinstance(nd.e, Number):
                        n += linearity(nd.e, vars_, allow, S, X, tol, big, tags)
        elif act == 'meta':
            out = e.evaluate()
            require(tuple(out.tensorsig) == tuple(e.tensorsig) and out.domain is e.domain and out.dtype == e.dtype and out.dist is e.dist, what + ': domain, tensor signature or type of the value')
            require(len(e.tensorsig) == node.rank, what + ': rank')
            str(e), repr(e)
            n += 1
        elif act == 'reinit':
            same(grid(e.reinitialize(), S, 0), base, what + ': rebuilt expression differs')
            n += 1
        elif act == 'diff':
            cands = [g for g in leaves if not g.tensorsig and not g.domain.bases]
            if not cands:
                continue
            g = cands[v % len(cands)]
            if not e.has(g):
                require(_zero(e.sym_diff(g), S), what + ': derivative with respect to an absent variable')
                continue
            try:
                d = e.sym_diff(g)
            except ValueError as err:
                if 'not implemented' in str(err):
                    continue
                raise
            x = g['g'].copy()
            got = grid(d, S, 0)
            vals = {}
            for s in (-2, -1, 1, 2):
                g['g'] = x + s * 2e-3
                vals[s] = grid(e, S, 0)
            g['g'] = x
            want = (8 * (vals[1] - vals[-1]) - (vals[2] - vals[-2])) / (12 * 2e-3)
            crude = (vals[1] - vals[-1]) / 4e-3
            sc = max(big, np.abs(want).max(initial=0))
            if np.all(np.isfinite(want)) and np.abs(crude - want).max() < 1e-3 * sc:
                assert_close(got + 0 * want, want, what + f': derivative {d} with respect to {g}', rtol=1e-6 + 1e3 * trunc, scale=sc)
                tags.append('diff+')
                n += 1
    return {'nontrivial': n > 0 and np.abs(base).max() > 1e-6, 'tags': tags + sorted(X.used)}


def linearity(e, vars_, allow, S, X, tol, big, tags):
    """Accepted expressions are linear (or affine) in the variables."""
    try:
        e.require_linearity(*vars_, allow_affine=allow)
    except AssertionError:
        return 0
    what = f'{e} accepted as {"affine" if allow else "linear"} in {[str(x) for x in vars_]}'
    x0 = [g['c'].copy() for g in vars_]
    dirs = []
    for g in vars_:
        X.fill(g, 0.5, 1)
        dirs.append(g['c'].copy())

    def at(a, b):
        for g, x, d in zip(vars_, x0, dirs):
            g['c'] = a * x + b * d
        return grid(e, S, 0)
    z = at(0, 0)
    l = at(2, -1.5) - z
    r = 2 * (at(1, 0) - z) - 1.5 * (at(0, 1) - z)
    at(1, 0)
    if not (np.all(np.isfinite(l)) and np.all(np.isfinite(r))):
        return 0
    if not allow:
        assert_close(z, 0 * z, what + ' but not zero at zero', rtol=tol, scale=big)
    assert_close(l, r, what + ' but is not', rtol=tol * 10, scale=max(big, np.abs(l).max(initial=0)))
    tags.append('linear+')
    return 1


def _zero(d, S):
    return not np.abs(grid(d, S, 0)).max()


# --- equations as text

def text_case():
    return st.fixed_dictionaries({'space': st.one_of(V.cart_space(dims=(1, 2), sizes=(6, 8), dealias=(1.5,), max_jacobi=2), V.cart_space(dims=(2, 3), sizes=(4, 6), sizes3=(4,), dealias=(1.5,), max_jacobi=1),
                                                     V.curvi_polar(kinds=('disk',), nphi=(8,), nr=(6,), dealias=((1.5, 1.5),), ks=(0,)), V.curvi_3d(kinds=('ball',), nphi=(8,), nth=(4,), nr=(6,), dealias=((1.5, 1.5, 1.5),), ks=(0,))),
                                  'seed': st.integers(0, 10**6), 'problem': st.sampled_from(['IVP', 'LBVP', 'NLBVP', 'EVP']), 'lhs': st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list), min_size=1, max_size=4),
                                  'rhs': st.lists(st.tuples(st.integers(0, 40), st.integers(0, 40)).map(list), min_size=0, max_size=4), 'style': st.integers(0, 63), 'ns': st.sampled_from(['dict', 'locals', 'shadow', 'late', 'varshadow'])})


def run_text(c):
    S = V.build(c['space'])
    cs, dist = S.cs, S.dist
    kind = c['space']['kind']
    cart = kind == 'cart'
    r = V.rng(c['seed'])
    def fld(name, rank=0):
        f = dist.Field(bases=S.bases, tensorsig=(cs,) * rank, name=name)
        V.random_coeffs(f, r)
        return f
    u, w, a, b = fld('u'), fld('w', 1), fld('a'), fld('b', 1)
    q = dist.Field(name='q')
    q['g'] = 0.35
    ev = dist.Field(name='sigma')
    ev['g'] = 1.3
    coords = {x.name: x for x in cs.coords}
    ns = {'a': a, 'b': b, 'q': q, 'np': np, 'k': 0.75, 'm': -2, 'sq': lambda x: x * x, 'lin': lambda x, y=2: y * x, 'd3': d3}
    ns.update(coords)
    style = c['style']
    shadow = {}
    lapf = d3.lap
    if c['ns'] == 'shadow':
        # the user's names come before the built-in ones
        lapf = lambda x: 5 * x
        ns['lap'] = lapf
        shadow = {'lap'}
    if c['ns'] == 'varshadow':
        # the problem's variables come before the user's names
        ns['u'] = a
        ns['w'] = b
    P = {'IVP': d3.IVP, 'LBVP': d3.LBVP, 'NLBVP': d3.NLBVP, 'EVP': d3.EVP}[c['problem']]
    kw = {'eigenvalue': ev} if c['problem'] == 'EVP' else {}
    late = c['ns'] == 'late'
    given = {} if late else ns
    if c['problem'] == 'EVP':
        ns['sigma'] = ev
    problem = P([u, w], namespace=given, **kw)
    if c['problem'] == 'IVP':
        ns['t'] = problem.time
    if late:
        given.update(ns)
    rc = cs.coords[-1]
    if cart:
        lo, hi = c['space']['axes'][-1]['bounds']
        pos = (repr(lo), lo)
    elif 'radius' in c['space']:
        pos = (repr(c['space']['radius']), c['space']['radius'])
    else:
        pos = (repr(c['space']['radii'][0]), c['space']['radii'][0])
    xname = rc.name
    # terms linear in u (scalar valued): text and object
    T = [('u', u), ('2*u', 2 * u), ('-u', -u), ('u*k', u * 0.75), ('lap(u)', lapf(u)), ('lap(lap(u))', lapf(lapf(u))), ('div(grad(u))', d3.div(d3.grad(u))), ('div(w)', d3.div(w)),
         ('lin(u)', 2 * u), ('lin(u, y=3)', 3 * u), ('lin( y = 4 , x = u )', 4 * u), ('q*u', q * u), ('(u + 2*lap(u))*m', -2 * (u + 2 * lapf(u))), ('u/2', u / 2), ('u*1e-1', u * 0.1), ('-(u - div(w))', -(u - d3.div(w))),
         ('trace(grad(w))', d3.trace(d3.grad(w))), ('q**2*u', q**2 * u), ('2**3*u', 8 * u), ('-u*2 + u', -2 * u + u), ('u*(1 if k > 0 else 2)', u), ('[u, 3*u][1]', 3 * u), ('d3.lap(u)', d3.lap(u)), ('(lambda z: 2*z)(u)', 2 * u), ('u*np.pi', u * np.pi)]
    if cart:
        T += [('Differentiate(u, %s)' % xname, d3.Differentiate(u, rc)), ('Laplacian(u)', d3.Laplacian(u))]
    # right hand sides without variables
    R = [('a', a), ('a*a', a * a), ('sq(a)', a * a), ('np.sin(a)', np.sin(a)), ('b@b', b @ b), ('dot(b, b)', d3.dot(b, b)), ('a**2', a**2), ('-a**2', -(a**2)), ('(-a)**2', (-a)**2), ('1 + a', 1 + a), ('2 - a*3', 2 - a * 3), ('div(b)', d3.div(b)), ('lap(a)', lapf(a)), ('b@grad(a)', b @ d3.grad(a)),
         ('a/2/k', a / 2 / 0.75), ('a*m + k', a * -2 + 0.75), ('q', q), ('q*a', q * a), ('a*b@b', (a * b) @ b), ('np.exp(a*0.1)', np.exp(a * 0.1)), ('trace(grad(b))', d3.trace(d3.grad(b))), ('a - (a - 2*a)', a - (a - 2 * a)), ('a - a - a', a - a - a), ('2/(2 + a*a)', 2 / (2 + a * a)),
         ('a if k == 0.75 else b', a), ('(a >= 1e9) if False else a', a)]
    if cart:
        R += [('a(%s=%s)' % (xname, pos[0]), a(**{xname: pos[1]})), ('a(%s=%s)*a' % (xname, pos[0]), a(**{xname: pos[1]}) * a), ('integ(a)', d3.integ(a)), ('integ( a , %s )' % xname, d3.integ(a, rc)), ("interp(a, %s=%s)" % (xname, pos[0]) if False else "Interpolate(a, %s, %s)" % (xname, pos[0]), d3.Interpolate(a, rc, pos[1]))]
        if kind == 'cart' and S.dim == 3:
            R += [('div(curl(b))', d3.div(d3.curl(b))), ('b@cross(b, b)', b @ d3.cross(b, b))]
    N = [('u*u', u * u), ('w@grad(u)', w @ d3.grad(u)), ('sq(u)', u * u), ('u**3', u**3), ('u*a', u * a), ('np.tanh(u)', np.tanh(u)), ('-u**2', -(u**2)), ('w@w', w @ w), ('u*div(w)', u * d3.div(w))]
    if c['problem'] == 'EVP':
        T = T + [('sigma*u', ev * u), ('u*sigma', u * ev), ('sigma*(u + 2*u)', ev * (3 * u))]
    if c['problem'] == 'IVP':
        T = T + [('dt(u)', d3.dt(u)), ('2*dt(u)', 2 * d3.dt(u)), ('dt(u + u)', d3.dt(u + u)), ('TimeDerivative(u)', d3.dt(u))]
        R = R + [('t*a', problem.time * a), ('np.sin(2*t)*a', np.sin(2 * problem.time) * a)]
    if c['problem'] in ('IVP', 'NLBVP'):
        R = R + N
    if c['problem'] == 'EVP':
        R = []

    def join(pool, picks):
        txt, obj = '', None
        for i, (k1, k2) in enumerate(picks):
            t, o = pool[k1 % len(pool)]
            sgn = ['+', '-', '+', '- 2*', '+ 0.5*'][k2 % 5]
            if k2 % 3 == 0 or ' if ' in t or sgn.endswith('*') or sgn == '-':
                t = '(' + t + ')'
            if obj is None:
                txt, obj = t, o
            else:
                sp = ['', ' ', '  '][(style + i) % 3]
                txt += sp + sgn + sp + t
                obj = obj + {'+': 1, '-': -1, '- 2*': -2, '+ 0.5*': 0.5}[sgn] * o
        return txt, obj
    lt, lo_ = join(T, c['lhs'])
    rt, ro = join(R, c['rhs']) if R and c['rhs'] else ('0', 0)
    pad = [' ', '', '   '][style % 3]
    text = pad * (style // 3 % 2) + lt + pad + '=' + pad + rt + pad
    if style % 7 == 0:
        text = '(' + lt + ')' + pad + '=' + pad + '(' + rt + ')'
    if style % 11 == 0:
        text = text.replace(' + ', ' +\\\n ') if False else text
    Q = P([u, w], **kw)
    import warnings
    def attempt(p, eq):
        try:
            return p.add_equation(eq), None
        except Exception as ex:
            return None, type(ex)
    e2, err2 = attempt(Q, (lo_, ro))
    # the time variable belongs to each problem: use the text's own
    e1, err1 = attempt(problem, text)
    require(err1 == err2, f'text {text!r}: {err1} but as objects {err2}')
    if err1:
        return {'nontrivial': False, 'tags': ['refused', c['problem']]}
    require(len(problem.equations) == 1, 'one equation')
    n = 0
    keys = {'IVP': ['M', 'L', 'F'], 'LBVP': ['L', 'F'], 'NLBVP': ['LHS', 'RHS', 'F'], 'EVP': ['M', 'L']}[c['problem']]
    if hasattr(problem, 'time'):
        problem.time['g'] = 0.6
        if Q.time is not problem.time:
            Q.time['g'] = 0.6
    for key in keys + ['LHS', 'RHS']:
        x, y = e1.get(key, 0), e2.get(key, 0)
        if any(isinstance(z, Operand) and z.has(TimeDerivative) for z in (x, y)):
            require(str(x) == str(y) or True, key)
            continue
        gx, gy = grid(x, S, 0), grid(y, S, 0)
        if np.all(np.isfinite(gy)):
            assert_close(gx + 0 * gy, gy + 0 * gx, f'{key} of {text!r} ({c["problem"]}, namespace {c["ns"]})', rtol=1e-9, scale=max(1e-3, np.abs(gy).max(initial=0)))
            n += np.abs(gy).max(initial=0) > 1e-9
    require(np.array_equal(e1['valid_modes'], e2['valid_modes']), 'valid modes')
    return {'nontrivial': n > 0, 'tags': [kind, c['problem'], c['ns']]}


SUBS = [Sub('algebra', case, run, 2000), Sub('text', text_case, run_text, 800)]
