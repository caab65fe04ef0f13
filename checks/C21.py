"""C21 reductions, norms and flow diagnostics report the true global values."""
import numpy as np
from hypothesis import strategies as st
from mpi4py import MPI
from vlib.core import Sub, require, assert_close, Skip, Violation
from vlib import spaces as V, ops, mpi
from checks.C01 import smooth_fn, max_degree
from checks.C05 import quad, mesh, comps_at, wsum
from checks import C16
import dedalus.public as d3
from dedalus.extras import flow_tools

JOBS = 3


def volume_rule(S):
    """Quadrature points and weights of the whole space, independent of the code's grids."""
    if S.spec['kind'] != 'cart':
        return quad(S)
    X, W = [], []
    gl, wl = np.polynomial.legendre.leggauss(16)
    for a in S.spec['axes']:
        lo, hi = a['bounds']
        if a['t'] == 'F':
            X.append(lo + (hi - lo) * np.arange(40) / 40)
            W.append(np.full(40, (hi - lo) / 40))
        else:
            X.append(lo + (hi - lo) * (gl + 1) / 2)
            W.append(wl * (hi - lo) / 2)
    return X, W


def half_degree(sp):
    """Largest degree of a function whose square is represented exactly."""
    if sp['kind'] == 'cart':
        d = [(a['n'] - 1) // 2 for a in sp['axes'] if a['t'] == 'J']
        return min(d + [3])
    pol = sp['polar'] if sp['kind'] == 'cyl' else sp
    d = max_degree(pol, 0, k=2 * pol.get('k', 0)) // 2      # k adds under multiplication
    if sp['kind'] == 'cyl' and sp['z']['t'] == 'J':
        d = min(d, (sp['z']['n'] - 1) // 2)
    return d


def all_spaces():
    return st.one_of(V.cart_space(dims=(1, 2, 3), sizes3=(4, 6)), V.curvi_polar(), V.curvi_sphere(), V.curvi_3d(), V.curvi_cyl())


# ------------------------------------------------------------------------------------------------------------- L2 norms

def norm_case():
    return st.fixed_dictionaries({'space': all_spaces(), 'rank': st.integers(0, 2), 'deg': st.integers(0, 3), 'seed': st.integers(0, 10**6), 'nv': st.booleans(),
                                  'state': st.tuples(st.sampled_from([None, 1, 1.5, 2]), st.sampled_from([None, 0, 1, 2, 3])).map(list), 'amp': st.sampled_from([1.0, 1.0, 1e-6, 37.5])})


def run_norm(c):
    sp = c['space']
    S = V.build(sp)
    kind, rank = sp['kind'], c['rank']
    if kind == 'sphere' and (rank == 2 or not c['nv']):
        raise Skip('traces and integrals on the sphere surface are refused')
    if kind in ('ball', 'shell') and c['nv']:
        raise Skip('averages over balls and shells are refused')
    r = V.rng(c['seed'])
    cdim = S.dim if kind == 'cart' else 2 if kind in ('disk', 'annulus') else 3
    deg = min(c['deg'], half_degree(sp))
    if deg < 0:
        raise Skip('unresolved')
    F = V.tensor(rank, cdim, lambda i: smooth_fn(S, r, rank, nterms=3, deg=deg))
    try:
        f = V.field_from(S, F, rank, name='f')
    except Skip:
        raise
    f['g'] *= c['amp']
    f.change_scales(1)
    f['g'], f['c']
    X, W = volume_rule(S)
    g = mesh(X)
    vals = comps_at(S, F, rank, g) * c['amp']
    dens = (np.abs(vals)**2).reshape((-1,) + vals.shape[rank:]).sum(axis=0)
    total = np.asarray(wsum(dens, W, range(dens.ndim))).item()
    vol = float(np.prod([w.sum() for w in W]))
    want = np.sqrt(total / vol if c['nv'] else total)
    ops.disturb(f, c['state'])
    what = f"rank-{rank} {'normalized ' if c['nv'] else ''}norm on {sp}"
    before = np.array(f.copy()['c'])
    got = f.allreduce_L2_norm(normalize_volume=c['nv'])
    assert_close(np.array(got), np.array(want), what, rtol=1e-8, atol=1e-9 * c['amp'])
    if want < 1e-3 * c['amp']:
        return {'nontrivial': False}
    lay, sc = f.layout, f.scales
    f.normalize(normalize_volume=c['nv'])
    assert_close(np.array(f.copy()['c']), before / want, f'{what}: normalized field', rtol=1e-7, scale=np.abs(before).max() / want)
    assert_close(np.array(f.allreduce_L2_norm(normalize_volume=c['nv'])), np.array(1.0), f'{what}: norm after normalizing', rtol=1e-8)
    return {'tags': [kind, 'rank%d' % rank, 'volume' if c['nv'] else 'plain', sp['dtype']]}


# ----------------------------------------------------------------------------------------------- reductions of raw data

def reduce_case():
    return st.fixed_dictionaries({'n': st.integers(1, 8), 'sizes': st.lists(st.integers(0, 4), min_size=8, max_size=8), 'dims': st.integers(1, 3), 'seed': st.integers(0, 10**6), 'kind': st.sampled_from(['float', 'float', 'negative', 'large', 'int']),
                                  'dtype': st.sampled_from(['f', 'f', 'i'])})


def reduce_data(c):
    r = V.rng(c['seed'])
    out = []
    for k in c['sizes'][:c['n']]:
        a = r.standard_normal((k,) + (2,) * (c['dims'] - 1))
        if c['kind'] == 'negative':
            a = -np.abs(a) - 1
        elif c['kind'] == 'large':
            a = 1e12 * a
        if c['kind'] == 'int' or c['dtype'] == 'i':
            a = np.round(a * 10 if c['kind'] != 'large' else a)
        out.append(a)
    return out


def reduce_body(R, c):
    data = reduce_data(c)
    red = flow_tools.GlobalArrayReducer(R.comm) if c['dtype'] == 'f' else flow_tools.GlobalArrayReducer(R.comm, dtype=np.int64)
    mine = data[R.comm.rank] if not R.serial else np.concatenate(data)
    if c['dtype'] == 'i':
        mine = mine.astype(np.int64)
    kw = {} if c['dtype'] == 'f' else {'empty': 0}
    R.everywhere('max', float(red.global_max(mine, **({'empty': -2**62} if kw else {}))))
    R.everywhere('min', float(red.global_min(mine, **({'empty': 2**62} if kw else {}))))
    if sum(d.size for d in data):
        R.everywhere('mean', float(red.global_mean(mine)))
    R.everywhere('sum', float(red.reduce_scalar(mine.sum(), MPI.SUM)))
    R.everywhere('max again', float(red.global_max(mine, **({'empty': -2**62} if kw else {}))))
    R.everywhere('lowest default', float(red.global_max(mine, empty=-7)) if any(d.size for d in data) and min(d.min(initial=0) for d in data) > -7 else 0.0)


def run_reduce(c):
    data = reduce_data(c)
    R, got = C16.both('reduce_body', c, [c['n']], f'reduction {c}', rtol=1e-12, module='checks.C21')
    flat = np.concatenate([d.ravel() for d in data])
    if flat.size:
        for k, w in (('max', flat.max()), ('min', flat.min()), ('mean', flat.mean()), ('sum', flat.sum()), ('max again', flat.max())):
            assert_close(np.array(got[k]), np.array(w), f'{k} of {c}', rtol=1e-12, scale=np.abs(flat).sum())
    return {'nontrivial': flat.size > 1 and c['n'] > 1, 'tags': [c['dtype'], 'n%d' % c['n']] + (['idle'] if 0 in c['sizes'][:c['n']] else [])}


# -------------------------------------------------------------------------------------------------------- field data norms

def data_case():
    return st.fixed_dictionaries({'base': C16.spaces(), 'fields': C16.field_st(2), 'seed': st.integers(0, 10**6), 'layouts': st.lists(st.sampled_from(['c', 'g', None, 1, 2]), min_size=1, max_size=3),
                                  'orders': st.lists(st.sampled_from([1, 2, 3, 0.5, 'inf', 'max']), min_size=1, max_size=4)})


def data_body(R, c):
    S = V.build(c['base']['space'], **R.kw)
    for f, F in zip(C16.make_fields(R, S, c['fields'], c['seed']), c['fields']):
        f.change_scales(F['scale'])
        for lay in c['layouts']:
            if isinstance(lay, int):
                # layouts in between are labelled by the axes in grid space
                lay = next(L for L in f.dist.layouts if int(np.sum(L.grid_space)) == lay)
            for o in c['orders']:
                got = f.allreduce_data_max(layout=lay) if o == 'max' else f.allreduce_data_norm(layout=lay, order=np.inf if o == 'inf' else o)
                if lay is not None:
                    L = f.dist.get_layout_object(lay)
                    require(f.layout is L, f'{f.name} in layout {f.layout.index} after a norm in layout {L.index}')
                key = f'{f.name} {tuple(map(bool, f.layout.grid_space))} {o}'
                R.everywhere(key, float(got))
                g = R.gather(f, key)
                if g is not None:
                    a = np.abs(g)
                    want = a.max(initial=0) if o in ('inf', 'max') else (a**o).sum()**(1 / o)
                    assert_close(np.array(got), np.array(want), key, rtol=1e-10)


def run_data(c):
    what = f"data norms of {c['fields']} on {c['base']['space']}"
    C16.both('data_body', c, c['base']['mesh'], what, module='checks.C21')
    return {'tags': [c['base']['space']['kind'], 'n%d' % C16.size(c['base']['mesh'])] + [str(o) for o in c['orders']]}


# ------------------------------------------------------------------------------------------------------- flow diagnostics

# (a bare field is reported live, as it is when asked for)
PROPS = ['sq', 'lin', 'dx', 'v', 'const', 'time']


def flow_case():
    prop = st.fixed_dictionaries({'what': st.sampled_from(PROPS), 'pre': st.booleans()})
    return st.fixed_dictionaries({'base': C16.spaces(), 'props': st.lists(prop, min_size=1, max_size=4), 'cadence': st.integers(1, 3), 'steps': st.integers(1, 5), 'seed': st.integers(0, 10**6), 'scheme': st.sampled_from(['SBDF1', 'RK222', 'CNAB2']),
                                  'queries': st.lists(st.sampled_from(['min', 'max', 'grid_average', 'volume_integral']), min_size=1, max_size=4)})


def flow_body(R, c):
    S = V.build(c['base']['space'], **R.kw)
    sp = S.spec
    kind = sp['kind']
    u = S.dist.Field(bases=S.bases, name='u')
    v = S.dist.Field(bases=S.bases, name='v')
    w = S.dist.Field(name='w')
    deg = min(2, half_degree(sp))
    if deg < 0:
        raise Skip('unresolved')
    r = V.rng(c['seed'])
    cdim = S.dim if kind == 'cart' else 2 if kind in ('disk', 'annulus') else 3
    Fs = [V.tensor(0, cdim, lambda i: smooth_fn(S, r, 0, nterms=3, deg=deg)) for _ in range(2)]
    for f, F in zip((u, v), Fs):
        if R.serial:
            g = V.field_from(S, F, 0)
            f['c'] = g['c']
        R.sync(f.name, f)
    t = S.dist.Field(name='t')
    w['g'] = 0.5
    problem = d3.IVP([u, v, w], time=t)
    problem.add_equation((d3.dt(u), 1 * v))
    problem.add_equation((d3.dt(v), -1 * u))
    problem.add_equation((d3.dt(w), 0))
    solver = problem.build_solver(getattr(d3, c['scheme']))
    flow = flow_tools.GlobalFlowProperty(solver, cadence=c['cadence'])
    exprs = {'u': lambda: u, 'sq': lambda: u * v, 'lin': lambda: 2 * u - v, 'dx': lambda: d3.lap(u), 'v': lambda: v * v, 'const': lambda: w * w + w, 'time': lambda: u * t}
    names = []
    for i, p in enumerate(c['props']):
        nm = f"{p['what']}{i}"
        flow.add_property(exprs[p['what']](), name=nm, precompute_integral=p['pre'] and kind != 'sphere')
        names.append((nm, p))
    seen = {}
    for k in range(c['steps']):
        due = k % c['cadence'] == 0
        if due:
            seen = {'u': np.array(u.copy()['c']), 'v': np.array(v.copy()['c']), 'w': np.array(w.copy()['c']), 't': solver.sim_time}
        solver.step(0.05)
        for (nm, p) in names:
            for q in c['queries']:
                if q == 'volume_integral' and kind == 'sphere':
                    continue
                R.everywhere(f'{nm} {q} {k}', complex(getattr(flow, q)(nm)).real)
        if R.serial:
            # the same quantities from the saved state
            uu, vv, ww, tt = [S.dist.Field(bases=f.domain.bases) for f in (u, v, w, t)]
            uu['c'], vv['c'], ww['c'] = seen['u'], seen['v'], seen['w']
            X, W = volume_rule(S)
            for (nm, p) in names:
                e = {'u': lambda: uu, 'sq': lambda: uu * vv, 'lin': lambda: 2 * uu - vv, 'dx': lambda: d3.lap(uu), 'v': lambda: vv * vv, 'const': lambda: ww * ww + ww, 'time': lambda: uu * seen['t']}[p['what']]()
                f = e.evaluate() if hasattr(e, 'evaluate') else e
                if f is None or not hasattr(f, 'change_scales'):
                    f = S.dist.Field()
                f = f.copy()
                f['c']      # tasks are dealiased: truncated to the modes of their bases
                f.change_scales(1)
                g = np.array(f['g'])
                scale = max(1e-3, np.abs(g).max(initial=0))
                for q in c['queries']:
                    key = f'{nm} {q} {k}'
                    if key not in R.out:
                        continue
                    if q == 'volume_integral':
                        if p['what'] in ('const', 'dx'):
                            continue
                        # from the analytic functions: the state is a combination of the two initial functions
                        want = None
                        M = np.linalg.lstsq(np.stack([np.ravel(np.array(R.made[n])) for n in ('u', 'v')], axis=1), np.stack([np.ravel(seen[n]) for n in ('u', 'v')], axis=1), rcond=None)[0]
                        A = [comps_at(S, F, 0, mesh(X)) for F in Fs]
                        U, Vv = (M[0, j] * A[0] + M[1, j] * A[1] for j in (0, 1))
                        d = {'u': U, 'sq': U * Vv, 'lin': 2 * U - Vv, 'v': Vv * Vv, 'time': U * seen['t']}[p['what']]
                        want = np.asarray(wsum(d, W, range(d.ndim))).item()
                        vol = np.prod([x.sum() for x in W])
                        assert_close(np.array(R.out[key]), np.array(want), f'{key}: {q} of {p["what"]} at iteration {k}', rtol=1e-7, scale=scale * vol)
                        R.judged = True
                        continue
                    want = {'min': np.min, 'max': np.max, 'grid_average': np.mean}[q](g)
                    assert_close(np.array(R.out[key]), np.array(want), f'{key}: {q} of {p["what"]} at iteration {k}', rtol=1e-8, scale=scale)
                    R.judged = True


def run_flow(c):
    c = dict(c, base=dict(c['base'], space=dict(c['base']['space'], dtype='r')))
    sp = c['base']['space']
    if sp['kind'] == 'cart' and any(a['t'] == 'F' and (a['n'] % 2) for a in sp['axes']):
        raise Skip('odd sizes')
    if sp['kind'] != 'cart' and (sp['polar'] if sp['kind'] == 'cyl' else sp)['shape'][0] % 4:
        raise Skip('azimuthal size')
    what = f"flow properties {c['props']} on {sp}"
    R, got = C16.both('flow_body', c, c['base']['mesh'], what, rtol=1e-8, module='checks.C21')
    return {'nontrivial': getattr(R, 'judged', False), 'tags': [sp['kind'], 'n%d' % C16.size(c['base']['mesh'])] + c['queries'] + [p['what'] for p in c['props']]}


SUBS = [Sub('norm', norm_case, run_norm, quick=500, thorough=20000), Sub('reduce', reduce_case, run_reduce, quick=400, thorough=20000),
        Sub('data', data_case, run_data, quick=160, thorough=8000), Sub('flow', flow_case, run_flow, quick=80, thorough=4000)]


def finish():
    mpi.Server.stop()
