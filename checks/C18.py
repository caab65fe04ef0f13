"""C18 adaptive timesteps obey the advective limit and every stated bound."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation
from vlib import spaces as V
from checks.C15 import project
import dedalus.public as d3


# ------------------------------------------------------------------------------------------------ advective frequency

def freq_case():
    space = st.one_of(V.cart_space(dims=(1, 2, 3), sizes3=(4, 6, 8)), V.cart_space(dims=(1, 2)), V.curvi_polar(mmax0=True), V.curvi_sphere(), V.curvi_3d(), V.curvi_cyl())
    return st.fixed_dictionaries({'space': space, 'const': st.integers(0, 5), 'expr': st.sampled_from(['u', 'u', 'scaled', 'sum', 'curl', 'cross']), 'seed': st.integers(0, 10**6), 'state': st.integers(0, 5), 'pads': st.sampled_from([(0, 0), (0, 0), (1, 0), (0, 1), (1, 1)]).map(list),
                                  'via': st.sampled_from(['op', 'op', 'cfl'])})


def spacings(S, cs, bases, scales, dist):
    """Local grid spacing in every direction of a coordinate system, from the grids: list of (component indices, spacing)."""
    out = []
    kind = S.spec['kind']
    def grid(b, j=0):
        g = np.asarray(dist.local_grids(b, scales=scales)[j])
        return g
    def diff(g):
        x = g.ravel()
        d = np.empty_like(x)
        # second-order differences with respect to the grid index
        d[1:-1] = (x[2:] - x[:-2]) / 2
        d[0] = (-3 * x[0] + 4 * x[1] - x[2]) / 2
        d[-1] = (3 * x[-1] - 4 * x[-2] + x[-3]) / 2
        return d.reshape(g.shape)
    if kind == 'cart':
        for i, c in enumerate(cs.coords if hasattr(cs, 'coords') else [cs]):
            b = next((b for b in bases if b.dim == 1 and b.coord == c), None)
            if b is None:
                continue
            s = b.dealias[0]
            g = grid(b)
            n = g.size
            L = b.bounds[1] - b.bounds[0]
            if type(b).__name__ in ('RealFourier', 'ComplexFourier'):
                dx = s * L / n + 0 * g
            elif (b.a, b.b) == (-0.5, -0.5):
                # Chebyshev points are the cosines of evenly spaced angles
                th = np.arccos(np.clip((g - b.bounds[0]) / L * 2 - 1, -1, 1))
                dx = s * L / 2 * np.sin(th) * np.pi / n
            else:
                if n < 3:
                    raise Skip('too few points')
                dx = s * diff(g)
            out.append(([i], dx))
        return out
    if kind == 'cyl':
        bz = [b for b in bases if b.dim == 1]
        bp = [b for b in bases if b.dim == 2]
        sub = spacings(Fake(S, 'cart'), S.cz, bz, scales, dist)
        out += sub
        if bp:
            b = bp[0]
            k = 'disk' if type(b).__name__ == 'DiskBasis' else 'annulus'
            out += [([i + 1 for i in ix], dx) for ix, dx in spacings(Fake(S, k), b.coordsys, bp, scales, dist)]
        return out
    b = bases[0]
    if kind in ('disk', 'annulus'):
        r = grid(b, 1)
        if r.size < 3:
            raise Skip('too few points')
        m = b.shape[0] // 2 - 1
        if m > 0:
            out.append(([0], (b.radius if kind == 'disk' else r) / m))
        out.append(([1], b.dealias[1] * diff(r)))
        return out
    L = b.shape[1] - (2 if S.real else 1)
    if kind == 'sphere':
        out.append(([0, 1], b.radius / np.sqrt(L * (L + 1)) if L else np.inf))
        return out
    r = grid(b, 2)
    if r.size < 3:
        raise Skip('too few points')
    R = b.radius if kind == 'ball' else r
    L = b.shape[1] - (2 if S.real else 1)
    out.append(([0, 1], R / np.sqrt(L * (L + 1)) if L else np.inf))
    out.append(([2], b.dealias[2] * diff(r)))
    return out


class Fake:
    def __init__(self, S, kind):
        self.spec, self.real = {'kind': kind}, S.real


def run_freq(c):
    S = V.build(c['space'])
    kind, dist, cs = c['space']['kind'], S.dist, S.cs
    r = V.rng(c['seed'])
    bases = list(S.bases)
    if kind == 'cart' and len(bases) > 1 and c['const'] < len(bases):
        del bases[c['const']]
    def fld(name):
        f = dist.Field(name=name, bases=tuple(bases), tensorsig=(cs,))
        V.random_coeffs(f, r)
        project(f)
        return f
    u, w = fld('u'), fld('w')
    e = u
    if c['expr'] == 'scaled':
        e = -2.5 * u
    elif c['expr'] == 'sum':
        e = u + 0.5 * w
    elif c['expr'] == 'curl' and kind == 'cart' and cs.dim == 3 and len(bases) == 3:
        e = d3.curl(u)
    elif c['expr'] == 'cross' and kind == 'cart' and cs.dim == 3:
        e = d3.cross(u, w)
    elif c['expr'] == 'curl' and kind in ('ball', 'shell'):
        e = d3.curl(u)
    dom = e.domain if e is not u else u.domain
    scales = tuple(dom.dealias)
    what = f'{c["expr"]} on {c["space"]} over bases {[type(b).__name__ for b in bases]}'
    bl = tuple(dom.bases)
    polar = next((b for b in bl if b.dim == 2 and kind != 'sphere'), None)
    # the spacing and grids reported by the basis must not be disturbed
    def reported():
        out = []
        for b in bl:
            bs = tuple(b.dealias)
            if b.dim == 1:
                out.append(np.array(b.local_grid_spacing(dist, bs[0])))
            else:
                out += [np.array(b.local_grid_spacing(dist, j, scales=bs)) for j in range(b.dim)]
            out += [np.array(g) for g in dist.local_grids(b, scales=dist.remedy_scales(scales))]
        return out
    before = reported()
    vel = e.evaluate() if e is not u else u
    vel = vel.copy()
    vel.change_scales(scales)
    data = np.array(vel['g'])
    want = np.zeros(data.shape[1:])
    parts = []
    for ix, dx in spacings(S, cs, bl, scales, dist):
        speed = np.sqrt(sum(np.abs(data[i])**2 for i in ix)) if len(ix) > 1 else np.abs(data[ix[0]])
        want = want + speed / dx
    op = d3.AdvectiveCFL(e, cs)
    u.change_scales([1, 1.5, 2][c['state'] % 3])
    u[['g', 'c'][c['state'] // 3]]
    out = op.evaluate()
    require(tuple(out.scales) == scales and out.tensorsig == (), f'{what}: frequency scales {out.scales} for {scales}')
    got = np.array(out['g'])
    big = max(1e-3, np.abs(want).max(initial=0))
    if not S.real and any(len(ix) > 1 for ix, _ in spacings(S, cs, bl, scales, dist)):
        return {'nontrivial': False, 'tags': ['complex sphere']}   # speeds of complex velocities have no direction-free meaning there
    assert_close(got, want + 0 * got, f'{what}: advective frequency', rtol=1e-9, scale=big)
    got = np.array(op.evaluate()['g'])
    assert_close(got, want + 0 * got, f'{what}: advective frequency evaluated again', rtol=1e-9, scale=big)
    for x, y in zip(reported(), before):
        require(np.array_equal(x, y), f'{what}: grids or spacings reported by the basis changed after evaluating frequencies: {x.ravel()[:4]} for {y.ravel()[:4]}')
    return {'nontrivial': bool(np.any(want > 0)), 'tags': [kind, c['expr']] + ([] if len(bases) == len(S.bases) else ['constant axis'])}


# ---------------------------------------------------------------------------------------------------------- controller

def ctl_case():
    return st.fixed_dictionaries({
        'cadence': st.integers(1, 6), 'initial_dt': st.sampled_from([0.1, 1.0, 0.01, 3.0]), 'safety': st.sampled_from([None, 1.0, 0.5, 0.2, 0.3]), 'max_dt': st.sampled_from([None, None, 0.05, 0.5, 2.0]), 'min_dt': st.sampled_from([None, None, 0.001, 0.02, 0.2]),
        'max_change': st.sampled_from([None, None, 1.5, 1.1, 2.0]), 'min_change': st.sampled_from([None, None, 0.5, 0.9]), 'threshold': st.sampled_from([None, None, 0.05, 0.3, 0.1]),
        'vels': st.lists(st.sampled_from(['u', 'v', 'expr', 'freq', 'fieldfreq']), min_size=1, max_size=3), 'amps': st.lists(st.sampled_from([0.0, 1.0, 1.0, 0.5, 2.0, 10.0, 0.01, 1.05, 0.97]), min_size=4, max_size=24),
        'start': st.sampled_from([0, 0, 0, 1, 4, 6, 7]), 'seed': st.integers(0, 10**6), 'dim': st.integers(1, 2), 'extra_calls': st.booleans(), 'scheme': st.sampled_from(['RK222', 'SBDF2', 'RK111'])})


def run_ctl(c):
    names = ['x', 'z'][:c['dim']]
    cs = d3.CartesianCoordinates(*names)
    dist = d3.Distributor(cs, dtype=np.float64)
    bases = (d3.RealFourier(cs.coords[0], 8, bounds=(0, 2), dealias=1.5),) + ((d3.ChebyshevT(cs.coords[1], 6, bounds=(0, 1), dealias=1.5),) if c['dim'] == 2 else ())
    r = V.rng(c['seed'])
    u = dist.VectorField(cs, name='u', bases=bases)
    v = dist.VectorField(cs, name='v', bases=bases)
    s = dist.Field(name='s', bases=bases)
    pat_u, pat_v, pat_s = [f.fill_random(layout='g', seed=int(r.randint(1 << 30))) or f['g'].copy() for f in (u, v, s)]
    problem = d3.IVP([s])
    problem.add_equation((d3.dt(s), 0))
    solver = problem.build_solver(c['scheme'])
    if c['start']:
        solver.iteration = solver.initial_iteration = c['start']
    kw = {k: c[k] for k in ('safety', 'max_dt', 'min_dt', 'max_change', 'min_change', 'threshold') if c[k] is not None}
    cfl = d3.CFL(solver, initial_dt=c['initial_dt'], cadence=c['cadence'], **kw)
    opt = {'safety': 1.0, 'max_dt': np.inf, 'min_dt': 0.0, 'max_change': np.inf, 'min_change': 0.0, 'threshold': 0.0, **kw}
    seen = set()
    for k in c['vels']:
        if k in seen:
            continue
        seen.add(k)
        if k in 'uv':
            cfl.add_velocity({'u': u, 'v': v}[k])
        elif k == 'expr':
            cfl.add_velocity(0.5 * u + v)
        elif k == 'freq':
            cfl.add_frequency(2 * s)
        else:
            cfl.add_frequency(s)
    def freqs():
        """Largest total frequency, from the definition."""
        tot = 0
        def grid(f):
            g = f.copy()
            g.change_scales(1.5)
            return np.array(g['g'])
        def adv(data):
            x = np.abs(data[0]) / (1.5 * 2 / 12)
            if c['dim'] == 2:
                n = 9
                th = np.pi * (np.arange(n) + .5) / n
                x = x + np.abs(data[1]) / (1.5 * 0.5 * np.sin(th) * np.pi / n)
            return x
        U, W, s_ = grid(u), grid(v), grid(s)
        for k in seen:
            tot = tot + {'u': lambda: adv(U), 'v': lambda: adv(W), 'expr': lambda: adv(.5 * U + W), 'freq': lambda: np.abs(2 * s_), 'fieldfreq': lambda: np.abs(s_)}[k]()
        return tot.max()
    stored, freq = c['initial_dt'], None
    it, first = c['start'], c['start']
    last_due = None
    changes = held = limited = 0
    hist = []
    for amp in c['amps']:
        for f, p in ((u, pat_u), (v, pat_v), (s, pat_s)):
            f.change_scales(1)
            f['g'] = amp * p
        # frequencies are evaluated in the step taken from iterations due by the cadence; used by the call after it
        calls = 1 + c['extra_calls']
        prev = it - 1
        if prev % c['cadence'] == 0 and prev > first:
            for _ in range(calls):
                dt = opt['safety'] / freq if freq > 0 else np.inf
                lo, hi = max(opt['min_dt'], opt['min_change'] * stored), min(opt['max_dt'], opt['max_change'] * stored)
                new = max(min(dt, hi), lo)
                if hi < lo:
                    limited += 1
                if abs(abs(new - stored) - opt['threshold'] * stored) < 1e-9 * stored:
                    new = None     # on the threshold: rounding decides
                got = cfl.compute_timestep()
                if new is None:
                    require(abs(got - stored) <= (opt['threshold'] + 1e-8) * stored or got == stored, f'timestep at the threshold: {got} from {stored}')
                    want = got
                else:
                    want = new if abs(new - stored) > opt['threshold'] * stored else stored
                require(abs(got - want) <= 1e-11 * want or got == want, f'timestep {got} at iteration {it}, expected {want}: options {opt}, cadence {c["cadence"]}, frequency {freq}, previous timestep {stored}, history {hist[-6:]}')
                changes += want != stored
                held += want == stored
                stored = got
        else:
            for _ in range(calls):
                got = cfl.compute_timestep()
                require(got == stored, f'timestep changed from {stored} to {got} at iteration {it}, not due by cadence {c["cadence"]} (started at {first})')
        hist.append((it, amp, got))
        if it == first or it % c['cadence'] == 0:
            freq = freqs()
        solver.step(min(stored, 1.0))
        it += 1
    return {'nontrivial': changes > 0, 'tags': ['cadence%d' % c['cadence'], 'start%d' % min(c['start'], 1)] + sorted(seen) + (['held'] if held else []) + sorted(kw)}


SUBS = [Sub('frequency', freq_case, run_freq, quick=1500, thorough=15000), Sub('controller', ctl_case, run_ctl, quick=900, thorough=10000)]
