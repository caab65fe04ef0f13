"""C09 timesteppers against an independent dense integrator; order conditions of the schemes; convergence."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip
from vlib import spaces as V, lin, ivp
import dedalus.public as d3
from dedalus.core import timesteppers

FORMS = ('helm', 'helm', 'first', 'stokes', 'pair')
DTS = [0.1, 0.05, 0.02, 0.01, 0.003, 0.07]


def case():
    op = st.one_of(st.tuples(st.just('step'), st.sampled_from(DTS)), st.tuples(st.just('step'), st.sampled_from(DTS)),
                   st.tuples(st.just('step'), st.just('same')), st.tuples(st.just('step'), st.just('same')),
                   st.tuples(st.sampled_from(['scales', 'read', 'write', 'handler', 'evalh', 'time']), st.integers(0, 1000)))
    return st.fixed_dictionaries({'sys': lin.system_st(forms=FORMS, small=True), 'scheme': st.sampled_from(ivp.SCHEMES),
                                  'terms': st.lists(st.sampled_from(ivp.TERMS), max_size=3), 'opts': ivp.opts_st(),
                                  't0': st.sampled_from([0.0, 0.0, 1.5, -0.7]), 'ops': st.lists(op, min_size=3, max_size=12)})


def run(c):
    if c['sys']['space']['dtype'] == 'c' and c['sys']['space']['kind'] == 'cart' and all(a['t'] == 'F' for a in c['sys']['space']['axes']):
        # complex Fourier coefficients would couple to the Nyquist mode, which transforms drop
        c = dict(c, sys=dict(c['sys'], ncc=0))
    A = ivp.Problem(c['sys'], c['scheme'], c['terms'], c['opts'], c['t0'])
    # the twin uses its own equation order and default options
    B = ivp.Problem(dict(c['sys'], perm=c['sys']['perm'] // 3 + 1), c['scheme'], c['terms'], {}, c['t0'])
    R = ivp.Reference(B, c['scheme'], c['t0'])
    sa = A.solver
    require(sa.sim_time == c['t0'], f'initial time {c["t0"]} became {sa.sim_time}')
    A.init(V.rng(c['sys']['seed'] + 1), 0.5)
    for n, f in B.vars.items():
        f['c'] = A.vars[n]['c']
    tags = list(A.s.tags) + [c['scheme']] + sorted(A.used)
    last, steps, moved = 0.02, 0, 0
    names = sorted(A.vars)
    start = A.state()
    handlers = []
    for op, v in c['ops']:
        f = A.vars[names[v % len(names)]] if isinstance(v, int) else None
        if op == 'step':
            k = last if v == 'same' else v
            last = k
            sa.step(k)
            R.step(k)
            steps += 1
            require(sa.iteration == steps, f'iteration {sa.iteration} after {steps} steps')
            require(abs(sa.sim_time - R.time) <= 1e-13 * (1 + abs(R.time)), f'sim_time {sa.sim_time} expected {R.time}')
            require(abs(A.t['g'].ravel()[0] - R.time) <= 1e-13 * (1 + abs(R.time)), f'time field {A.t["g"].ravel()[0]} expected {R.time}')
            require(sa.dt == k, f'solver.dt {sa.dt} expected {k}')
            X, Y = A.state(), B.state()
            big = max([np.abs(y).max() for y in Y.values() if y.size])
            if not np.isfinite(big) or big > 1e6:
                raise Skip('unstable trajectory')
            for n in names:
                if X[n].size:
                    # tau variables carry the conditioning of the boundary rows
                    assert_close(X[n], Y[n], f'{c["scheme"]} {A.s.tags} after step {steps} (dt={k}): variable {n}', rtol=1e-7, scale=max(big, 1e-3))
        elif op == 'scales':
            if f.domain.bases:
                f.change_scales([1, 1.5, 3, 2][v % 4])
                f['g']
        elif op == 'read':
            f['g']
        elif op == 'write':
            if f in A.s.main:
                f['c'] *= 0.9
                B.vars[f.name]['c'] *= 0.9
        elif op == 'handler':
            h = sa.evaluator.add_dictionary_handler(iter=1 + v % 3)
            h.add_task(f, layout='gc'[v % 2], name='x')
            if len(f.tensorsig) == 0:
                h.add_task(f * f + 1, layout='gc'[v // 2 % 2], name='y')
            handlers.append(h)
        elif op == 'evalh':
            if handlers:
                sa.evaluate_handlers(handlers)
        elif op == 'time':
            sa.sim_time = sa.sim_time + 0.25
            R.time += 0.25
    end = A.state()
    moved = max(np.abs(end[n] - start[n]).max() for n in names if end[n].size)
    return {'nontrivial': steps >= 2 and moved > 1e-6, 'tags': tags}


# --- order conditions of the coefficient functions on arbitrary step histories

ORDER = {'CNAB1': (2, 1), 'SBDF1': (1, 1), 'CNAB2': (2, 2), 'MCNAB2': (2, 2), 'SBDF2': (2, 2), 'CNLF2': (2, 2), 'SBDF3': (3, 3), 'SBDF4': (4, 4)}


def order_case():
    return st.fixed_dictionaries({'scheme': st.sampled_from(sorted(ORDER)), 'dts': st.lists(st.floats(0.05, 3.0), min_size=4, max_size=7), 'more': st.integers(0, 4)})


def moments(w, ts, deg):
    return [sum(x * t**q for x, t in zip(w, ts)) for q in range(deg + 1)]


def run_order(c):
    cls = timesteppers.schemes[c['scheme']]
    dts = list(c['dts'])
    n = cls.steps
    it = n - 1 + c['more']
    a, b, cc = cls.compute_coefficients(tuple(dts[:n]), it)
    require(len(a) <= cls.amax + 1 and len(b) <= cls.bmax + 1 and len(cc) <= cls.cmax + 1, 'too many coefficients for the stored history')
    ts = [0.0]
    for k in dts[:n]:
        ts.append(ts[-1] - k)
    mag = max(1, np.abs(a).max() * max(1, max(map(abs, ts)))**5)
    # base point of the scheme: derivatives of t**q through the order
    pi, pe = ORDER[c['scheme']]
    require(abs(cc[0]) == 0, 'explicit terms use the new state')
    for p, w in ((pi, b), (pe, cc)):
        for q in range(p + 1):
            lhs = sum(x * t**q for x, t in zip(a, ts))
            rhs = sum(q * x * t**(q - 1) for x, t in zip(w, ts)) if q else 0
            if q == 1:
                rhs = sum(w)
            require(abs(lhs - rhs) <= 1e-10 * mag, f'{c["scheme"]} with steps {dts[:n]} is not exact for t**{q}: {lhs} vs {rhs}')
    want = ivp.multistep_coeffs(c['scheme'], dts[:n])
    for x, y in zip((a, b, cc), want):
        y = np.concatenate([np.asarray(y, float), np.zeros(10)])[:len(x)]
        require(np.allclose(x, y, rtol=1e-9, atol=1e-10 * mag), f'{c["scheme"]} coefficients {x} expected {y} for steps {dts[:n]}')
    return {'nontrivial': len(set(dts[:n])) > 1 or n == 1, 'tags': [c['scheme']]}


# --- convergence on a small nonlinear, non-autonomous system

RATE = {'CNAB1': 1, 'SBDF1': 1, 'CNAB2': 2, 'MCNAB2': 2, 'SBDF2': 2, 'CNLF2': 2, 'SBDF3': 3, 'SBDF4': 4, 'RK111': 1, 'RK222': 2, 'RK443': 3, 'RKSMR': 2, 'RKGFY': 2}


def conv_case():
    return st.fixed_dictionaries({'scheme': st.sampled_from(ivp.SCHEMES), 'lam': st.sampled_from([0.5, 1.0, 2.0]), 'w': st.sampled_from([0.0, 1.0]),
                                  'e': st.sampled_from([0.3, 0.7]), 'pattern': st.sampled_from([[1.0], [1.0, 0.5], [1.0, 0.8, 1.3]]), 'u0': st.sampled_from([0.4, 1.0])})


def run_conv(c):
    from scipy.integrate import solve_ivp
    lam, w, e = c['lam'], c['w'], c['e']
    f = lambda t, y: [w * y[1] - lam * y[0] - e * y[0]**2 * y[1] + np.sin(3 * t), -w * y[0] - 0.3 * y[1] + e * np.cos(y[0] + t)]
    T = 1.0
    ref = solve_ivp(f, (0, T), [c['u0'], 0.3], rtol=1e-12, atol=1e-13, method='DOP853').y[:, -1]
    xc = d3.Coordinate('x')
    dist = d3.Distributor(xc, dtype=np.float64)
    u, v, t = dist.Field(name='u'), dist.Field(name='v'), dist.Field(name='t')
    ns = dict(u=u, v=v, t=t, w=w, lam=lam, e=e, np=np)
    errs = []
    # leapfrog is only weakly stable: its computational mode is excited by alternating steps
    pat = np.array([1.0] if c['scheme'] == 'CNLF2' else c['pattern'])
    rate = RATE[c['scheme']]
    for n in (24, 48, 96, 192):
        if n == 192 and max(np.log2(errs[0] / errs[1]), np.log2(errs[1] / errs[2])) > rate - 0.4:
            break
        u['g'], v['g'], t['g'] = c['u0'], 0.3, 0
        problem = d3.IVP([u, v], time=t, namespace=ns)
        problem.add_equation('dt(u) - w*v + lam*u = -e*u**2*v + np.sin(3*t)')
        problem.add_equation('dt(v) + w*u + 0.3*v = e*np.cos(u + t)')
        sch = timesteppers.RKGFY if c['scheme'] == 'RKGFY' else c['scheme']
        solver = problem.build_solver(sch)
        base = np.resize(pat, n)
        base = base / base.sum() * T
        # geometric start-up ramp keeps the low-order starting steps below the main error
        if rate >= 3 and not c['scheme'].startswith('RK'):
            first = base[0]
            ramp = first * 0.5 ** np.arange(18, -1, -1.0)
            ramp *= first / ramp.sum()
            base = np.concatenate([ramp, base[1:]])
        for k in base:
            solver.step(float(k))
        require(abs(solver.sim_time - T) < 1e-12, f'sim_time {solver.sim_time}')
        errs.append(max(abs(u['g'].ravel()[0] - ref[0]), abs(v['g'].ravel()[0] - ref[1])))
    if errs[-1] < 1e-11:
        rates = []
    else:
        r = max(np.log2(x / y) for x, y in zip(errs, errs[1:]))
        require(r > rate - 0.5, f'{c["scheme"]} converges at rate {r:.2f} (errors {errs}), expected {rate}')
    require(errs[2] < 0.05, f'{c["scheme"]} does not approach the solution: {errs}')
    return {'nontrivial': True, 'tags': [c['scheme']]}


SUBS = [Sub('trajectory', case, run, 500), Sub('order', order_case, run_order, 2000), Sub('convergence', conv_case, run_conv, 120)]
