"""C17 scheduled handlers run exactly when due; stop limits are obeyed; handlers do not alter the trajectory."""
import numpy as np
from fractions import Fraction as Fr
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation
from vlib import spaces as V, ivp, lin
from checks.C14 import valid
import dedalus.public as d3
from dedalus.core import evaluator as ev, solvers
from dedalus.core.field import Field


def cadence_st():
    return st.fixed_dictionaries({
        'iter': st.one_of(st.none(), st.none(), st.integers(1, 7)),
        'sim_dt': st.one_of(st.none(), st.none(), st.sampled_from([0.25, 0.5, 1.0, 0.1, 0.3, 2.0, 1.5, 0.0625])),
        'wall_dt': st.one_of(st.none(), st.none(), st.sampled_from([0.5, 1.0, 2.5, 0.3, 10.0])),
        'custom': st.one_of(st.none(), st.none(), st.none(), st.tuples(st.sampled_from(['iter', 'sim', 'wall', 'once', 'state', 'never', 'dt']), st.integers(1, 5)).map(list)),
        'group': st.sampled_from([None, None, None, 'a', 'b'])})


class Custom:
    """A custom schedule: a function of the documented arguments, possibly with its own memory."""

    def __init__(self, spec, log):
        self.kind, self.n = spec
        self.log = log
        self.calls = 0

    def __call__(self, iteration, wall_time=0.0, sim_time=0.0, timestep=0.0):
        out = self.rule(iteration, wall_time, sim_time, timestep, self.calls)
        self.calls += 1
        self.log.append((iteration, wall_time, sim_time, timestep))
        return out

    def rule(self, iteration, wall_time, sim_time, timestep, calls):
        n = self.n
        return {'iter': iteration % n == n - 1, 'sim': int(sim_time * 10) % n == 0, 'wall': int(wall_time) % n == 0, 'once': calls == n, 'state': calls % (n + 1) == 0,
                'never': 0, 'dt': bool(timestep > 0.1 * n)}[self.kind]


class Due:
    """Which evaluations are due, from the sequence of evaluations (exact arithmetic).

    iteration, wall time: a multiple of the cadence lies in (previous value, current value], or this is the first.
    simulation time: some multiple T of the cadence is served; T is served by the first evaluation among those having
    T as the multiple closest to the current time, which the coming step does not approach more closely.
    Returns True, False or None when a comparison is within rounding of a tie."""

    def __init__(self, c, custom=None):
        self.c, self.custom = c, custom
        self.prev_it = self.prev_w = None
        self.served = -1

    def __call__(self, iteration, wall_time, sim_time, timestep):
        c = self.c
        ans = []
        if c['wall_dt']:
            w, p = Fr(wall_time) / Fr(c['wall_dt']), self.prev_w
            self.prev_w = w
            d = p is None or (w // 1) > (p // 1)
            if p is not None and abs(w - round(w)) < Fr(1, 10**9) and w != round(w):
                d = None
            ans.append(d)
        if c['sim_dt']:
            s = Fr(c['sim_dt'])
            t, dt = Fr(sim_time), Fr(timestep)
            n = (2 * t / s + 1) // 2          # nearest multiple, ties up
            tie = abs(t - (n - Fr(1, 2)) * s) <= Fr(1, 10**9) * s
            opts = [n] + ([n - 1] if tie else [])
            res = []
            for n in opts:
                T = n * s
                gap = abs(t + dt - T) - abs(t - T)
                if n <= self.served:
                    res.append((False, n))
                elif abs(gap) < Fr(1, 10**9) * s and gap != 0:
                    res.append((None, n))
                else:
                    res.append((gap > 0, n))
            ds = {d for d, n in res}
            if len(ds) > 1 or None in ds:
                ans.append(None)
                self.pending = res
            else:
                d = ds.pop()
                ans.append(d)
                if d:
                    if len(res) > 1:
                        ans[-1] = None if False else d
                        self.ambiguous = True
                    self.served = max(self.served, res[0][1]) if len(res) == 1 else None
        if c['iter']:
            p = self.prev_it
            self.prev_it = iteration
            ans.append(p is None or iteration // c['iter'] > p // c['iter'])
        if self.custom is not None:
            ans.append(bool(self.custom(iteration, wall_time, sim_time, timestep)))
        if any(a is True for a in ans):
            return True
        return None if None in ans else False


def no_tie(c, t, dt):
    """Whether the simulation-time rule is decided at this evaluation independently of rounding."""
    if not c['sim_dt']:
        return True
    s, t, dt = Fr(c['sim_dt']), Fr(t), Fr(dt)
    x = t / s
    half = abs(x - (x // 1) - Fr(1, 2))
    if half < Fr(1, 10**9):
        return False
    n = (2 * x + 1) // 2
    gap = abs(t + dt - n * s) - abs(t - n * s)
    return gap == 0 and dyadic(c['sim_dt']) or abs(gap) > Fr(1, 10**9) * s


def dyadic(x):
    return Fr(x).denominator <= 2**20


# ------------------------------------------------------------------------------------------------------- schedules

def case():
    step = st.fixed_dictionaries({'dt': st.sampled_from([0.125, 0.25, 0.0625, 0.5, 1.0, 3.0, 0.1, 0.07, 0.03]), 'wall': st.sampled_from([0, 0.25, 0.5, 1, 3, 0.1, 7]), 'iters': st.sampled_from([1, 1, 1, 1, 2, 5]),
                                  'act': st.sampled_from(['step'] * 8 + ['group_a', 'group_b', 'direct', 'add', 'same'])})
    return st.fixed_dictionaries({'handlers': st.lists(cadence_st(), min_size=1, max_size=4), 'late': cadence_st(), 'start': st.sampled_from([0.0, 0.0, 0.0, 0.5, 2.25, 0.9]), 'it0': st.sampled_from([0, 0, 0, 3, 10]),
                                  'steps': st.lists(step, min_size=3, max_size=25)})


class Recorder(ev.Handler):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.runs = []

    def process(self, **kw):
        self.runs.append((dict(kw), [t['out'] for t in self.tasks]))


def run(c):
    coord = d3.Coordinate('x')
    dist = d3.Distributor(coord, dtype=np.float64)
    basis = d3.RealFourier(coord, size=4, bounds=(0, 1))
    u = dist.Field(name='u', bases=basis)
    u['g'] = 1.0
    E = ev.Evaluator(dist, {'u': u})
    hs = []
    def add(spec):
        log = []
        cust = Custom(spec['custom'], log) if spec['custom'] else None
        h = Recorder(dist, E.vars, group=spec['group'], iter=spec['iter'], sim_dt=spec['sim_dt'], wall_dt=spec['wall_dt'], custom_schedule=cust)
        h.add_task(u)
        E.add_handler(h)
        hs.append((spec, h, Due(spec, Custom(spec['custom'], []) if spec['custom'] else None)))
        hs[-1][1].ok = True
    for s in c['handlers']:
        add(s)
    it, t, w = c['it0'], c['start'], 0.0
    nfire = nskip = 0
    tags = set()
    for k, s in enumerate(c['steps']):
        act = s['act']
        kw = dict(iteration=it, wall_time=w, sim_time=t, timestep=s['dt'])
        before = [len(h.runs) for _, h, _ in hs]
        if act in ('group_a', 'group_b'):
            E.evaluate_group(act[-1], **kw)
            want = [spec['group'] == act[-1] for spec, _, _ in hs]
        elif act == 'direct':
            sel = [h for i, (_, h, _) in enumerate(hs) if (k + i) % 2]
            E.evaluate_handlers(sel, **kw)
            want = [h in sel for _, h, _ in hs]
        elif act == 'add':
            if len(hs) < 6:
                add(c['late'])
            continue
        else:
            E.evaluate_scheduled(**kw)
            want = []
            for spec, h, due in hs:
                if h.ok and not no_tie(spec, t, s['dt']):
                    h.ok = False      # rounding decides from here on: only counted, not compared
                want.append(due(**kw) if h.ok else None)
        for (spec, h, due), b, x in zip(hs, before, want):
            n = len(h.runs) - b
            if x is None:
                continue
            cad = {k: v for k, v in spec.items() if v is not None}
            require(n == int(x), f'handler {cad} ran {n} times, expected {int(x)}, at evaluation {k} ({act}) {kw}; history {[(q["act"], q["dt"], q["wall"], q["iters"]) for q in c["steps"][:k]]} from t={c["start"]}, it={c["it0"]}')
            if n:
                require(h.runs[-1][0] == kw, f'arguments passed on to the handler: {h.runs[-1][0]} for {kw}')
                require(h.runs[-1][1][0] is not None, 'output available')
                nfire += 1
                tags |= {a for a in cad}
            else:
                nskip += 1
        if act not in ('group_a', 'group_b', 'direct', 'same'):
            t += s['dt']
            it += s['iters']
        w += s['wall']
    return {'nontrivial': nfire > 1 and nskip > 0, 'tags': sorted(tags)}


# ----------------------------------------------------------------------------------------- regular simulation cadences

def regular_case():
    return st.fixed_dictionaries({'k': st.integers(1, 40), 'sim_dt': st.one_of(st.sampled_from([0.1, 0.3, 0.7, 1.0, 0.01, 1e-3, 3.0, 1 / 3]), st.floats(1e-3, 1e3)), 'n': st.integers(1, 200), 'jitter': st.integers(0, 10**6), 'rel': st.sampled_from([0, 0, 0.3])})


def run_regular(c):
    """With steps below half the cadence every multiple is served exactly once, by the nearest evaluation."""
    coord = d3.Coordinate('x')
    dist = d3.Distributor(coord, dtype=np.float64)
    s = c['sim_dt']
    h = Recorder(dist, {}, sim_dt=s)
    r = V.rng(c['jitter'])
    k = c['k'] if not c['rel'] else max(c['k'], 3)
    ts, fired = [0.0], []
    for i in range(c['n']):
        dt = s / k * (1 + c['rel'] * r.uniform(-1, 1))
        if h.check_schedule(iteration=i, wall_time=0.0, sim_time=ts[-1], timestep=dt):
            fired.append(i)
        ts.append(ts[-1] + dt)
    ts = np.array(ts)
    want = []
    N = int(np.floor(ts[-2] / s + 1))
    for n in range(N + 1):
        d = np.abs(ts - n * s)
        i = int(np.argmin(d))
        two = np.sort(d)[:2]
        if two[1] - two[0] < 1e-9 * s:
            return {'nontrivial': False, 'tags': ['tie']}
        if i < c['n']:
            want.append(i)
    require(fired == want, f'sim_dt={s!r} with dt={s}/{k} (jitter {c["rel"]}): fired at {fired[:20]}, nearest evaluations {want[:20]}')
    return {'nontrivial': len(want) > 1, 'tags': ['k%d' % min(k, 5), 'jitter' if c['rel'] else 'uniform']}


# --------------------------------------------------------------------------------------------------------- solver runs

TASKS = ['state', 'state', 'grid', 'op', 'coeff', 'time', 'sum', 'twice', 'rhs', 'const', 'dt']


def solver_case():
    task = st.fixed_dictionaries({'kind': st.sampled_from(TASKS), 'i': st.integers(0, 5), 'layout': st.sampled_from(['g', 'g', 'c', 'mid']), 'scales': st.sampled_from([None, None, 0.5, 1, 1.5, 2])})
    h = st.fixed_dictionaries({'cad': cadence_st(), 'tasks': st.lists(task, min_size=1, max_size=4)})
    return st.fixed_dictionaries({'sys': lin.system_st(forms=('helm', 'helm', 'first', 'stokes', 'pair'), small=True), 'scheme': st.sampled_from(ivp.SCHEMES), 'terms': st.lists(st.sampled_from(ivp.TERMS), max_size=2), 'opts': ivp.opts_st(('superlunaturalspsolve', None)),
                                  'handlers': st.lists(h, min_size=1, max_size=3), 'dts': st.lists(st.sampled_from([0.03125, 0.0625, 0.015625]), min_size=2, max_size=7),
                                  'wall': st.lists(st.sampled_from([0, 0.5, 1, 2.5]), min_size=2, max_size=7), 'stop': st.tuples(st.sampled_from(['sim', 'wall', 'iter', 'sim', 'two', 'evolve']), st.integers(0, 5)).map(list),
                                  't0': st.sampled_from([0.0, 0.0, 0.5]), 'seed': st.integers(0, 10**6), 'between': st.sampled_from([0, 0, 1, 2])})


class Clock:
    def __init__(self):
        self.now = 1000.0

    def time(self):
        return self.now


class Dict(ev.DictionaryHandler):
    def __init__(self, *args, **kw):
        super().__init__(*args, **kw)
        self.runs = []

    def process(self, **kw):
        super().process(**kw)
        snap = {}
        for t in self.tasks:
            f = self.fields[t['name']]
            snap[t['name']] = (f.layout, tuple(f.scales), np.array(f.data))
        self.runs.append((dict(kw), snap))


def make_task(P, spec):
    """A task expression, and the same expression evaluated directly from copies of the state."""
    names = sorted(P.vars)
    fs = [P.vars[n] for n in names if P.vars[n].domain.bases] or [P.vars[n] for n in names]
    f = fs[spec['i'] % len(fs)]
    k = spec['kind']
    if k == 'state':
        return f
    if k == 'grid':
        return d3.Grid(f)
    if k == 'coeff':
        return d3.Coeff(f)
    if k == 'op':
        return 2 * f
    if k == 'twice':
        return f + f
    if k == 'sum':
        return f - 0.5 * f
    if k == 'time':
        return P.t * f
    if k == 'const':
        return P.t + 0
    if k == 'rhs':
        eqs = P.problem.equations
        return eqs[spec['i'] % len(eqs)]['F']
    if k == 'dt':
        return d3.Grid(f) * 1
    raise ValueError(k)


def run_solver(c):
    clock = Clock()
    real_time = solvers.time
    solvers.time = clock
    try:
        return run_solver_(c, clock)
    finally:
        solvers.time = real_time


def run_solver_(c, clock):
    if c['sys']['space']['dtype'] == 'c' and c['sys']['space']['kind'] == 'cart' and all(a['t'] == 'F' for a in c['sys']['space']['axes']):
        c = dict(c, sys=dict(c['sys'], ncc=0))   # (would couple to the Nyquist mode, which transforms drop)
    def make():
        P = ivp.Problem(c['sys'], c['scheme'], c['terms'], c['opts'], t0=c['t0'])
        P.init(V.rng(c['seed']), 0.2)
        return P
    P, Q = make(), make()
    kind = c['sys']['space']['kind']
    rec = []
    for j, hs in enumerate(c['handlers']):
        cad = hs['cad']
        if all(cad[k] is None for k in ('iter', 'sim_dt', 'wall_dt', 'custom')):
            cad = dict(cad, iter=1)
        cust = Custom(cad['custom'], []) if cad['custom'] else None
        h = Dict(P.solver.dist, P.solver.evaluator.vars, group=cad['group'], iter=cad['iter'], sim_dt=cad['sim_dt'], wall_dt=cad['wall_dt'], custom_schedule=cust)
        P.solver.evaluator.add_handler(h)
        nt = 0
        tasks = []
        for i, ts in enumerate(hs['tasks']):
            e = make_task(P, ts)
            if not isinstance(e, d3.Field) and not hasattr(e, 'evaluate'):
                continue   # (a right-hand side of zero)
            if ts['kind'] in ('grid', 'coeff', 'dt'):
                ts = dict(ts, layout='c' if ts['kind'] == 'coeff' else 'g', scales=None)   # locked outputs
            lay = {'g': 'g', 'c': 'c', 'mid': P.s.dist.layouts[len(P.s.dist.layouts) // 2]}[ts['layout']]
            name = f'task{i}'
            curv = kind != 'cart'
            h.add_task(e, layout=lay, name=name, scales=1 if ts['layout'] == 'mid' and curv else ts['scales'])
            tasks.append((name, e, lay, ts, h.tasks[-1]['scales']))
        if tasks:
            rec.append((cad, h, Due(cad, Custom(cad['custom'], []) if cad['custom'] else None), tasks))
            h.ok = True
    if not rec:
        raise Skip('no tasks')
    # stop limits
    kindstop, n = c['stop']
    dts = c['dts']
    S = P.solver
    lim = {'stop_sim_time': np.inf, 'stop_wall_time': np.inf, 'stop_iteration': np.inf}
    if kindstop in ('sim', 'two'):
        lim['stop_sim_time'] = c['t0'] + sum(dts[:n % (len(dts) + 1)]) - (0.001 if n % 2 else 0)
    if kindstop == 'wall':
        lim['stop_wall_time'] = float(n)
    if kindstop in ('iter', 'two', 'evolve'):
        lim['stop_iteration'] = n
    for k, v in lim.items():
        setattr(S, k, v)
    if all(np.isinf(v) for v in lim.values()):
        lim['stop_iteration'] = S.stop_iteration = 3
    it, t, t_start = 0, c['t0'], clock.now
    twin, nfire, tags = [], 0, {kind, c['scheme'], 'stop ' + kindstop}
    scale = np.max([1.0] + [np.abs(x).max(initial=0) for x in P.state().values()])
    base_init = S.init_time
    def check_step(dt, runs_before, state_before):
        nonlocal nfire
        kw = dict(iteration=it, wall_time=clock.now - base_init, sim_time=t, timestep=dt)
        for (cad, h, due, tasks), b in zip(rec, runs_before):
            if h.ok and not no_tie(cad, t, dt):
                h.ok = False
            want = due(**kw) if h.ok else None
            got = len(h.runs) - b
            shown = {k: v for k, v in cad.items() if v is not None}
            require(want is None or got == int(want), f'handler {shown} ran {got} times, expected {want}, in step {kw} of {c["scheme"]}')
            if not got:
                continue
            nfire += 1
            skw, snap = h.runs[-1]
            for k, v in kw.items():
                require(abs(skw[k] - v) <= 1e-12 * (1 + abs(v)), f'{k} given to handlers: {skw[k]} for {v}')
            for name, e, lay, ts, scales in tasks:
                L, sc, data = snap[name]
                wl = S.dist.get_layout_object(lay)
                require(L is wl, f'output of {e} in layout {L.grid_space} for {wl.grid_space}')
                require(sc == tuple(scales), f'output of {e} at scales {sc} for {scales}')
                want = state_before[(h, name)]
                if kind != 'cart' and not np.all(wl.grid_space):
                    mask = valid(P.s.S, e, wl, data.shape)   # modes that do not exist hold no information
                    data, want = np.where(mask, data, 0), np.where(mask, want, 0)
                assert_close(data, want, f'output of {e} ({ts["kind"]}) layout {ts["layout"]} scales {scales} at iteration {it} on {kind}', rtol=1e-8, scale=max(scale, np.abs(want).max(initial=0)))
                tags.add('task ' + ts['kind'])
    def expected(Pq):
        """Values the tasks should have, evaluated from a twin problem's state."""
        out = {}
        for (cad, h, due, tasks), in zip(rec):
            for name, e, lay, ts, scales in tasks:
                e2 = make_task(Pq, ts)
                f = e2.evaluate() if hasattr(e2, 'evaluate') else e2
                f = f.copy()
                wl = Pq.solver.dist.layouts[P.solver.dist.get_layout_object(lay).index]
                f.require_coeff_space()
                f.change_scales(scales)
                f.change_layout(wl)
                out[(h, name)] = np.array(f.data)
        return out
    def sync():
        """Give the twin the state of the run (so that task values are compared to rounding)."""
        for nme in P.vars:
            a, b = P.vars[nme], Q.vars[nme]
            b['c'] = np.array(a['c'])
        Q.t['g'] = np.array(P.t['g'])
    W = make()   # runs without handlers
    steps = 0
    nonlocal_i = [0]
    def should():
        return not (t >= lim['stop_sim_time'] or clock.now - base_init >= lim['stop_wall_time'] or it >= lim['stop_iteration'])
    if kindstop == 'evolve':
        seen = []
        def fn():
            seen.append(S.iteration)
            return dts[len(seen) % len(dts)]
        S.evolve(fn, log_cadence=1)
        require(seen == list(range(n)) and S.iteration == n, f'evolve to iteration {n} took steps at {seen}, ended at {S.iteration}')
        for i in range(n):
            W.solver.step(dts[(i + 1) % len(dts)])
        nfire += sum(len(h.runs) for _, h, _, _ in rec)
    else:
        while True:
            go = S.proceed
            require(bool(go) == should(), f'proceed is {go} at time {t}, wall {clock.now - base_init}, iteration {it} with limits {lim}')
            if not go or steps > 12:
                break
            dt = dts[steps % len(dts)]
            sync()
            if not all(np.isfinite(x).all() and np.abs(x).max(initial=0) < 1e5 for x in P.state().values()):
                raise Skip('diverged')
            before = [len(h.runs) for _, h, _, _ in rec]
            exp = expected(Q)
            S.step(dt)
            check_step(dt, before, exp)
            W.solver.step(dt)
            it += 1
            t += dt
            steps += 1
            require(S.iteration == it and abs(S.sim_time - t) < 1e-12, f'clock after step: {S.iteration}, {S.sim_time} for {it}, {t}')
            if c['between'] == 1 and steps % 2:
                S.evaluate_handlers([h for _, h, _, _ in rec], dt=dt)
            elif c['between'] == 2 and steps % 2:
                S.evaluate_handlers(dt=dt)
            clock.now += c['wall'][steps % len(c['wall'])]
    A, B = P.state(), W.state()
    big = np.max([1.0] + [np.abs(x).max(initial=0) for x in B.values()])
    if not np.isfinite(big) or big > 1e6:
        raise Skip('diverged')
    for nme in A:
        assert_close(A[nme], B[nme], f'{nme} after {S.iteration} steps of {c["scheme"]} on {kind} with handlers {[[(t["kind"], t["layout"], t["scales"]) for t in h["tasks"]] for h in c["handlers"]]}', rtol=1e-7, scale=big)
    return {'nontrivial': nfire > 0 and S.iteration > 0, 'tags': sorted(tags)}


SUBS = [Sub('schedule', case, run, quick=2500, thorough=30000), Sub('regular', regular_case, run_regular, quick=1500, thorough=15000), Sub('solver', solver_case, run_solver, quick=400, thorough=4000)]
