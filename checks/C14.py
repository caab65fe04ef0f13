"""C14 output files contain exactly what was scheduled, when it was scheduled."""
import os, shutil
import numpy as np
import h5py
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation, expect_raises
from vlib import spaces as V
from checks.C15 import scratch, project
import dedalus.public as d3
from dedalus.core import evaluator as ev

KINDS = ['u', 'u', 'w', 'sq', 'lin', 'const', 'part', 'integ', 'interp', 'tens', 'time', 'grad']
FOREIGN = ['out_summary.h5', 'out_s1_old.h5', 'out_s1.txt', 'notes.txt', 'other_s1.h5', 'out_s2.h5.bak', 'out_sx.h5', 'out_snapshots/', 'out_s3_copy/', 'xout_s1.h5', 'out_s.h5']


def tasks_st():
    return st.lists(st.fixed_dictionaries({'kind': st.sampled_from(KINDS), 'layout': st.sampled_from(['g', 'g', 'c', 'mid', 'mid2']), 'scales': st.one_of(st.sampled_from([None, 1, 1.5, 2, 0.5]), st.lists(st.sampled_from([1, 1.5, 2, 0.5, 1.25]), min_size=3, max_size=3)),
                                           'named': st.booleans()}), min_size=1, max_size=4)


def handler_st():
    return st.fixed_dictionaries({'tasks': tasks_st(), 'max_writes': st.sampled_from([None, None, 1, 2, 3]), 'parallel': st.sampled_from([None, 'gather', 'virtual'])})


def case():
    space = st.one_of(V.cart_space(dims=(1, 2, 3), sizes3=(4, 6), dealias=(1, 1.5)), V.cart_space(dims=(2,), dealias=(1, 1.5)), V.curvi_polar(nphi=(8,), nr=(6,)), V.curvi_sphere(nphi=(8,), nth=(6,)), V.curvi_3d(nphi=(8,), nth=(4,), nr=(5,)), V.curvi_cyl())
    op = st.one_of(st.tuples(st.just('write'), st.integers(0, 999)), st.tuples(st.just('write'), st.integers(0, 999)), st.tuples(st.just('write'), st.integers(0, 999)), st.tuples(st.sampled_from(['append', 'append', 'overwrite', 'foreign', 'modify', 'scales', 'default']), st.integers(0, 999)))
    return st.fixed_dictionaries({'space': space, 'handlers': st.lists(handler_st(), min_size=1, max_size=3), 'second': st.one_of(st.none(), handler_st()), 'base': st.sampled_from(['out', 'out', 'sub/dir/out', 'o.ut', 'o+(1)', 'out_s1']),
                                  'foreign': st.lists(st.sampled_from(FOREIGN), max_size=2), 'first': st.sampled_from(['append', 'overwrite', None]), 'ops': st.lists(op.map(list), min_size=3, max_size=12), 'seed': st.integers(0, 10**6)})


def run(c):
    d = scratch()
    try:
        return run_(c, d)
    finally:
        shutil.rmtree(d)


class H:
    """Model of a handler's output: the sets it should own and their writes."""

    def __init__(self):
        self.sets = {}      # set number -> list of writes
        self.set_num, self.total = None, 0


def run_(c, d):
    S = V.build(c['space'])
    kind, dist, cs = c['space']['kind'], S.dist, S.cs
    cart = kind == 'cart'
    r = V.rng(c['seed'])
    u = dist.Field(name='u', bases=S.bases)
    w = dist.Field(name='w', bases=S.bases, tensorsig=(cs,))
    t = dist.Field(name='t')
    p = dist.Field(name='p', bases=S.bases[-1:]) if cart else u
    T = dist.Field(name='T', bases=S.bases, tensorsig=(cs, cs)) if kind in ('cart', 'disk', 'annulus') else w
    for f in (u, w, p, T):
        V.random_coeffs(f, r)
        project(f)
    t['g'] = 0.25
    E = ev.Evaluator(dist, {})

    def expr(k):
        if k in ('u', 'w', 'sq', 'lin', 'part', 'const', 'tens', 'time', 'grad'):
            return {'u': u, 'w': w, 'sq': u * u, 'lin': 2 * u + 1, 'part': p, 'const': t, 'tens': T, 'time': t * u, 'grad': d3.grad(u) if kind != 'cyl' else u}[k]
        if k == 'integ':
            return d3.Integrate(u) if kind not in ('sphere', 'cyl') else u
        if k == 'interp':
            if cart:
                co = cs.coords[-1]
                b = S.bases[-1]
                return u(**{co.name: b.bounds[0] + 0.3 * (b.bounds[1] - b.bounds[0])}) if len(S.bases) > 0 else u
            if kind in ('disk', 'annulus', 'ball', 'shell'):
                return d3.Interpolate(u, S.bases[0].radial_coord if hasattr(S.bases[0], 'radial_coord') else cs.coords[-1], 0.8)
            return u
    def layout(name):
        L = dist.layouts
        return {'g': 'g', 'c': 'c', 'mid': L[len(L) // 2], 'mid2': L[1]}[name]
    names = {}
    def make(spec, mode, base):
        h = E.add_file_handler(base, parallel=spec['parallel'], max_writes=spec['max_writes'], mode=mode)
        ts = []
        for i, q in enumerate(spec['tasks']):
            e = expr(q['kind'])
            sc = q['scales']
            if isinstance(sc, list):
                sc = tuple(sc[:dist.dim])
            if not cart and (np.min(sc if sc is not None else 1) < 1 or q['layout'][:3] == 'mid'):
                sc = None
            nm = f'{q["kind"]} {i}' if q['named'] else None
            if nm is None and str(e) in [x[0] for x in ts]:
                nm = f'task{i}'
            h.add_task(e, layout=layout(q['layout']), scales=sc, name=nm)
            ts.append((nm or str(e), e, layout(q['layout']), dist.remedy_scales(sc)))
        E.handlers.remove(h)
        return h, ts

    def evaluate(ts):
        out = {}
        for nm, e, lay, sc in ts:
            f = e.copy() if isinstance(e, d3.Field) else e.evaluate().copy()
            f.require_coeff_space()
            f.change_scales(sc)
            f.change_layout(dist.get_layout_object(lay))
            out[nm] = np.array(f.data)
        return out

    def snapshot_foreign():
        out = {}
        for root, dirs, files in os.walk(d):
            for f in files:
                q = os.path.join(root, f)
                if q in foreign:
                    out[q] = open(q, 'rb').read()
        return out

    base = os.path.join(d, c['base'])
    stem = os.path.splitext(os.path.basename(base))[0]
    foreign = {}
    def plant(name):
        name = name.replace('out', stem, 1)
        os.makedirs(base, exist_ok=True)
        if name.endswith('/'):
            os.makedirs(os.path.join(base, name), exist_ok=True)
            name = name + 'keep.txt'
        q = os.path.join(base, name)
        foreign[q] = b'mine %d' % len(foreign)
        open(q, 'wb').write(foreign[q])
    for n in c['foreign']:
        plant(n)
    M = H()
    tags = {kind}
    written = {}

    def start(mode, spec):
        nonlocal written
        h, ts = make(spec, mode, base)
        eff = mode or 'overwrite'
        if eff == 'overwrite':
            M.sets.clear()
            M.total, M.set_num = 0, 1
        else:
            M.set_num = max(M.sets, default=0) + 1
        M.cur = []
        M.spec = spec
        tags.add('mode ' + eff)
        tags.add('out ' + str(spec['parallel']))
        return h, ts
    specs = c['handlers']
    si = 0
    h, ts = start(c['first'], specs[0])
    h2 = None
    if c['second']:
        base2 = os.path.join(d, 'second', os.path.basename(c['base']))
        h2, ts2 = make(c['second'], None, base2)
        M2 = H()
        M2.set_num, M2.total, M2.spec, M2.cur = 1, 0, c['second'], []
    def record(M, ts, kw):
        M.total += 1
        mw = M.spec['max_writes']
        if mw is not None and len(M.cur) == mw:
            M.set_num += 1
            M.cur = []
        M.sets[M.set_num] = (M.cur, dict(M.spec, ts=ts))
        M.cur.append((dict(kw, write_number=M.total), evaluate(ts)))
    nw = restarts = 0
    for op, v in c['ops']:
        if op == 'write':
            kw = dict(iteration=v, sim_time=v / 7, wall_time=v * 1.5, timestep=0.1 + v)
            hs = [h] + ([h2] if h2 is not None and v % 2 else [])
            E.evaluate_handlers(hs, **kw)
            record(M, ts, kw)
            if len(hs) > 1:
                record(M2, ts2, kw)
            nw += 1
        elif op == 'default':
            E.evaluate_handlers([h], iteration=v)
            record(M, ts, dict(iteration=v, sim_time=0, wall_time=0, timestep=0))
        elif op == 'modify':
            t['g'] = v / 10
            f = [u, w, p, T][v % 4]
            f['c'] = f['c'] * (1 + v / 500)
        elif op == 'scales':
            f = [u, w, p, T][v % 4]
            f.change_scales([1, 1.5, 2][v % 3])
            f[['g', 'c'][v % 2]]
        elif op == 'foreign':
            plant(FOREIGN[v % len(FOREIGN)])
        else:
            si += 1
            restarts += 1
            keep = snapshot_foreign()
            h, ts = start(op, specs[si % len(specs)])
            for q, x in foreign.items():
                require(os.path.exists(q) and open(q, 'rb').read() == x, f'starting a handler {base} in mode {op} lost {os.path.relpath(q, base)}')
    for q, x in foreign.items():
        require(os.path.exists(q) and open(q, 'rb').read() == x, f'handler {base} lost {os.path.relpath(q, base)}')
    verify(M, base, S, tags)
    if h2 is not None:
        verify(M2, base2, S, tags)
    return {'nontrivial': nw > 1, 'tags': sorted(tags) + (['restart'] if restarts else []) + (['sets'] if len(M.sets) > 1 else [])}


def verify(M, base, S, tags):
    """Compare all files below base with the model."""
    dist, cs = S.dist, S.cs
    stem = os.path.splitext(os.path.basename(base))[0]
    import re
    found = {}
    if os.path.isdir(base):
        for n in os.listdir(base):
            m = re.match(re.escape(stem) + r'_s(\d+)\.h5$', n)
            if m:
                found[int(m.group(1))] = n
    require(sorted(found) == sorted(M.sets), f'sets on disk {sorted(found)}, expected {sorted(M.sets)} (handler {M.spec["max_writes"]} writes per set)')
    for s, (writes, spec) in M.sets.items():
        what = f'set {s} ({spec["parallel"]}, max_writes {spec["max_writes"]})'
        with h5py.File(os.path.join(base, found[s]), 'r') as f:
            require(f.attrs['set_number'] == s and f.attrs['writes'] == len(writes) and f.attrs['handler_name'] == stem, f'{what}: attributes {dict(f.attrs)} for {len(writes)} writes')
            for k in ('iteration', 'sim_time', 'wall_time', 'timestep', 'write_number'):
                got = f['scales'][k][:]
                want = np.array([w[0][k] for w in writes])
                require(got.shape == want.shape and np.array_equal(got, want), f'{what}: {k} {got} expected {want}')
            require(set(f['tasks']) == {q[0] for q in spec['ts']}, f'{what}: tasks {list(f["tasks"])}')
            for nm, e, lay, sc in spec['ts']:
                D = f['tasks'][nm]
                L = dist.get_layout_object(lay)
                want = np.array([w[1][nm] for w in writes])
                data = D[:]
                require(data.shape == want.shape, f'{what}: task {nm} shape {data.shape} expected {want.shape}')
                require(data.dtype == e.dtype, f'{what}: task {nm} dtype {data.dtype}')
                if S.spec['kind'] != 'cart' and not np.all(L.grid_space):
                    # modes that do not exist hold no information
                    mask = valid(S, e, L, data.shape[1:])
                    data, want = np.where(mask, data, 0), np.where(mask, want, 0)
                assert_close(data, want, f'{what}: task {nm} in {"".join("gc"[1 - int(g)] for g in L.grid_space)} at scales {sc} on {S.spec["kind"]}', rtol=1e-10, scale=max(1e-3, np.abs(want).max(initial=0)))
                require(np.array_equal(D.attrs['grid_space'], L.grid_space) and np.array_equal(D.attrs['constant'], e.domain.constant) and np.array_equal(D.attrs['scales'], sc), f'{what}: attributes of {nm}')
                # dimensions
                labels = [x.label for x in D.dims]
                rank = len(e.tensorsig)
                require(labels[0] == 't' and all(l == '' for l in labels[1:1 + rank]), f'{what}: labels of {nm}: {labels}')
                require({'sim_time', 'wall_time', 'timestep', 'iteration', 'write_number'} == set(D.dims[0].keys()), f'{what}: time scales of {nm}: {list(D.dims[0].keys())}')
                for k in D.dims[0].keys():
                    require(np.array_equal(D.dims[0][k][:], [w[0][k] for w in writes]), f'{what}: time scale {k} of {nm}')
                for axis in range(dist.dim):
                    b = e.domain.full_bases[axis]
                    dim = D.dims[1 + rank + axis]
                    n = data.shape[1 + rank + axis]
                    if b is None:
                        require(dim.label == 'constant' and len(dim) == 1 and np.array_equal(dim[0][:], [0.0]), f'{what}: constant axis {axis} of {nm}')
                        continue
                    co = dist.coords[axis].name
                    x = np.asarray(dim[0][:])
                    require(dim.label == (co if L.grid_space[axis] else 'k' + co) and len(dim) == 1, f'{what}: label of axis {axis} of {nm}: {dim.label}')
                    if L.grid_space[axis]:
                        full = grids_of(S, e.domain.bases, sc)
                        want_x = full[co]
                        require(x.shape == want_x.shape == (n,), f'{what}: task {nm} has {n} points along {co} (scales {sc}) but its coordinate has {x.shape}')
                        assert_close(x, want_x, f'{what}: coordinate {co} of {nm} at scales {sc}', rtol=1e-12, scale=1 + np.abs(want_x).max())
                    else:
                        shape = data.shape[1 + rank:]
                        require(x.shape in ((n,), shape), f'{what}: task {nm} has shape {shape} but its {dim.label} has {x.shape}')
                        G = np.ma.filled(np.ma.asarray(L.global_group_arrays(e.domain, sc)[axis]).astype(float), np.nan)
                        if S.spec['kind'] == 'cart':
                            # group numbers along the axis from their definition
                            i = np.arange(n)
                            kk = {'RealFourier': i // 2, 'ComplexFourier': np.where(i <= (n - 1) // 2, i, i - n), 'Jacobi': i}[type(b).__name__]
                            xx = x if x.ndim == 1 else np.moveaxis(x, axis, 0).reshape(n, -1)
                            require(np.array_equal(np.abs(xx if xx.ndim == 1 else xx[:, 0]), np.abs(kk)) and (xx.ndim == 1 or np.all(xx == xx[:, :1])), f'{what}: {dim.label} of {nm} is {xx if xx.ndim == 1 else xx[:, 0]}, expected {kk}')
                tags.add('dims %d rank %d' % (dist.dim, rank))


def valid(S, e, L, shape):
    f = S.dist.Field(bases=e.domain.bases, tensorsig=e.tensorsig)
    if not np.any(L.grid_space):
        return np.broadcast_to(V.valid_mask(f), shape)
    # partially transformed: only the azimuthal modes are known
    m = np.ones(shape, dtype=bool)
    ax = 1 if S.spec['kind'] == 'cyl' else 0
    if S.real and not L.grid_space[ax] and e.domain.full_bases[ax] is not None:
        m[(slice(None),) * (len(e.tensorsig) + ax) + (1,)] = len(e.tensorsig) > 0
    return m


def grids_of(S, bases, sc):
    out = {}
    for b in bases:
        gs = S.dist.local_grids(b, scales=sc)
        i = S.dist.get_basis_axis(b)
        for j, g in enumerate(gs):
            out[S.dist.coords[i + j].name] = np.asarray(g).ravel()
    return out


SUBS = [Sub('files', case, run, quick=900, thorough=12000)]
