"""C15 saved states restore the simulation they were saved from."""
import os, shutil, tempfile, pathlib
import numpy as np
import h5py
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation, expect_raises
from vlib import spaces as V, ivp, lin
import dedalus.public as d3

FORMS = ('helm', 'helm', 'first', 'stokes', 'pair')
ONESTEP = ['RK111', 'RK222', 'RK443', 'RKSMR', 'RKGFY', 'CNAB1', 'SBDF1']


def project(f):
    """Keep what the transforms represent at every scale (the triangular truncation of components depends on the grid)."""
    for s in (2, 1.5, 1):
        f.change_scales(s)
        f['g'], f['c']


def scratch():
    base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
    return tempfile.mkdtemp(prefix='verif-', dir=base)


def case():
    save = st.tuples(st.sampled_from(['g', 'g', 'c']), st.sampled_from([None, 1, 1.5, 2, 1.25])).map(list)
    return st.fixed_dictionaries({'sys': lin.system_st(forms=FORMS, small=True), 'scheme': st.sampled_from(ivp.SCHEMES + ONESTEP), 'terms': st.lists(st.sampled_from(ivp.TERMS), max_size=3), 'opts': ivp.opts_st(('superlunaturalspsolve', None)),
                                  't0': st.sampled_from([0.0, 0.0, 1.5, -0.7]), 'saves': st.lists(save, min_size=1, max_size=4), 'iter': st.sampled_from([1, 1, 2, 3]), 'max_writes': st.sampled_from([None, None, 1, 2]),
                                  'dts': st.lists(st.sampled_from([0.05, 0.02, 0.01, 0.03]), min_size=3, max_size=7), 'index': st.integers(0, 9), 'neg': st.booleans(), 'into': st.sampled_from(['new', 'new', 'same', 'same', 'used', 'partial']),
                                  'used': st.integers(1, 4), 'cont': st.integers(1, 3), 'h2': st.sampled_from([None, 1, 2]), 'seed': st.integers(0, 10**6), 'path': st.booleans()})


def run(c):
    d = scratch()
    try:
        return run_(c, d)
    finally:
        shutil.rmtree(d)


def run_(c, d):
    if c['sys']['space']['dtype'] == 'c' and c['sys']['space']['kind'] == 'cart' and all(a['t'] == 'F' for a in c['sys']['space']['axes']):
        c = dict(c, sys=dict(c['sys'], ncc=0))
    kind = c['sys']['space']['kind']
    def make(handlers=True):
        P = ivp.Problem(c['sys'], c['scheme'], c['terms'], c['opts'], c['t0'])
        P.t['g'] = c['t0']
        return P
    A = make()
    A.init(V.rng(c['seed']), 0.2)
    S = A.solver
    h = S.evaluator.add_file_handler(os.path.join(d, 'chk'), iter=c['iter'], max_writes=c['max_writes'])
    if c['saves'] == [['g', None]]:
        h.add_tasks(S.state, **({} if kind == 'cart' else {'scales': 2}))
    else:
        for i, f in enumerate(S.state):
            lay, sc = c['saves'][i % len(c['saves'])]
            if lay == 'c' or kind != 'cart':
                # the modes of curvilinear components that a grid resolves depend on its size: save on a fine grid
                sc = None if lay == 'c' else 2
            h.add_task(f, layout=lay, scales=sc, name=f.name)
    states, times, steps = [], [], 0
    def truth():
        return {n: np.array(x) for n, x in A.state().items()}
    for dt in c['dts']:
        states.append(truth())
        times.append(S.sim_time)
        S.step(dt)
        steps += 1
        if not all(np.isfinite(x).all() and np.abs(x).max(initial=0) < 1e5 for x in A.state().values()):
            raise Skip('unstable trajectory')
    states.append(truth())
    times.append(S.sim_time)
    writes = list(range(0, steps, c['iter']))
    w = c['index'] % len(writes)
    it = writes[w]
    mw = c['max_writes'] or 10**6
    setn, idx = w // mw + 1, w % mw
    nset = min(mw, len(writes) - (setn - 1) * mw)
    path = os.path.join(d, 'chk', f'chk_s{setn}.h5')
    if c['path']:
        path = pathlib.Path(path)
    index = idx - nset if c['neg'] else idx
    into = c['into']
    if into == 'same':
        B = A
    else:
        B = make()
        B.init(V.rng(c['seed'] + 1), 0.2)
        if into == 'used':
            for k in range(c['used']):
                B.solver.step(0.02)
            if not all(np.isfinite(x).all() and np.abs(x).max(initial=0) < 1e5 for x in B.state().values()):
                raise Skip('unstable trajectory')
    T = B.solver
    if c['h2']:
        # another handler must not matter
        T.evaluator.add_dictionary_handler(iter=c['h2']).add_task(T.state[0], name='other')
    what = f'{c["scheme"]} on {kind}, write {w} (iteration {it}) of {len(writes)} into a {into} solver, saved as {c["saves"]}'
    args = {} if index == -1 and c['neg'] else {'index': index}
    if into == 'partial':
        # a save file without one of the variables
        drop = T.state[c['index'] % len(T.state)]
        with h5py.File(path, 'r+') as f:
            del f['tasks'][drop.name]
        keep = B.state()[drop.name]
        expect_raises(lambda: T.load_state(path, **args), (IOError,), f'loading without {drop.name}')
        B.init(V.rng(c['seed'] + 1), 0.2)
        ret = T.load_state(path, allow_missing=True, **args)
        got = B.state()
        assert_close(got[drop.name], keep, f'{what}: missing variable {drop.name} is left alone', scale=max(1, np.abs(keep).max(initial=0)))
    else:
        ret = T.load_state(path, **args)
    big = max(1.0, *(np.abs(x).max(initial=0) for x in states[it].values()))
    write, dt = ret
    require(write == w + 1, f'{what}: returned write number {write}')
    require(dt == c['dts'][it], f'{what}: returned timestep {dt} for {c["dts"][it]}')
    require(T.iteration == it, f'{what}: iteration {T.iteration}')
    require(T.sim_time == times[it] and np.all(B.t['g'] == times[it]), f'{what}: time {T.sim_time} for {times[it]}')
    got = B.state()
    # unresolved curvilinear and tau data may be cut by the grid they are stored on
    tol = 1e-9
    for n, x in states[it].items():
        if into == 'partial' and n == drop.name:
            continue
        assert_close(got[n], x, f'{what}: variable {n} after loading', rtol=tol, scale=big)
    tags = [kind, c['scheme'], into, 'set%d' % min(setn, 2)] + sorted({s[0] for s in c['saves']})
    if into == 'partial':
        return {'nontrivial': True, 'tags': tags}
    # continuation
    onestep = c['scheme'] in ONESTEP
    cont = min(c['cont'], steps - it)
    big = max(big, *(np.abs(x).max(initial=0) for s in states[it:it + cont + 1] for x in s.values()))
    if onestep:
        for k in range(cont):
            T.step(c['dts'][it + k])
            got = B.state()
            require(T.iteration == it + k + 1 and abs(T.sim_time - times[it + k + 1]) < 1e-12, f'{what}: clock after {k + 1} further steps')
            for n, x in states[it + k + 1].items():
                assert_close(got[n], x, f'{what}: variable {n} after {k + 1} further steps', rtol=1e-6, scale=big)
        tags.append('continued')
    elif into == 'new':
        # restarting a multistep scheme equals starting it from the saved state
        C = make()
        for n, x in states[it].items():
            C.vars[n]['c'] = x
        C.solver.sim_time = times[it]
        for k in range(cont):
            T.step(c['dts'][it + k])
            C.solver.step(c['dts'][it + k])
        got, want = B.state(), C.state()
        big = max(big, *(np.abs(x).max(initial=0) for x in want.values()))
        if not big < 1e5:
            raise Skip('unstable trajectory')
        for n, x in want.items():
            assert_close(got[n], x, f'{what}: variable {n} after restarting for {cont} steps', rtol=1e-6, scale=big)
        tags.append('restarted')
    return {'nontrivial': cont > 0 and it > 0 or len(writes) > 1, 'tags': tags}


# ------------------------------------------------------------------------------------------------------------- fields

def field_case():
    space = st.one_of(V.cart_space(dims=(1, 2, 3), sizes3=(4, 6)), V.cart_space(dims=(1,), axis=st.one_of(V.fourier_axis(sizes=tuple(range(4, 64, 2))), V.jacobi_axis(sizes=tuple(range(4, 64))))),
                      V.curvi_polar(), V.curvi_sphere(), V.curvi_3d(nphi=(8,), nth=(4, 6), nr=(5, 6)), V.curvi_cyl())
    return st.fixed_dictionaries({'space': space, 'rank': st.integers(0, 2), 'const': st.integers(0, 3), 'layout': st.sampled_from(['g', 'g', 'g', 'c', 'mid']), 'scales': st.one_of(st.sampled_from([1, 1.5, 2, 1.25]), st.integers(0, 40).map(lambda x: 1 + x / 40)),
                                  'how': st.sampled_from(['hdf5', 'hdf5', 'array', 'func', 'rename']), 'size2': st.sampled_from([0, 0, 0, 1, -1]), 'seed': st.integers(0, 10**6), 'pre': st.sampled_from([None, 1, 1.5, 2]), 'prelay': st.sampled_from(['g', 'c']), 'nw': st.integers(1, 3)})


def run_field(c):
    d = scratch()
    try:
        return run_field_(c, d)
    finally:
        shutil.rmtree(d)


def run_field_(c, d):
    S = V.build(c['space'])
    kind = c['space']['kind']
    cart = kind == 'cart'
    r = V.rng(c['seed'])
    bases = list(S.bases)
    if cart and c['const'] < len(bases) and len(bases) > 1:
        del bases[c['const']]
    rank = c['rank'] if kind not in ('sphere', 'ball', 'shell', 'cyl') else min(c['rank'], 1)
    def fld(name, bases):
        return S.dist.Field(name=name, bases=tuple(bases), tensorsig=(S.cs,) * rank)
    f = fld('f', bases)
    V.random_coeffs(f, r)
    project(f)
    data = []
    # write through a file handler, several writes
    from dedalus.core import evaluator as ev
    E = ev.Evaluator(S.dist, {})
    lay = S.dist.layouts[len(S.dist.layouts) // 2] if c['layout'] == 'mid' else S.dist.get_layout_object(c['layout'])
    sc = c['scales'] if c['layout'] == 'g' and cart else 1 if c['layout'] != 'g' or c['scales'] < 1.5 else (1.5 if not cart else 1)
    if c['how'] in ('hdf5', 'rename', 'func'):
        h = E.add_file_handler(os.path.join(d, 'o'))
        name = 'f' if c['how'] != 'rename' else 'something else'
        h.add_task(f, layout=lay, scales=sc, name=name)
        for k in range(c['nw']):
            f['c'] = f['c'] * (k + 1)
            data.append(np.array(f['c']))
            E.evaluate_handlers([h], iteration=k)
    # a field with different state, and possibly different resolution, receives it
    bases2 = bases
    pad = 0
    if c['size2'] and cart and c['layout'] == 'g':
        bases2 = []
        for b in bases:
            n2 = b.size + 2 * c['size2']
            if n2 < 4:
                return {'nontrivial': False, 'tags': []}
            bases2.append(b.clone_with(size=n2) if hasattr(b, 'clone_with') else b)
        pad = c['size2']
    g = fld('f', bases2)
    V.random_coeffs(g, r)
    if c['pre']:
        g.change_scales(c['pre'])
    g[c['prelay']]
    pure = c['layout'] != 'mid' or np.all(lay.grid_space) or np.all(~np.array(lay.grid_space))
    what = f'rank {rank} on {kind} {c["space"]}, layout {c["layout"]} scales {sc} {c["how"]} into sizes {[b.shape for b in bases2]}'
    grid = bool(np.all(lay.grid_space))
    if c['how'] == 'array':
        f.change_scales(sc)
        x = f[lay].copy()
        if not pure:
            return {'nontrivial': False, 'tags': []}
        want = np.array(f['c'])
        if grid:
            g.load_from_global_grid_data(x)
        else:
            g.load_from_global_coeff_data(x)
    else:
        k = c['seed'] % c['nw']
        want = data[k]
        with h5py.File(os.path.join(d, 'o', 'o_s1.h5'), 'r') as file:
            kw = {'task': name} if c['how'] == 'rename' else {}
            if c['how'] == 'func':
                kw['func'] = lambda x: -2 * x
                want = -2 * want
            if not pure:
                expect_raises(lambda: g.load_from_hdf5(file, k, **kw), (ValueError,), what)
                return {'nontrivial': True, 'tags': ['mixed layout refused']}
            g.load_from_hdf5(file, k, **kw)
    got = np.array(g['c'])
    require(tuple(g.scales) == tuple(S.dist.remedy_scales(g.domain.dealias)) or not grid, f'{what}: scales after loading {g.scales}')
    if pad:
        # common modes only: pad or cut the larger array (Nyquist-type ends excluded)
        if pad < 0:
            return {'nontrivial': True, 'tags': ['coarser']}   # loaded without error; its aliases are not specified
        for ax in range(rank, got.ndim):
            n, m = want.shape[ax], got.shape[ax]
            if n == m:
                continue
            b = g.domain.full_bases[ax - rank]
            if type(b).__name__ != 'ComplexFourier':
                idx = np.arange(n)
            else:
                kk = np.fft.fftfreq(n, 1 / n).astype(int)
                idx = np.array([q if q >= 0 else m + q for q in kk])
            out = np.zeros(want.shape[:ax] + (m,) + want.shape[ax + 1:], dtype=want.dtype)
            out[(slice(None),) * ax + (idx,)] = want
            want = out
    big = max(1.0, np.abs(want).max(initial=0))
    mask = np.broadcast_to(V.valid_mask(g), got.shape)
    assert_close(np.where(mask, got, 0), np.where(mask, want, 0), f'{what}: coefficients after loading', rtol=1e-9, scale=big)
    return {'nontrivial': True, 'tags': [kind, 'rank%d' % rank, c['layout'], c['how'], 'resized' if pad else 'same size']}


SUBS = [Sub('restart', case, run, quick=420, thorough=5000), Sub('fields', field_case, run_field, quick=1500, thorough=20000)]
