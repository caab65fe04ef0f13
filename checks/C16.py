"""C16 results do not depend on the number of processes or the process mesh."""
import numpy as np
from hypothesis import strategies as st
from mpi4py import MPI
from vlib.core import Sub, require, assert_close, Skip, Violation, HarnessError
from vlib import spaces as V, lin, ivp, exprs, mpi
import dedalus.public as d3
from dedalus.core import distributor as ddist

JOBS = 3         # every worker has a group of eight processes
MESHES2 = [[1], [2], [3], [4], [5], [6], [7], [8]]
MESHES3 = [[2], [3], [4], [5], [7], [8], [2, 2], [2, 3], [3, 2], [2, 4], [4, 2], [1, 3], [1, 4], [5, 1], [1, 2], [2, 2], [2, 1]]


def mesh_st(dim):
    return {'mesh': st.sampled_from(MESHES2[1:] if dim == 2 else MESHES3)}


def size(mesh):
    return int(np.prod(mesh))


# ---------------------------------------------------------------------------------------------------------- both sides

class Side:
    """One execution: serial (records inputs) or distributed (loads the recorded inputs)."""

    def __init__(self, comm, mesh=None, given=None):
        self.comm, self.mesh, self.given = comm, mesh, given
        self.made, self.out = {}, {}
        self.kw = {'comm': comm} if mesh is None else {'comm': comm, 'mesh': mesh}

    @property
    def serial(self):
        return self.given is None

    def sync(self, name, f):
        """Same coefficients on both sides."""
        if self.serial:
            self.made[name] = np.array(f['c'])
            f['c'] = self.made[name]
        else:
            g = self.given[name]
            f.preset_layout('c')
            f.data[...] = g[(slice(None),) * len(f.tensorsig) + tuple(np.ix_(*f.dist.coeff_layout.local_elements(f.domain, 1)))] if f.data.size else 0
        return f

    def sync_grid(self, name, f, make, scales):
        f.preset_scales(scales)
        f.preset_layout('g')
        if self.serial:
            self.made[name] = g = make(f.data.shape)
            f.data[...] = g
        else:
            g = self.given[name]
            els = f.dist.grid_layout.local_elements(f.domain, f.scales)
            if f.data.size:
                f.data[...] = g[(slice(None),) * len(f.tensorsig) + tuple(np.ix_(*els))]
        return f

    def gather(self, f, what='field'):
        """Global data in the present layout; every element must be held exactly once."""
        lay = f.layout
        els = lay.local_elements(f.domain, f.scales)
        shape = tuple(cs.dim for cs in f.tensorsig) + tuple(lay.global_shape(f.domain, f.scales))
        return self.assemble(shape, els, np.array(f.data), len(f.tensorsig), what)

    def assemble(self, shape, els, data, rank, what):
        if data.shape != shape[:rank] + tuple(len(e) for e in els):
            raise Violation(f'{what}: local data of shape {data.shape} for elements {[len(e) for e in els]}')
        pieces = self.comm.gather((els, data), root=0)
        if pieces is None:
            return None
        out = np.zeros(shape, dtype=data.dtype)
        count = np.zeros(shape[rank:], dtype=int)
        for e, d in pieces:
            if d.size:
                ix = np.ix_(*e)
                count[ix] += 1
                out[(slice(None),) * rank + tuple(ix)] = d
        if not np.all(count == 1):
            raise Violation(f'{what}: elements held by {np.unique(count)} processes, shape {shape}')
        return out

    def put(self, name, value):
        self.out[name] = value

    def everywhere(self, name, value):
        """A value every process must agree on."""
        vals = self.comm.allgather(value)
        for r, v in enumerate(vals):
            if not np.array_equal(np.asarray(v), np.asarray(vals[0]), equal_nan=np.asarray(v).dtype.kind in 'fc'):
                raise Violation(f'{name}: {v} on process {r}, {vals[0]} on process 0')
        self.put(name, vals[0])


def body(comm, module, func, c, mesh, given):
    """Executed by every process of the group."""
    import importlib
    R = Side(comm, mesh, given)
    getattr(importlib.import_module(module), func)(R, c)
    return R.out


def compare(got, want, what, rtol):
    require(set(got) == set(want), f'{what}: outputs {sorted(set(got) ^ set(want))} on one side only')
    for k in want:
        a, b = got[k], want[k]
        if isinstance(b, (np.ndarray, float, complex, np.floating, np.complexfloating)):
            b = np.asarray(b)
            require(np.shape(a) == b.shape, f'{what}: {k} has shape {np.shape(a)} for {b.shape}')
            if not np.all(np.isfinite(b)):
                raise Skip('not finite')
            assert_close(np.asarray(a), b, f'{what}: {k}', rtol=rtol if np.asarray(b).dtype.kind in 'fc' else 0, scale=max(1e-3, np.abs(b).max(initial=0)))
        else:
            require(a == b, f'{what}: {k} is {a} for {b}')


def both(func, c, mesh, what, rtol=1e-10, module='checks.C16'):
    import importlib
    R = Side(MPI.COMM_SELF)
    fail = None
    try:
        getattr(importlib.import_module(module), func)(R, c)
    except (Skip, HarnessError, Violation):
        raise
    except Exception as e:
        from vlib.core import in_repo
        if not in_repo(e.__traceback__):
            raise
        fail = e
    n = size(mesh)
    what = f'{what} on mesh {mesh}'
    res = mpi.call(n, 'checks.C16.body', module, func, c, mesh, R.made, limit=20 if mpi.Server.known_stuck else mpi.LIMIT)
    bad = res[0] != 'ok'
    if not bad and fail is None:
        try:
            compare(res[1], R.out, what, rtol)
            return R, res[1]
        except Violation:
            bad = True
    if res[0] == 'raised' and fail is not None and {e[0] for e in res[1].values()} == {type(fail).__name__}:
        raise Skip('refused in serial and in parallel')
    if bad and not (res[0] == 'stuck' and mpi.Server.known_stuck):
        # a second time in a fresh group: machine load or leftovers of an earlier case must not decide
        mpi.Server.stop()
        res = mpi.call(n, 'checks.C16.body', module, func, c, mesh, R.made, limit=2 * mpi.LIMIT)
    if res[0] == 'ok':
        if fail is not None:
            raise Violation(f'{what}: computed in parallel but refused in serial: {type(fail).__name__}: {fail}')
        compare(res[1], R.out, what, rtol)
        return R, res[1]
    if res[0] == 'raised':
        kinds = {e[0] for e in res[1].values()}
        if kinds & {'HarnessError', 'ImportError', 'ModuleNotFoundError'}:
            raise HarnessError(str(res[1]))
        if fail is not None and kinds == {type(fail).__name__}:
            raise Skip('refused in serial and in parallel')
        r, e = sorted(res[1].items())[0]
        raise Violation(f'{what}: process {r} raised {e[0]}: {e[1]}' + ('' if fail is None else f' (serial: {type(fail).__name__})') + f'\n{e[2][-1500:]}')
    if res[0] == 'stuck':
        mpi.Server.known_stuck = True
    raise Violation(f'{what}: {res[0]}: {res[1]}')


# --------------------------------------------------------------------------------------------------------------- layouts

def spaces(dims=(2, 3)):
    """(space, mesh)"""
    c2 = st.tuples(st.one_of(V.cart_space(dims=(2,), sizes=(4, 6, 8, 12)), V.cart_space(dims=(2,)), V.curvi_polar(), V.curvi_sphere()), st.sampled_from(MESHES2[1:]))
    c3 = st.tuples(st.one_of(V.cart_space(dims=(3,), sizes3=(4, 6, 8)), V.cart_space(dims=(3,), sizes3=(4,)), V.curvi_3d(), V.curvi_cyl()), st.sampled_from(MESHES3))
    return st.one_of(*([c2] if 2 in dims else []), *([c3, c3] if 3 in dims else [])).map(lambda t: {'space': t[0], 'mesh': t[1]})


def field_st(n=3):
    return st.lists(st.fixed_dictionaries({'rank': st.sampled_from([0, 0, 1, 2]), 'sub': st.sampled_from(['full', 'full', 'full', 'const', 'part']), 'scale': st.sampled_from([1, 1.5, 2, 0.5])}), min_size=1, max_size=n)


def layout_case():
    return st.fixed_dictionaries({'base': spaces(), 'fields': field_st(4), 'seed': st.integers(0, 10**6), 'group': st.booleans(), 'sync': st.sampled_from([False, False, True]), 'lib': st.sampled_from(['fftw', 'fftw', 'mpi']), 'gt': st.booleans(),
                                  'walk': st.lists(st.integers(0, 9), min_size=1, max_size=5)})


def make_fields(R, S, specs, seed):
    kind = S.spec['kind']
    r = V.rng(seed)
    out = []
    for i, F in enumerate(specs):
        bases = S.bases
        rank = F['rank']
        if F['sub'] == 'const' and (kind == 'cart' or not rank):
            bases = ()
        elif F['sub'] == 'part':
            if kind in ('cart', 'cyl'):
                if kind == 'cart' or not rank:
                    bases = tuple(b for j, b in enumerate(bases) if j != i % len(bases))
            elif kind in ('ball', 'shell') and not rank:
                bases = (S.bases[0].radial_basis if i % 2 else (S.bases[0].surface if kind == 'ball' else S.bases[0].outer_surface),)
            elif kind in ('disk', 'annulus') and not rank:
                bases = (S.bases[0].radial_basis if i % 2 else (S.bases[0].edge if kind == 'disk' else S.bases[0].outer_edge),)
        f = S.dist.Field(bases=bases, tensorsig=(S.cs,) * rank, name='f%d' % i)
        if R.serial:
            if 'Radial' in type(next(iter(bases), None)).__name__:
                f['c'] = r.standard_normal(f['c'].shape)     # these bases do not enumerate valid modes
            else:
                V.random_coeffs(f, r)
        R.sync(f.name, f)
        out.append(f)
    return out


def layouts_body(R, c):
    old = {k: getattr(ddist, k) for k in ('GROUP_TRANSPOSES', 'SYNC_TRANSPOSES', 'GROUP_TRANSFORMS', 'TransposePlanner')}
    from dedalus.core import transposes
    ddist.GROUP_TRANSPOSES, ddist.SYNC_TRANSPOSES, ddist.GROUP_TRANSFORMS = c['group'], c['sync'], c['gt']
    ddist.TransposePlanner = transposes.FFTWTranspose if c['lib'] == 'fftw' else transposes.AlltoallvTranspose
    try:
        S = V.build(c['base']['space'], **R.kw)
        dist = S.dist
        fs = make_fields(R, S, c['fields'], c['seed'])
        for f, F in zip(fs, c['fields']):
            f.change_scales(F['scale'])
        moves = [0, None]
        def check(state):
            gs = tuple(bool(x) for x in dist.layouts[state].grid_space)
            if gs != moves[1]:
                moves[0] += 1
                moves[1] = gs
            for f in fs:
                require(f.layout is dist.layouts[state], f'{f.name} in layout {f.layout.index} after moving all fields to layout {state}')
                key = f'{f.name} {moves[0]} {gs}'
                g = R.gather(f, key)
                if g is not None:
                    if key in R.out:
                        require(np.array_equal(g, R.out[key]), f'{key} changed in a transpose')
                    else:
                        R.put(key, g)
        here = 0
        check(0)
        for f in fs:
            for rk in range(R.comm.size):
                for L in dist.layouts:
                    sh = L.local_shape(f.domain, f.scales, rank=rk)
                    if rk == R.comm.rank:
                        require(sh == L.local_shape(f.domain, f.scales), f'local shape {sh} for own rank')
                        sl = L.slices(f.domain, f.scales)
                        require(tuple(s.stop - s.start for s in sl) == sh, f'slices {sl} for local shape {sh}')
        n = len(dist.layouts)
        ngrid = [int(np.sum(L.grid_space)) for L in dist.layouts]
        for w in [dist.dim] + c['walk'] + [0]:
            w = ngrid.index(w % (dist.dim + 1))
            while here < w:
                dist.paths[here].increment(fs)
                here += 1
                check(here)
            while here > w:
                here -= 1
                dist.paths[here].decrement(fs)
                check(here)
        # and back from the grid with every field by itself
        for f in fs:
            f['g'], f['c']
        moves[1] = None
        check(0)
        # random data placed in grid space
        r = V.rng(c['seed'] + 1)
        def mk(shape):
            x = r.standard_normal(shape)
            return x if S.real else x + 1j * r.standard_normal(shape)
        for f, F in zip(fs, c['fields']):
            R.sync_grid(f.name + ' grid', f, mk, F['scale'])
            key = f.name + ' from grid'
            f['c']
            g = R.gather(f, key)
            if g is not None:
                R.put(key, g)
    finally:
        for k, v in old.items():
            setattr(ddist, k, v)


def run_layouts(c):
    mesh = c['base']['mesh']
    what = f"layouts of {c['fields']} on {c['base']['space']}"
    R, got = both('layouts_body', c, mesh, what)
    return {'tags': [c['base']['space']['kind'], 'mesh%dd' % len(mesh), 'n%d' % size(mesh), c['lib']] + (['several'] if len(c['fields']) > 1 else [])}


# ----------------------------------------------------------------------------------------------------- direct transposes

def transpose_case():
    ax = st.integers(1, 11)
    return st.fixed_dictionaries({'n': st.integers(1, 8), 'pre': st.lists(st.integers(1, 3), min_size=1, max_size=2), 'a': ax, 'b': ax, 'post': st.lists(st.integers(1, 3), max_size=2), 'ca': st.integers(1, 4), 'cb': st.integers(1, 4),
                                  'dtype': st.sampled_from(['r', 'c']), 'lib': st.sampled_from(['FFTWTranspose', 'AlltoallvTranspose']), 'seed': st.integers(0, 10**6), 'ops': st.lists(st.booleans(), min_size=1, max_size=4)})


def transpose_body(R, c):
    from dedalus.core import transposes
    comm = R.comm
    pre, post = tuple(c['pre']), tuple(c['post'])
    # chunks divide the axes they describe, as they do for every basis
    shape = pre + (c['a'] * c['ca'], c['b'] * c['cb']) + post
    chunk = (1,) * len(pre) + (c['ca'], c['cb']) + (1,) * len(post)
    ax = len(pre)
    r = V.rng(c['seed'])
    full = r.permutation(int(np.prod(shape))).astype(float).reshape(shape) + 1
    if c['dtype'] == 'c':
        full = full - 1j * np.arange(full.size).reshape(shape)
    def share(n, ck):
        blocks = -(-n // comm.size) * ck
        return slice(min(blocks * comm.rank, n * ck), min(blocks * (comm.rank + 1), n * ck))
    lead = (slice(None),) * ax
    rl = np.ascontiguousarray(full[lead + (share(c['a'], c['ca']),)])
    cl = np.ascontiguousarray(full[lead + (slice(None), share(c['b'], c['cb']))])
    plan = getattr(transposes, c['lib'])(shape, chunk, full.dtype, ax, comm)
    for to_columns in c['ops']:
        src, want = (rl, cl) if to_columns else (cl, rl)
        A, B = src.copy(), np.full(want.shape, np.nan, dtype=full.dtype)
        if to_columns:
            plan.localize_columns(A, B)
        else:
            plan.localize_rows(A, B)
        ok = np.array_equal(B, want)
        require(ok, f'{c["lib"]} of shape {shape}, chunks {chunk}, towards {"columns" if to_columns else "rows"} on process {comm.rank} of {comm.size}: received {B.ravel()[:8]} for {want.ravel()[:8]}')
        require(np.array_equal(A, src), f'{c["lib"]}: source changed by a transpose')


def run_transpose(c):
    c = dict(c)
    both('transpose_body', c, [c['n']], f'transpose {c}')
    return {'nontrivial': c['n'] > 1, 'tags': [c['lib'], 'n%d' % c['n']] + (['idle'] if min(c['a'], c['b']) < c['n'] else [])}


# ------------------------------------------------------------------------------------------------------------ expressions

def expr_case():
    return st.fixed_dictionaries({'base': spaces(), 'leaves': exprs.leaf_st(3), 'prog': exprs.prog_st(size=7), 'seed': st.integers(0, 10**6), 'again': st.booleans()})


def expr_body(R, c):
    S = V.build(c['base']['space'], **R.kw)
    X = exprs.Exprs(S, c['leaves'], c['prog'], c['seed'], smooth=1)
    for f in X.leaves:
        R.sync(f.name, f)
        f['c']
    node = X.pool[-1]
    out = node.e
    for k in range(1 + c['again']):
        f = out.evaluate() if not isinstance(out, d3.Field) else out
        f = f.copy()
        f['c']
        if R.serial:
            R.mask = V.valid_mask(f) if not any('Radial' in type(b).__name__ for b in f.domain.bases) else None
        g = R.gather(f, 'coefficients')
        f.change_scales(1)
        f['g']
        h = R.gather(f, 'grid data')
        if h is not None:
            R.put(f'grid {k}', h)
    R.used = X.used


def unresolved(c):
    """Does any intermediate grid result change when it goes through coefficient space?  (Sums are evaluated in whichever layout their first operand has.)"""
    found = []
    def wrap(e):
        if isinstance(e, d3.Field) or not hasattr(e, 'evaluate'):
            return e
        f = e.evaluate().copy()
        if f.layout.index:
            a = np.array(f['g'])
            f['c']
            b = np.array(f['g'])
            if np.abs(a - b).max(initial=0) > 1e-10 * np.abs(a).max(initial=1):
                found.append(1)
        return f
    S = V.build(c['base']['space'], comm=MPI.COMM_SELF)
    try:
        exprs.Exprs(S, c['leaves'], c['prog'], c['seed'], smooth=1, wrap=wrap)
    except Exception:
        return False
    return bool(found)


def run_expr(c):
    if c['base']['space']['kind'] == 'cyl':
        raise Skip('cylinder')
    what = f"expression {c['prog']} of {c['leaves']} on {c['base']['space']}"
    try:
        R, got = both('expr_body', c, c['base']['mesh'], what, rtol=1e-8)
    except Violation:
        if unresolved(c):
            raise Skip('intermediate results are truncated, and where that happens is not specified')
        raise
    big = max(np.abs(v).max(initial=0) for v in R.out.values())
    return {'nontrivial': bool(R.used) and big > 1e-6, 'tags': [c['base']['space']['kind'], 'n%d' % size(c['base']['mesh'])] + sorted(R.used)}


# --------------------------------------------------------------------------------------------------------------- problems

def problem_case():
    def withmesh(c, m2, m3):
        k = c['space']['kind']
        if k == 'cart':
            # coupled directions must be local in coefficient space: the last one
            ax = sorted(c['space']['axes'], key=lambda a: a['t'] == 'J')
            if len(ax) == 1:
                ax = [{'t': 'F', 'n': 6, 'bounds': [0.0, 2.0], 'd': 1.5, 'lib': None}] + ax
            c = dict(c, space=dict(c['space'], axes=ax))
            if ax[-1]['t'] != 'J' and c['space']['dtype'] == 'c':
                c['ncc'] = 0
        d = len(c['space']['axes']) if k == 'cart' else 3 if k in ('ball', 'shell', 'cyl') else 2
        return {'sys': c, 'mesh': m2 if d == 2 else m3}
    base = st.builds(withmesh, lin.system_st(forms=('helm', 'helm', 'first', 'stokes', 'pair', 'gauge'), small=True), st.sampled_from(MESHES2[1:]), st.sampled_from(MESHES3))
    return st.fixed_dictionaries({'base': base, 'what': st.sampled_from(['lbvp', 'lbvp', 'ivp', 'ivp']), 'scheme': st.sampled_from(ivp.SCHEMES), 'steps': st.lists(st.sampled_from([0.01, 0.005, 0.02]), min_size=1, max_size=4),
                                  'terms': st.lists(st.sampled_from(ivp.TERMS), min_size=1, max_size=3), 'seed': st.integers(0, 10**6), 'opts': ivp.opts_st(), 'target': st.integers(0, 40)})


def sync_system(R, s):
    for i, f in enumerate(s.fixed + s.nccs):
        R.sync(f'fixed{i}', f)


def gathered(R, f, name):
    f = f.copy()
    f['c']
    mask = V.valid_mask(f)
    x = np.array(f.data)
    x[~np.broadcast_to(mask, x.shape)] = 0
    f.data[...] = x
    g = R.gather(f, name)
    if g is not None:
        R.put(name, g)


def problem_body(R, c):
    sc = dict(c['base']['sys'])
    sp = sc['space']
    if c['what'] == 'ivp':
        if sc['form'] == 'gauge':
            sc['form'] = 'helm'
        opts = dict(c['opts'], extra=0)
        P = ivp.Problem.__new__(ivp.Problem)
        real_build = lin.build
        def build(*a, **k):
            s = real_build(*a, **k)
            sync_system(R, s)
            return s
        lin.build = build
        try:
            P.__init__(sc, c['scheme'], c['terms'], opts, **R.kw)
        finally:
            lin.build = real_build
        for f in P.forcing:
            R.sync(f.name, f)
        for n in sorted(P.vars):
            f = P.vars[n]
            if R.serial:
                V.random_coeffs(f, V.rng(c['seed'] + 3 + len(n)))
                lin.consistent(f)
                f['c'] *= 0.3
            R.sync('init ' + n, f)
        for k, dt in enumerate(c['steps']):
            P.solver.step(dt)
            for n in sorted(P.vars):
                gathered(R, P.vars[n], f'{n} after {k + 1} steps')
        return
    s = lin.build(sc, **R.kw)
    sync_system(R, s)
    if c['what'] == 'lbvp':
        problem = d3.LBVP(s.vars)
        for e in sorted(s.eqs, key=lambda e: e['id']):
            dom = e['lhs'].domain
            F = s.dist.Field(bases=dom.bases, tensorsig=e['lhs'].tensorsig, name='F%d' % e['id'])
            if R.serial:
                V.random_coeffs(F, V.rng(c['seed'] + e['id']))
                if F.domain.bases:
                    lin.consistent(F)
                F['c'] *= 0.3
            R.sync(F.name, F)
            e['F'] = F
        for e in s.eqs:
            problem.add_equation((e['lhs'], e['F']), condition=e['cond'] or 'True')
        kw = {k: v for k, v in c['opts'].items() if k not in ('extra', 'enforce_real_cadence') and v is not None}
        kw['matrix_coupling'] = lin.full_coupling(s, problem.matrix_coupling, 0)
        solver = problem.build_solver(ncc_cutoff=1e-13, **kw)
        solver.solve()
        if R.serial:
            for spb in solver.subproblems:
                if spb.size and np.linalg.cond(spb.L_min.toarray()) > 1e9:
                    raise Skip('ill conditioned')
        for f in s.vars:
            gathered(R, f, f.name)
        return


def run_problem(c):
    mesh = c['base']['mesh']
    what = f"{c['what']} of {c['base']['sys']}"
    R, got = both('problem_body', c, mesh, what, rtol=1e-6)
    if any(not np.all(np.isfinite(v)) or np.abs(v).max(initial=0) > 1e6 for v in R.out.values() if isinstance(v, np.ndarray)):
        raise Skip('diverged')
    return {'tags': [c['what'], c['base']['sys']['space']['kind'], 'n%d' % size(mesh), c['base']['sys']['form']] + ([c['scheme']] if c['what'] == 'ivp' else [])}


# ------------------------------------------------------------------------------------- global data, filters and filling

def gathering_case():
    act = st.fixed_dictionaries({'what': st.sampled_from(['allgather', 'gather', 'gather', 'set', 'load_c', 'load_g', 'random', 'random', 'low', 'high', 'interp', 'integ', 'ave', 'grids', 'write']), 'v': st.integers(0, 99)})
    return st.fixed_dictionaries({'base': spaces(), 'fields': field_st(2), 'seed': st.integers(0, 10**6), 'acts': st.lists(act, min_size=1, max_size=5)})


def gathering_body(R, c):
    S = V.build(c['base']['space'], **R.kw)
    sp = S.spec
    cart = sp['kind'] == 'cart'
    dist = S.dist
    fs = make_fields(R, S, c['fields'], c['seed'])
    n = R.comm.size
    for k, a in enumerate(c['acts']):
        v = a['v']
        f = fs[v % len(fs)]
        F = c['fields'][v % len(fs)]
        what = a['what']
        # the coarsest grids lose modes, and where this happens depends on the history: work on copies at full size
        f = f.copy()
        f.name = 'copy'
        sc = max(1, F['scale'])
        f.change_scales(sc)
        spec_states = sorted({int(np.sum(L.grid_space)) for L in dist.layouts})
        L = next(L for L in dist.layouts if int(np.sum(L.grid_space)) == spec_states[v % len(spec_states)])
        if what == 'allgather':
            R.everywhere(f'{k} allgather', np.array(f.allgather_data(layout=L)))
            R.everywhere(f'{k} allgather again', np.array(f.allgather_data()))
        elif what == 'gather':
            root = v % n
            g = f.gather_data(root=root, layout=L) if v % 3 else (f.change_layout(L), f.gather_data(root=root))[1]
            require((g is None) == (R.comm.rank != root), f'gather_data returned {type(g)} on process {R.comm.rank} for root {root}')
            R.everywhere(f'{k} gather', np.array(R.comm.bcast(g, root=root)))
        elif what in ('set', 'load_c', 'load_g'):
            h = dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name='h')
            if what == 'set':
                full = f.allgather_data(layout=L)
                h.preset_scales(sc)
                h.preset_layout(L)
                h.set_global_data(full)
            elif what == 'load_c':
                full = f.allgather_data(layout='c')
                h.load_from_global_coeff_data(full[None] if v % 2 else full, pre_slices=(0,) if v % 2 else ())
            else:
                full = f.allgather_data(layout='g')
                h.load_from_global_grid_data(full, func=(lambda x: 2 * x) if v % 2 else None)
                f['c'] *= 2 if v % 2 else 1
            h['c'], f['c']
            g, w = R.gather(h, 'loaded'), R.gather(f, 'source')
            if g is not None:
                assert_close(g, w, f'{what} of a rank-{len(f.tensorsig)} field', rtol=1e-10, scale=max(1, np.abs(w).max(initial=0)))
                R.put(f'{k} {what}', g)
        elif what == 'random':
            lay = [None, 'c', 'g', L][v % 4]
            kw = {'distribution': ['standard_normal', 'uniform', 'normal'][v % 3]}
            if v % 3 == 2:
                kw.update(loc=2.0, scale=0.1)
            f.fill_random(layout=lay, scales=[None, 1, 1.5][v % 3], seed=v, chunk_size=[2**20, 7, 64][v % 3], **kw)
            g = R.gather(f, 'random')
            if g is not None:
                R.put(f'{k} random', g)
        elif what in ('low', 'high'):
            if not cart:
                continue
            kw = {'scales': [0.5, 0.75, 0.3][v % 3]} if v % 2 else {'shape': tuple(max(2, x // 2) for x in f.dist.grid_layout.global_shape(f.domain, 1))}
            getattr(f, what + '_pass_filter')(**kw)
            f['c']
            g = R.gather(f, 'filtered')
            if g is not None:
                R.put(f'{k} {what}', g)
        elif what in ('interp', 'integ', 'ave'):
            if not cart or not f.domain.bases:
                continue
            b = f.domain.bases[v % len(f.domain.bases)]
            lo, hi = b.bounds
            e = f(**{b.coord.name: lo + (hi - lo) * [0, 1, 0.3][v % 3]}) if what == 'interp' else (d3.integ if what == 'integ' else d3.ave)(f, b.coord)
            o = e.evaluate()
            if o is None or not hasattr(o, 'data'):
                continue
            lay = next(L for L in dist.layouts if tuple(map(bool, L.grid_space)) == tuple(map(bool, o.layout.grid_space)))
            o.change_scales(1)
            o['c']
            g = R.gather(o, what)
            if g is not None:
                R.put(f'{k} {what}', g)
        elif what == 'grids':
            # local grids are the parts of the global grids that the local data belongs to
            f['g']
            els = f.layout.local_elements(f.domain, f.scales)
            for b in f.domain.bases:
                if not hasattr(b, 'local_grids') and not hasattr(b, 'local_grid'):
                    continue
                try:
                    G, Lg = dist_grids(dist, b, sc)
                except NotImplementedError:
                    continue
                ax = dist.get_basis_axis(b)
                for j in range(b.dim):
                    require(np.array_equal(np.ravel(G[j])[els[ax + j]] if np.size(G[j]) > 1 else np.ravel(G[j])[:len(els[ax + j])], np.ravel(Lg[j])), f'local grid of axis {ax + j} on process {R.comm.rank}')
                    R.everywhere(f'{k} grid {ax + j}', np.ravel(G[j]))
        elif what == 'write':
            # set through the global shape on one side only: the local part of a function of the grid
            h = dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name='w')
            h.preset_scales(sc)
            els = dist.grid_layout.local_elements(h.domain, h.scales)
            r = V.rng(v)
            phases = [r.standard_normal(m) for m in dist.grid_layout.global_shape(h.domain, h.scales)]
            x = 0
            for ax, (p, e) in enumerate(zip(phases, els)):
                x = x + p[e].reshape((1,) * ax + (-1,) + (1,) * (dist.dim - ax - 1))
            h['g'] = x
            g = R.gather(h, 'written')
            if g is not None:
                R.put(f'{k} write', g)


def dist_grids(dist, b, sc):
    G = b.global_grids(dist, (sc,) * b.dim)
    return G, dist.local_grids(b, scales=sc)


def run_gathering(c):
    what = f"{c['acts']} of {c['fields']} on {c['base']['space']}"
    R, got = both('gathering_body', c, c['base']['mesh'], what)
    return {'nontrivial': bool(got), 'tags': [c['base']['space']['kind'], 'n%d' % size(c['base']['mesh'])] + sorted({a['what'] for a in c['acts']})}


# ---------------------------------------------------------------------------------------------------------------- output

def output_case():
    task = st.fixed_dictionaries({'field': st.integers(0, 2), 'kind': st.sampled_from(['field', 'field', 'sq', 'lin', 'const']), 'layout': st.sampled_from(['g', 'g', 'c', 1]), 'scales': st.sampled_from([None, 1, 1.5, 2])})
    return st.fixed_dictionaries({'base': spaces(), 'fields': field_st(3), 'seed': st.integers(0, 10**6), 'tasks': st.lists(task, min_size=1, max_size=4), 'mode': st.sampled_from(['gather', 'virtual', None]), 'max_writes': st.sampled_from([None, 1, 2]),
                                  'writes': st.integers(1, 4), 'load': st.integers(0, 9), 'second': st.sampled_from([None, None, 'append', 'overwrite'])})


def read_set(path):
    import h5py
    out = {}
    with h5py.File(path, 'r') as f:
        out['writes'] = int(f.attrs['writes'])
        for s in f['scales']:
            if s != 'wall_time':
                out['scale ' + s] = np.array(f['scales'][s][...], dtype=float)
        for t in f['tasks']:
            d = f['tasks'][t]
            out['data ' + t] = np.array(d[...])
            out['attrs ' + t] = np.concatenate([np.ravel(np.array(d.attrs[a], dtype=float)) for a in ('constant', 'grid_space', 'scales')])
            out['dims ' + t] = [dim.label for dim in d.dims]
            for i, dim in enumerate(d.dims):
                for j in range(len(dim)):
                    if dim[j].name.split('/')[-1] != 'wall_time':
                        out[f'dim {t} {i} {j}'] = np.array(dim[j][...], dtype=float)
    return out


def output_body(R, c):
    import os, pathlib
    from dedalus.core import evaluator as ev
    S = V.build(c['base']['space'], **R.kw)
    dist = S.dist
    fs = make_fields(R, S, c['fields'], c['seed'])
    cart = S.spec['kind'] == 'cart'
    base = pathlib.Path(c['dir']) / ('serial' if R.serial else 'parallel')
    num = 0
    for mode in ['overwrite'] + ([c['second']] if c['second'] else []):
        E = ev.Evaluator(dist, {})
        h = E.add_file_handler(base / 'out', parallel=c['mode'], max_writes=c['max_writes'], mode=mode)
        for i, t in enumerate(c['tasks']):
            f = fs[t['field'] % len(fs)]
            e = f
            if t['kind'] == 'sq' and not f.tensorsig:
                e = f * f
            elif t['kind'] == 'lin':
                e = 2 * f - f / 4
            elif t['kind'] == 'const':
                e = dist.Field(name='k')
                e['g'] = 0.5 * num + 1
            lay = t['layout'] if not isinstance(t['layout'], int) else next(L for L in dist.layouts if int(np.sum(L.grid_space)) == t['layout'])
            h.add_task(e, name=f't{i}', layout=lay, scales=t['scales'])
        for k in range(c['writes']):
            for f in fs:
                f['c'] *= 0.9
            E.evaluate_handlers([h], iteration=num, wall_time=0.1 * num, sim_time=0.5 * num, timestep=0.5)
            num += 1
    R.comm.Barrier()
    sets = sorted(p.relative_to(base).as_posix() for p in base.glob('out/*.h5'))
    R.everywhere('sets', str(sets))
    if R.comm.rank == 0:
        for p in sets:
            for k, v in read_set(base / p).items():
                R.put(f'{p} {k}', v)
    # and back, with every process reading its part
    import h5py
    for p in sets:
        for i, t in enumerate(c['tasks']):
            with h5py.File(base / p, 'r') as file:
                d = file['tasks'][f't{i}']
                gs = d.attrs['grid_space']
                if t['kind'] == 'const' or t['scales'] not in (1, 1.5, 2, None) or not (np.all(gs) or not np.any(gs)):
                    continue
                f = fs[t['field'] % len(fs)]
                h = dist.Field(bases=f.domain.bases, tensorsig=f.tensorsig, name=f't{i}')
                h.load_from_hdf5(file, c['load'] % d.shape[0])
                h['c']
                g = R.gather(h, 'loaded')
                if g is not None:
                    R.put(f'{p} t{i} loaded', g)
    R.comm.Barrier()


def run_output(c):
    import shutil
    from checks.C15 import scratch
    d = scratch()
    try:
        what = f"output of {c['tasks']} for {c['fields']} on {c['base']['space']} ({c['mode']})"
        R, got = both('output_body', dict(c, dir=d), c['base']['mesh'], what)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {'tags': [c['base']['space']['kind'], 'n%d' % size(c['base']['mesh']), str(c['mode'])] + ([c['second']] if c['second'] else []) + (['sets'] if c['max_writes'] else [])}


SUBS = [Sub('layouts', layout_case, run_layouts, quick=200, thorough=10000), Sub('transpose', transpose_case, run_transpose, quick=800, thorough=30000),
        Sub('expression', expr_case, run_expr, quick=160, thorough=8000), Sub('problem', problem_case, run_problem, quick=160, thorough=8000),
        Sub('gathering', gathering_case, run_gathering, quick=200, thorough=10000), Sub('output', output_case, run_output, quick=120, thorough=6000)]


def finish():
    mpi.Server.stop()
