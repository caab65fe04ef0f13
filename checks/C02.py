"""C02 field state machine: histories of reads, writes, layout and scale changes, copies and filters against a coefficient model."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip
from vlib import spaces as V
import dedalus.public as d3

SC = [1, 1.5, 2, 0.5, 0.75, 1.25, 3, None]
OPS = ['read', 'read', 'write', 'write', 'scales', 'scales', 'layout', 'towards', 'require', 'require', 'local', 'copy', 'low', 'high', 'inplace',
       'gather', 'evaluate', 'evaluate', 'preset', 'raw', 'global', 'load', 'random', 'norm', 'compare', 'twice', 'rawwrite']


def spaces():
    return st.one_of(V.cart_space(dims=(1, 2), sizes=(4, 6, 8)), V.cart_space(dims=(2, 3), sizes=(4, 6), sizes3=(4, 6)), V.cart_space(dims=(1, 2), sizes=(4, 6, 8)),
                     V.curvi_polar(), V.curvi_sphere(), V.curvi_3d(), V.curvi_cyl())


def case():
    return st.fixed_dictionaries({'space': spaces(), 'fields': st.lists(st.tuples(st.integers(0, 2), st.sampled_from(['full', 'full', 'part', 'const'])).map(list), min_size=1, max_size=3),
                                  'seed': st.integers(0, 10**6),
                                  'ops': st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2), st.integers(0, 999)).map(list), min_size=6, max_size=18)})


def project(f):
    """Keep what the transforms represent at every scale (the triangular truncation of components depends on the grid)."""
    f['c']
    for s in (2, 1.5, 1):
        f.change_scales(s)
        f['g'], f['c']


class Model:
    """Expected content of one field: its layout, scales and data, recomputed by fresh fields at every step."""

    def __init__(self, f):
        self.dist, self.bases, self.ts = f.dist, f.domain.bases, f.tensorsig
        self.layout, self.scales, self.data = f.layout, f.scales, f.data.copy()

    def fresh(self):
        f = d3.Field(self.dist, bases=self.bases, tensorsig=self.ts)
        f.preset_scales(self.scales)
        f.preset_layout(self.layout)
        f.data[...] = self.data
        return f

    def take(self, f):
        self.layout, self.scales, self.data = f.layout, f.scales, f.data.copy()

    def at(self, layout):
        f = self.fresh()
        f.change_layout(layout)
        return f.data.copy()

    def goto(self, layout):
        if layout is not self.layout:
            f = self.fresh()
            f.change_layout(layout)
            self.take(f)

    def rescale(self, scales):
        """The same function at other scales: through coefficient space if any grid axis changes."""
        new = self.dist.remedy_scales(scales)
        if new == self.scales:
            return
        f = self.fresh()
        L = self.layout
        change = [ax for ax in range(self.dist.dim) if L.grid_space[ax] and new[ax] != self.scales[ax]]
        if change:
            # axes of the grid whose scales are unchanged keep their (possibly unresolved) data
            target = L
            while any(target.grid_space[ax] for ax in change):
                target = self.dist.layouts[target.index - 1]
            f.change_layout(target)
        g = d3.Field(self.dist, bases=self.bases, tensorsig=self.ts)
        g.preset_scales(new)
        g.preset_layout(f.layout)
        g.data[...] = f.data
        self.take(g)


def run(c):
    S = V.build(c['space'])
    dist = S.dist
    r = V.rng(c['seed'])
    dim = dist.dim
    kind = c['space']['kind']
    tags = [kind, c['space']['dtype']]
    F, M = [], []
    for i, (rank, sub) in enumerate(c['fields']):
        bases = S.bases
        if sub == 'part':
            bases = tuple(b for j, b in enumerate(S.bases) if j == i % len(S.bases))
        elif sub == 'const':
            bases = ()
        cs = S.cs
        if sub != 'full' and kind != 'cart':
            rank = 0
        if kind in ('ball', 'shell', 'cylinder') or dim == 3:
            rank = min(rank, 1)
        if kind == 'cyl':
            rank = min(rank, 1)
        f = dist.Field(bases=bases, tensorsig=(cs,) * rank, name='f%d' % i)
        V.random_coeffs(f, r)
        if bases and kind != 'cart':
            project(f)
        F.append(f)
        M.append(Model(f))
    done = set()
    reads = 0
    last = None

    def size(m):
        return max(1e-3, np.abs(m.data).max(initial=0))

    def verify(f, m, what, data=None):
        require(f.layout is m.layout, f'{what}: layout is {f.layout.index}, expected {m.layout.index}')
        require(tuple(f.scales) == tuple(m.scales), f'{what}: scales are {f.scales}, expected {m.scales}')
        d = f.data if data is None else data
        require(d.shape == m.data.shape, f'{what}: shape {d.shape}, expected {m.data.shape}')
        if d.size:
            assert_close(d, m.data, what, rtol=1e-11 * (1 + len(c['ops'])), scale=size(m))
            # keep rounding from accumulating in the model
            m.data = np.array(d)

    def resolved(m):
        """Whether the model's data survive a trip to coefficient space."""
        if kind != 'cart' and m.data.size and m.bases:
            # which curvilinear coefficients a grid resolves depends on its scales: evaluation uses the dealias scales
            f = m.fresh()
            f.change_layout('c')
            x = f.data.copy()
            f.change_scales(f.domain.dealias)
            f.change_layout('g')
            f.change_layout('c')
            if x.size and np.abs(f.data - x).max() > 1e-12 * size(m):
                return False
        if not any(m.layout.grid_space) or not m.data.size:
            return True
        f = m.fresh()
        f.change_layout('c')
        f.change_layout(m.layout)
        return np.abs(f.data - m.data).max() <= 1e-12 * size(m)

    for k, (op, i, v) in enumerate(c['ops']):
        f, m = F[i % len(F)], M[i % len(F)]
        others = [(g, g.layout, g.scales, g.data.copy()) for g in F if g is not f]
        rank = len(f.tensorsig)
        sc = SC[v % len(SC)]
        if sc is not None and v % 5 == 0:
            sc = tuple([sc] + [1.5] * (dim - 1)) if v % 2 else tuple([1] * (dim - 1) + [sc])
        lay = ['g', 'c'][v % 2]
        what = f'step {k} {op} ({v}) of {[o[0] for o in c["ops"][:k + 1]]} on {kind} rank {rank}'
        touched = [f]
        # unresolved curvilinear transforms at low scales are not exactly idempotent: the model takes the same single steps
        if op == 'read':
            if v % 3 == 0 and sc is not None:
                m.rescale(sc)
                m.goto(dist.get_layout_object(lay))
                verify(f, m, what, f[lay, sc])
            else:
                m.goto(dist.get_layout_object(lay))
                verify(f, m, what, f[lay])
            reads += 1
        elif op == 'write':
            if v % 3 == 0 and sc is not None:
                f[lay, sc] = 0
                key = (lay, sc)
            else:
                key = lay
                f[lay] = 0
            shape = f.data.shape
            x = r.standard_normal(shape)
            if not S.real:
                x = x + 1j * r.standard_normal(shape)
            if lay == 'c':
                # only entries that represent functions
                g = d3.Field(dist, bases=f.domain.bases, tensorsig=f.tensorsig)
                V.random_coeffs(g, r)
                if g.domain.bases and kind != 'cart':
                    project(g)
                x = g['c'].copy()
            elif v % 7 < 5 and f.domain.bases:
                # a function the coefficients can hold
                g = d3.Field(dist, bases=f.domain.bases, tensorsig=f.tensorsig)
                V.random_coeffs(g, r)
                if kind != 'cart':
                    project(g)
                g.change_scales(f.scales)
                x = g['g'].copy()
            if v % 11 == 0:
                x = np.asfortranarray(x)
            x0 = x.copy()
            f[key] = x
            require(np.array_equal(f.data, x0), f'{what}: data read back after writing')
            require(np.array_equal(x, x0) and not np.shares_memory(f.data, x), f'{what}: written array is shared or changed')
            x[...] = 7
            require(np.array_equal(f.data, x0), f'{what}: data alias the written array')
            m.layout, m.scales, m.data = dist.get_layout_object(lay), f.scales, x0
            require(tuple(f.scales) == tuple(dist.remedy_scales(sc)) if isinstance(key, tuple) else True, f'{what}: scales after writing')
        elif op == 'scales':
            m.rescale(sc)
            f.change_scales(sc)
            if sc is None:
                require(tuple(f.scales) == (1,) * dim, f'{what}: scales None')
            verify(f, m, what)
        elif op == 'layout':
            L = dist.layouts[v % len(dist.layouts)]
            m.goto(L)
            f.change_layout(L if v % 2 else L.index if False else L)
            verify(f, m, what)
        elif op == 'towards':
            if v % 2 and m.layout.index < len(dist.layouts) - 1:
                m.goto(dist.layouts[m.layout.index + 1])
                f.towards_grid_space()
            elif m.layout.index > 0:
                m.goto(dist.layouts[m.layout.index - 1])
                f.towards_coeff_space()
            verify(f, m, what)
        elif op == 'require':
            ax = None if v % 3 == 0 else (v // 6) % dim
            grid = bool(v % 2)
            axes = range(dim) if ax is None else [ax]
            while not all(bool(m.layout.grid_space[a]) == grid for a in axes):
                m.goto(dist.layouts[m.layout.index + (1 if grid else -1)])
            (f.require_grid_space if grid else f.require_coeff_space)(axis=ax)
            verify(f, m, what)
        elif op == 'local':
            f.require_local(v % dim)
            verify(f, m, what)
        elif op == 'copy':
            g = f.copy()
            verify(g, m, what)
            require(g is not f and not np.shares_memory(g.data, f.data), f'{what}: copy shares data')
            require(g.domain is f.domain and g.tensorsig == f.tensorsig and g.dtype == f.dtype, f'{what}: attributes of the copy')
            g.change_layout('g' if v % 2 else 'c')
            g.data[...] = 3.25
            verify(f, m, what + ' (after writing to the copy)')
            if v % 3 == 0 and len(F) < 5:
                h = f.copy()
                F.append(h)
                mm = Model(h)
                M.append(mm)
        elif op in ('low', 'high'):
            s = [1, 0.5, 0.75, 0.25][v % 4]
            s = tuple([s] * dim) if v % 3 else tuple([s] + [1] * (dim - 1))
            if dim > 1 and v % 3 == 0:
                s = s if v % 2 else s[::-1]
            if kind != 'cart' and not all(x in (1, 0.5, 0.75) for x in s):
                continue
            if not resolved(m) or any(x < 1 for x in m.scales):
                continue
            orig = m.scales
            h = m.fresh()
            h.change_layout('c')
            C = h.data.copy()
            g = d3.Field(dist, bases=f.domain.bases, tensorsig=f.tensorsig)
            g.preset_scales(s)
            g['c'] = C
            g['g']
            low = g['c'].copy()
            by_shape = v % 5 == 0
            kw = {'scales': s}
            if by_shape:
                full = dist.grid_layout.global_shape(f.domain, scales=1)
                kw = {'shape': tuple(dist.grid_layout.global_shape(f.domain, scales=s))}
            if op == 'low':
                f.low_pass_filter(**kw)
                want = low
            else:
                f.high_pass_filter(**kw)
                want = C - low
            require(tuple(f.scales) == tuple(orig), f'{what}: scales after filtering')
            got = f['c']
            if got.size:
                assert_close(got, want, what, rtol=1e-11, scale=max(1e-3, np.abs(C).max(initial=0)))
            m.take(f)
        elif op == 'inplace':
            if v % 2:
                m.goto(dist.get_layout_object(lay))
                m.data = m.data * 1.5
                f[lay] *= 1.5
            else:
                m.goto(dist.get_layout_object(lay))
                m.data = m.data - 0.5 * m.data
                f[lay] -= 0.5 * f[lay]
            verify(f, m, what)
        elif op == 'gather':
            arg = None if v % 3 == 0 else lay
            if arg:
                m.goto(dist.get_layout_object(arg))
            out = f.allgather_data(layout=arg) if v % 2 else f.gather_data(layout=arg)
            verify(f, m, what)
            require(np.array_equal(out, f.data), f'{what}: gathered data')
            out[...] = -3
            verify(f, m, what + ' (after writing to the gathered data)')
        elif op == 'norm':
            m.goto(dist.get_layout_object(lay))
            if m.data.size:
                p = [1, 2, np.inf][v % 3]
                got = f.allreduce_data_norm(layout=lay, order=p)
                want = np.linalg.norm(m.data.ravel(), p)
                assert_close(np.array(got), np.array(want), what, rtol=1e-11, scale=max(want, 1e-12))
            else:
                f.change_layout(lay)
            verify(f, m, what)
        elif op == 'compare':
            g = F[(i + 1) % len(F)]
            before = [(x.layout, x.data.copy()) for x in F]
            f == g, f != g, hash(f), repr(f), str(f), f is g, bool(f)
            d3.grad
            f + g if len(f.tensorsig) == len(g.tensorsig) else f * 2
            -f, 2 * f, f.domain, f.global_shape, f.has(g), f.atoms(d3.Field)
            for x, (L, d) in zip(F, before):
                require(x.layout is L and np.array_equal(x.data, d), f'{what}: comparing changed a field')
        elif op == 'preset':
            # reinterpreting the buffer followed by a full write
            f.preset_scales(sc)
            f.preset_layout(lay)
            f.data[...] = 0.25
            if f.domain.bases:
                f['c'] = 0
            m.take(f)
        elif op == 'raw':
            d = f.data
            require(d.flags.writeable, 'data view is writeable')
            d *= 2
            m.data = m.data * 2
            verify(f, m, what)
        elif op == 'rawwrite':
            f.set_local_data(np.array(f.data) * -1)
            m.data = -m.data
            verify(f, m, what)
        elif op == 'global':
            x = f.allgather_data() * 0.5
            f.set_global_data(x)
            m.data = m.data * 0.5
            verify(f, m, what)
        elif op == 'load':
            if v % 2:
                m.goto(dist.coeff_layout)
                x = m.data * 0.75
                f.load_from_global_coeff_data(np.stack([0 * x, x]) if v % 3 else x, pre_slices=(1,) if v % 3 else ())
                m.data = x
                verify(f, m, what)
            else:
                g = m.fresh()
                if not resolved(m) or any(x < 1 for x in m.scales):
                    continue
                g.change_scales([1, 1.5, 2][v % 3])
                x = g['g'].copy()
                f.load_from_global_grid_data(np.stack([0 * x, x]) if v % 5 else x, pre_slices=(1,) if v % 5 else ())
                h = g.fresh() if hasattr(g, 'fresh') else g
                got = f['c'].copy()
                if got.size:
                    assert_close(got, g['c'], what, rtol=1e-10, scale=size(m))
                m.take(f)
        elif op == 'random':
            g = d3.Field(dist, bases=f.domain.bases, tensorsig=f.tensorsig)
            g.fill_random(layout=lay, scales=sc if sc is not None else 1, seed=v)
            f.fill_random(layout=lay, scales=sc if sc is not None else 1, seed=v)
            m.take(g)
            verify(f, m, what)
            # keep only what represents a function
            if f.domain.bases:
                f['c']
                if kind != 'cart':
                    project(f)
                else:
                    f.change_scales(1.5), f['g'], f['c']
                m.take(f)
        elif op in ('evaluate', 'twice'):
            g, mg = F[(i + 1) % len(F)], M[(i + 1) % len(F)]
            # evaluation may move operands between layouts and scales but never change their functions
            if not all(resolved(x) and all(s >= 1 for s in x.scales) for x in (m, mg)):
                continue
            touched = F
            full = len(f.domain.bases) == len(S.bases)
            cands = [2 * f, f + f, -f, f * 1]
            if len(g.tensorsig) == rank and kind != 'cyl' and (kind == 'cart' or f.domain is g.domain):
                cands += [f + g, f - 2 * g]
            if kind == 'cart' or f.domain is g.domain:
                if rank + len(g.tensorsig) <= 2:
                    cands += [f * g]
            if rank == 0:
                cands += [f**2, 1 + f] + ([np.sin(f)] if S.real else [])
            if full and kind not in ('cyl',) and rank < 2:
                cands += [d3.lap(f), d3.grad(f)]
            if rank == 1 and full and kind != 'cyl':
                cands += [d3.div(f)]
            cands += [d3.Grid(f), d3.Coeff(f)]
            if kind == 'cart' and f.domain.bases:
                cands += [d3.integ(f)]
            e = cands[v % len(cands)]
            before = []
            for x in F:
                y = x.copy()
                before.append(y['c'].copy())
            def intact(label):
                for x, b in zip(F, before):
                    y = x.copy()
                    z = y['c']
                    if z.size:
                        assert_close(z, b, f'{what}: field {F.index(x)} {label} {e}', rtol=1e-11 * (1 + k), scale=max(1e-3, np.abs(b).max()))
            out = e.evaluate()
            intact('after evaluating')
            if out in F if False else any(out is x for x in F):
                pass
            else:
                val = out.copy()
                vc = val['c'].copy()
                for x in F:
                    require(not np.shares_memory(out.data, x.data) or not out.data.size, f'{what}: result of {e} shares memory with a field')
                if op == 'twice':
                    again = e.evaluate()
                    require(again is not out or True, 'x')
                    w = again.copy()['c']
                    if w.size:
                        assert_close(w, vc, f'{what}: second evaluation of {e}', rtol=1e-10, scale=max(1e-3, np.abs(vc).max()))
                    # new operand data must not reach the earlier result
                    f.change_layout('c')
                    old = f.data.copy()
                    f['c'] = 0.5 * old
                    third = e.evaluate()
                    if third is not out:
                        z = out.copy()['c']
                        if z.size:
                            assert_close(z, vc, f'{what}: earlier result of {e} changed by a later evaluation', rtol=1e-10, scale=max(1e-3, np.abs(vc).max()))
                    f['c'] = old
                out.change_layout('c' if v % 2 else 'g') if not isinstance(out, d3.LockedField if hasattr(d3, 'LockedField') else ()) else None
                out.data[...] = 1.75
                intact('after writing to the result of')
            for x, mx in zip(F, M):
                mx.take(x)
        done.add(op)
        for g, L, s, d in others:
            if touched is F:
                break
            require(g.layout is L and g.scales == s and np.array_equal(g.data, d), f'{what}: another field changed')
        # the function itself: coefficient content survives any trip at scales of at least one
        if resolved(m) and all(s >= 1 for s in m.scales) and op in ('read', 'scales', 'layout', 'towards', 'require') and m.data.size:
            h = m.fresh()
            h.change_layout('c')
            if last is not None and last[0] is f and last[2] >= 0:
                assert_close(h.data, last[1], f'{what}: function changed by {op}', rtol=1e-11 * (2 + k), scale=max(1e-3, np.abs(last[1]).max()))
            last = (f, h.data.copy(), k)
        else:
            last = None
    return {'nontrivial': reads >= 1 and len(done) >= 3, 'tags': tags + sorted(done)}


SUBS = [Sub('history', case, run, 2000)]
