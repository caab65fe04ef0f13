"""C08 linear boundary value problems: manufactured solutions, residuals, option invariance, re-solve histories."""
import numpy as np
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip
from vlib import spaces as V, lin
from vlib.nccs import shift_mask
import dedalus.public as d3

SOLVERS = ['superlunaturalspsolve', 'superlucolamdspsolve', 'superlunaturalfactorized', 'superlunaturalfactorizedtranspose',
           'superlucolamdfactorized', 'superlucolamdfactorizedtranspose', 'scipybanded', 'sparseinverse', 'denseinverse', 'scipydenselu', None]
OPS = ['exact', 'exact', 'random', 'random', 'subset', 'subset', 'ncc', 'grid']


def opts_st():
    return st.fixed_dictionaries({'matsolver': st.sampled_from(SOLVERS), 'bc_top': st.booleans(), 'tau_left': st.booleans(),
                                  'interleave_components': st.booleans(), 'extra': st.integers(0, 7)})


def case():
    return st.fixed_dictionaries({'sys': lin.system_st(), 'a': opts_st(), 'b': opts_st(), 'permb': st.integers(0, 5039),
                                  'rhs': st.integers(0, 3), 'ops': st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 10**6)), min_size=1, max_size=5)})


class Run:
    """One problem and its solver."""

    def __init__(self, c, o, perm, rhs):
        self.s = s = lin.build(dict(c, perm=perm))
        self.F = {}
        for f in s.vars:
            f['c'] = 0
        self.problem = problem = d3.LBVP(s.vars)
        for e in s.eqs:
            F = e['lhs'].evaluate().copy()
            F['c'] = 0
            self.F[e['id']] = F
            if rhs == 1:
                half = s.dist.Field(name='half')
                half['g'] = 0.5
                E = half * F + 0.5 * F
            elif rhs == 2:
                E = 3 * F - (F + F)
            elif rhs == 3:
                # a field varying only along the last axis, and the same function as a full field
                E = F
                full = F.domain.bases and F.domain.bases == s.S.bases
                kind = c['space']['kind']
                if full and (kind in ('disk', 'annulus') or kind == 'cart' and len(s.S.bases) > 1):
                    b1 = s.S.bases[-1] if kind == 'cart' else s.S.bases[0].radial_basis
                    b1 = b1.clone_with(k=F.domain.bases[0].k) if kind != 'cart' else F.domain.bases[-1]
                    g1 = s.dist.Field(bases=b1, tensorsig=F.tensorsig)
                    g2 = s.dist.Field(bases=F.domain.bases, tensorsig=F.tensorsig)
                    x = s.dist.local_grids(*F.domain.bases)[-1]
                    g1['g'] = g2['g'] = x ** (2 - len(F.tensorsig) % 2) if kind != 'cart' else np.cos(2 * np.pi * (x - x.min()) / (np.ptp(x) + 1e-300)) if 'Fourier' in type(b1).__name__ and False else 1.5 + 0 * x
                    if kind != 'cart' and len(F.tensorsig):
                        g1['g'][:-1] = 0
                        g2['g'][:-1] = 0
                    E = F + g1 - g2 if c['seed'] % 2 else g1 + F - g2
            else:
                E = F
            problem.add_equation((e['lhs'], E), condition=e['cond'] or 'True')
        coup = lin.full_coupling(s, problem.matrix_coupling, o['extra'])
        if s.form == 'cond':
            coup = (False,) * s.dist.dim
        kw = {k: o[k] for k in ('bc_top', 'tau_left', 'interleave_components')}
        if o['matsolver']:
            kw['matsolver'] = o['matsolver']
        self.solver = problem.build_solver(matrix_coupling=coup, ncc_cutoff=1e-13, **kw)
        self.opts = dict(kw, coupling=coup, order=perm)
        self.by_name = {f.name: f for f in s.vars}

    def conditioning(self):
        worst = 1
        for sp in self.solver.subproblems:
            if sp.L_min.shape[0]:
                worst = max(worst, np.linalg.cond(sp.L_min.toarray()))
        return worst

    def state(self):
        out = {}
        for n, f in self.by_name.items():
            x = np.array(f['c'])
            x[~np.broadcast_to(V.valid_mask(f), x.shape)] = 0
            out[n] = x
        return out

    def set_rhs(self, data):
        for i, F in self.F.items():
            F.change_scales(1)
            F['c'] = data[i]


def compare(got, want, cond, what):
    scale = max(1e-6, *[np.abs(x).max() for x in want.values() if x.size])
    for n in want:
        if want[n].size:
            assert_close(got[n], want[n], f'{what}: variable {n}', rtol=1e-9 + 3e-13 * cond, scale=scale)
    return scale


def run(c):
    A = Run(c['sys'], c['a'], c['sys']['perm'], c['rhs'])
    s = A.s
    r = V.rng(c['sys']['seed'] + 7)
    kind = s.spec['space']['kind']
    tags = list(s.tags) + [str(c['a']['matsolver'])]
    B = None
    cond = None
    # coefficient products truncated in another polynomial basis than on the grid (or with the complex Nyquist mode)
    raised = kind != 'cart' or any((a['t'] == 'J' and (a['a'], a['b']) != (a['a0'], a['b0'])) or (a['t'] == 'F' and s.spec['space']['dtype'] == 'c') for a in s.spec['space']['axes'])
    aliased = (s.nccs and raised) or (s.form in ('first', 'stokes') and kind in ('annulus', 'shell'))
    nontriv = False
    what = f'{s.tags} {A.opts}'

    def manufactured(rr):
        ex = lin.exact(s, rr)
        want = A.state()
        data = {}
        for e in s.eqs:
            for f, x in zip(s.vars, ex):
                f['c'] = x
            data[e['id']] = e['lhs'].evaluate()['c'].copy()
        for f in s.vars:
            V.random_coeffs(f, rr)  # previous content must not matter
        return want, data

    def randomised(rr):
        data = {}
        for e in s.eqs:
            F = A.F[e['id']]
            V.random_coeffs(F, rr)
            lin.consistent(F)
            data[e['id']] = F['c'].copy()
            if e['lhs'].domain.bases and s.form == 'cond':
                pass
        return data
    ops = [('exact', c['sys']['seed'])] + [tuple(o) for o in c['ops']]
    for op, seed in ops:
        rr = V.rng(seed + 1)
        if op in ('exact', 'ncc', 'subset'):
            if op == 'ncc':
                if not s.nccs:
                    continue
                for f in s.nccs:
                    f.change_scales(1)
                    f['g'] = 1 + (f['g'] - 1) * -0.7
                tags.append('ncc-rebuild')
                B = None
            want, data = manufactured(rr)
            A.set_rhs(data)
            if op == 'subset':
                sps = list(A.solver.subproblems)
                rr.shuffle(sps)
                m = int(rr.randint(0, 3))
                step = max(1, len(sps) // 3)
                for i in range(0, len(sps), step):
                    A.solver.solve(sps[i] if step == 1 and m else sps[i:i + step])
                    if m == 2:
                        for f in s.vars:
                            f['g']
                tags.append('subset%d' % m)
            else:
                A.solver.solve(rebuild_matrices=(op == 'ncc'))
            if cond is None or op == 'ncc':
                cond = A.conditioning()
                if cond > 1e10:
                    raise Skip('ill conditioned')
            sc = compare(A.state(), want, cond, f'{op}: solution of {what} differs from the manufactured one')
            nontriv |= sc > 1e-3
            # the solution in physical space
            for f in s.main:
                if f.domain.bases:
                    f.change_scales(1)
                    f['g'], f['c']
        elif op == 'random':
            if s.form == 'gauge' or (s.nccs and any(o[0] == 'ncc' for o in ops)):
                continue
            data = randomised(rr)
            A.set_rhs(data)
            A.solver.solve()
            sa = A.state()
            if not aliased and s.form != 'cond':
                for i, eq in enumerate(A.problem.equations):
                    lhs = eq['L'].evaluate()['c']
                    F = A.solver.F[i]['c']
                    ok = np.broadcast_to(eq['valid_modes'], lhs.shape) & np.broadcast_to(V.valid_mask(A.solver.F[i]), lhs.shape)
                    # backward error: the size of the terms, which cancel
                    sc = max(np.abs(F).max(initial=0), np.abs(lhs).max(initial=0), max(np.abs(x).max() for x in sa.values() if x.size) * 1e2, 1e-6)
                    if ok.any():
                        assert_close(lhs[ok], F[ok], f'random RHS: equation {i} residual of {what}', rtol=1e-8 + 1e-14 * cond, scale=sc)
                tags.append('residual')
            if B is None:
                B = Run(c['sys'], c['b'], c['permb'], 0)
            B.set_rhs(data)
            B.solver.solve()
            compare(B.state(), sa, cond, f'random RHS: {what} against {B.opts}')
            tags.append('invariance')
        else:
            for f in s.vars:
                if f.domain.bases:
                    f.change_scales([1, 1.5, 3][seed % 3])
                f['g']
    return {'nontrivial': nontriv, 'tags': tags}


SUBS = [Sub('lbvp', case, run, 700)]
