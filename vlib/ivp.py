"""Generated initial value problems and an independent dense integrator."""
import numpy as np
from hypothesis import strategies as st
from vlib import spaces as V, lin
from vlib.core import Skip
import dedalus.public as d3
from dedalus.core import timesteppers

SCHEMES = ['CNAB1', 'SBDF1', 'CNAB2', 'MCNAB2', 'SBDF2', 'CNLF2', 'SBDF3', 'SBDF4', 'RK111', 'RK222', 'RK443', 'RKSMR', 'RKGFY']
TERMS = ['time', 'time', 'sq', 'adv', 'fn', 'lin', 'cube', 'tt']

g2 = (2 - np.sqrt(2)) / 2
d2 = 1 - 1 / (2 * g2)
# Tableaus written from the cited papers: stage abscissae, explicit and diagonally implicit rows
RK = {
    'RK111': ([0, 1], [[], [1]], [[0], [0, 1]]),
    'RK222': ([0, g2, 1], [[], [g2], [d2, 1 - d2]], [[0], [0, g2], [0, 1 - g2, g2]]),
    'RK443': ([0, .5, 2 / 3, .5, 1], [[], [.5], [11 / 18, 1 / 18], [5 / 6, -5 / 6, .5], [.25, 1.75, .75, -1.75]],
              [[0], [0, .5], [0, 1 / 6, .5], [0, -.5, .5, .5], [0, 1.5, -1.5, .5, .5]]),
    # Spalart, Moser & Rogers: (1 - k b_i L) u_i = u_{i-1} + k (a_i L u_{i-1} + g_i N_{i-1} + z_{i-1} N_{i-2})
    'RKSMR': ([0, 8 / 15, 2 / 3, 1], [[], [8 / 15], [8 / 15 - 17 / 60, 5 / 12], [8 / 15 - 17 / 60, 5 / 12 - 5 / 12, 3 / 4]],
              [[0], [29 / 96, 37 / 160], [29 / 96, 37 / 160 - 3 / 40, 5 / 24], [29 / 96, 37 / 160 - 3 / 40, 5 / 24 + 1 / 6, 1 / 6]]),
    'RKGFY': ([0, 1, 1], [[], [1], [.5, .5]], [[0], [.5, .5], [.5, 0, .5]]),
}


def lagrange(ts, x):
    """Values and derivatives at x of the Lagrange polynomials on nodes ts."""
    n = len(ts)
    val, der = np.zeros(n), np.zeros(n)
    for j in range(n):
        others = [t for i, t in enumerate(ts) if i != j]
        den = np.prod([ts[j] - t for t in others])
        val[j] = np.prod([x - t for t in others]) / den
        der[j] = sum(np.prod([x - t for k, t in enumerate(others) if k != i]) for i in range(len(others))) / den
    return val, der


def multistep_coeffs(name, dts):
    """Coefficients (a, b, c), newest first, from the timesteps (newest first) taken so far."""
    n = len(dts)
    if name.startswith('SBDF'):
        p = min(int(name[4]), n)
        ts = [0.0]
        for k in dts[:p]:
            ts.append(ts[-1] - k)
        _, a = lagrange(ts, 0.0)
        c, _ = lagrange(ts[1:], 0.0)
        return a, [1.0], [0.0] + list(c)
    if name in ('CNAB1',) or n == 1:
        return [1 / dts[0], -1 / dts[0]], [.5, .5], [0, 1]
    k, w = dts[0], dts[0] / dts[1]
    if name == 'CNAB2':
        return [1 / k, -1 / k], [.5, .5], [0, 1 + w / 2, -w / 2]
    if name == 'MCNAB2':
        return [1 / k, -1 / k], [(8 + 1 / w) / 16, (7 - 1 / w) / 16, 1 / 16], [0, 1 + w / 2, -w / 2]
    if name == 'CNLF2':
        return [1 / (1 + w) / k, (w - 1) / k, -w * w / (1 + w) / k], [1 / (2 * w), (1 - 1 / w) / 2, .5], [0, 1]
    raise ValueError(name)


class Problem:
    """One instance of a generated IVP."""

    def __init__(self, c, scheme, terms, opts, t0=0.0, mesh=None, comm=None, **kw):
        self.s = s = lin.build(c, mesh=mesh, comm=comm)
        dist = s.dist
        r = V.rng(c['seed'] + 5)
        self.t = t = dist.Field(name='t')
        t['g'] = t0
        self.forcing = []
        self.problem = problem = d3.IVP(s.vars, time=t)
        main = {f.name: f for f in s.main}
        cart = c['space']['kind'] == 'cart'
        # independent of the ordering of equations: forcing fields are made in id order
        rhs = {}
        self.used = set()
        for e in sorted(s.eqs, key=lambda e: e['id']):
            for f in s.vars:
                f['c'] = 0
            g = e['lhs'].evaluate().copy()
            g.name = 'g%d' % e['id']
            V.random_coeffs(g, r)
            if g.domain.bases:
                lin.consistent(g)
            self.forcing.append(g)
            m = e['m']
            out = 0
            if m is None:
                k = terms[-1] if terms else 'time'
                out = [g, np.cos(3 * t) * g, 0, t * g + g][len(k) % 4]
                self.used.add('bc')
            else:
                rk = len(m.tensorsig)
                for T in terms:
                    x = None
                    if T == 'time':
                        x = np.sin(2 * t) * g
                    elif T == 'tt':
                        x = (1 + t * t) * g
                    elif T == 'lin':
                        x = 0.3 * m
                    elif T == 'sq':
                        x = 0.3 * m * m if not rk else (0.3 * main['s'] * m if 's' in main else None)
                    elif T == 'cube':
                        x = -0.2 * m**3 if not rk else -0.2 * (m @ m) * m
                    elif T == 'fn':
                        x = 0.3 * np.sin(m) if not rk else None
                    elif T == 'adv':
                        if rk:
                            x = 0.2 * m @ d3.grad(m)
                        elif 'u' in main and main['u'].tensorsig:
                            x = 0.2 * main['u'] @ d3.grad(m)
                        elif cart:
                            x = 0.2 * m * d3.Differentiate(m, s.cs.coords[0])
                    if x is not None:
                        out = out + x
                        self.used.add(T)
            rhs[e['id']] = out
        for e in s.eqs:
            lhs = e['lhs']
            if e['m'] is not None:
                lhs = d3.TimeDerivative(e['m']) + lhs
            problem.add_equation((lhs, rhs[e['id']]))
        coup = lin.full_coupling(s, problem.matrix_coupling, opts.get('extra', 0))
        o = {k: v for k, v in opts.items() if k != 'extra' and v is not None}
        scheme = getattr(timesteppers, scheme) if scheme == 'RKGFY' else scheme
        self.solver = problem.build_solver(scheme, matrix_coupling=coup, ncc_cutoff=1e-13, **o, **kw)
        self.vars = {f.name: f for f in s.vars}

    def state(self):
        out = {}
        for n, f in self.vars.items():
            x = np.array(f['c'])
            x[~np.broadcast_to(V.valid_mask(f), x.shape)] = 0
            out[n] = x
        return out

    def init(self, r, amp=1.0):
        for n in sorted(self.vars):
            f = self.vars[n]
            V.random_coeffs(f, r)
            lin.consistent(f)
            f['c'] *= amp


class Reference:
    """Dense integrator working on the matrices of a twin problem and directly evaluated right-hand sides."""

    def __init__(self, P, scheme, t0):
        self.P, self.scheme, self.time = P, scheme, t0
        self.sps = [sp for sp in P.solver.subproblems if sp.shape[0]]
        self.M = [sp.M_min.toarray() for sp in self.sps]
        self.L = [sp.L_min.toarray() for sp in self.sps]
        self.hist = []   # newest first: (MX, LX, F)
        self.dts = []
        self.fields = tuple(P.problem.variables)

    def gather(self):
        for f in self.fields:
            f.require_coeff_space()
        return [sp.gather_inputs(self.fields).copy() for sp in self.sps]

    def scatter(self, X):
        for f in self.fields:
            f.require_coeff_space()
        for sp, x in zip(self.sps, X):
            sp.scatter_inputs(np.ascontiguousarray(x), self.fields)

    def F(self, t):
        self.P.t['g'] = t
        if self.P.s.spec['space']['kind'] in ('annulus', 'shell'):
            # unresolved data are truncated at level changes, so the order of layouts matters: use the evaluator's
            ev = self.P.solver.evaluator
            ev.evaluate_group('F')
            return [sp.gather_outputs(tuple(self.P.solver.F)).copy() for sp in self.sps]
        out = []
        for eq in self.P.problem.equations:
            f = eq['F'].evaluate().copy()
            f.require_coeff_space()
            out.append(f)
        return [sp.gather_outputs(tuple(out)).copy() for sp in self.sps]

    def solve(self, a, b, R):
        out = []
        for M, L, r in zip(self.M, self.L, R):
            A = a * M + b * L
            if np.linalg.cond(A) > 1e10:
                raise Skip('ill conditioned')
            out.append(np.linalg.solve(A, r))
        return out

    def step(self, k):
        X = self.gather()
        MX = [M @ x for M, x in zip(self.M, X)]
        LX = [L @ x for L, x in zip(self.L, X)]
        F = self.F(self.time)
        if self.scheme in RK:
            cc, A, H = RK[self.scheme]
            Fs, LXs = [F], [LX]
            for i in range(1, len(cc)):
                R = [mx.copy() for mx in MX]
                for j in range(i):
                    for n in range(len(R)):
                        R[n] = R[n] + k * A[i][j] * Fs[j][n] - k * H[i][j] * LXs[j][n]
                X = self.solve(1.0, k * H[i][i], R)
                self.scatter(X)
                if i < len(cc) - 1:
                    Fs.append(self.F(self.time + cc[i] * k))
                    LXs.append([L @ x for L, x in zip(self.L, self.gather())])
        else:
            self.hist.insert(0, (MX, LX, F))
            self.dts.insert(0, k)
            a, b, c = multistep_coeffs(self.scheme, self.dts)
            R = [0 * f for f in F]
            for coef, i in ((a, 0), (b, 1), (c, 2)):
                for j in range(1, len(coef)):
                    for n in range(len(R)):
                        R[n] = R[n] + (1 if i == 2 else -1) * coef[j] * self.hist[j - 1][i][n]
            self.scatter(self.solve(a[0], b[0], R))
            del self.hist[5:], self.dts[5:]
        self.time += k
        self.P.t['g'] = self.time


def opts_st(matsolvers=('superlucolamdfactorized', 'superlunaturalspsolve', 'denseinverse', 'scipydenselu', 'scipybanded', None)):
    return st.fixed_dictionaries({'matsolver': st.sampled_from(list(matsolvers)), 'bc_top': st.booleans(), 'tau_left': st.booleans(),
                                  'interleave_components': st.booleans(), 'store_expanded_matrices': st.booleans(),
                                  'extra': st.integers(0, 7), 'enforce_real_cadence': st.sampled_from([1, 2, 3, 100])})
