"""C20 Polynomial, quadrature and spin libraries: defining identities against scipy formulas."""
import itertools
import numpy as np
import scipy.sparse as sps
from scipy.special import eval_jacobi, gammaln, betaln
from math import factorial
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation
from vlib import spaces as V
from dedalus.libraries.dedalus_sphere import jacobi as J, zernike as Z, sphere as SP, spin_operators as SO, shell as SH
from dedalus.tools import jacobi as TJ, clenshaw as TC


def lognorm(n, a, b):
    """log of the squared norm of the classical Jacobi polynomial."""
    n = np.asarray(n, float)
    # (2n+a+b+1) Gamma(n+a+b+1) is regular for n = 0, a + b = -1
    with np.errstate(all='ignore'):
        body = gammaln(n + a + 1) + gammaln(n + b + 1) - gammaln(n + 1) - gammaln(n + a + b + 1) - np.log(2 * n + a + b + 1)
    zero = gammaln(a + 1) + gammaln(b + 1) - gammaln(a + b + 2)
    return (a + b + 1) * np.log(2) + np.where(n == 0, zero, body)


def P(n, a, b, z, normalised=True):
    """Values of the first n Jacobi polynomials, shape (n, len(z))."""
    k = np.arange(n)[:, None]
    v = eval_jacobi(k, a, b, z[None, :]) if n else np.zeros((0, len(z)))
    if normalised:
        v = v * np.exp(-0.5 * lognorm(k, a, b))
    return v


def dP(n, a, b, z, normalised=True):
    k = np.arange(n)[:, None]
    v = np.where(k > 0, (k + a + b + 1) / 2 * eval_jacobi(np.maximum(k - 1, 0), a + 1, b + 1, z[None, :]), 0) if n else np.zeros((0, len(z)))
    if normalised:
        v = v * np.exp(-0.5 * lognorm(k, a, b))
    return v


def D(M):
    return np.asarray(M.toarray() if sps.issparse(M) else M, dtype=float)


def close(got, want, what, rtol=1e-9, extra=0):
    s = max(1e-12, float(np.abs(want).max(initial=0)), extra)
    assert_close(np.asarray(got, float), np.asarray(want, float), what, rtol=rtol, atol=1e-13, scale=s)


par = st.one_of(st.sampled_from([-0.5, 0, 0.5, 1, 1.5, 2, 3]), st.integers(-8, 50).map(lambda i: i / 10))
intpar = st.sampled_from([-0.5, 0, 0.5, 1, 1.5, 2.5, 3, 5])


def jac_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['quad', 'poly', 'A', 'A', 'B', 'B', 'C', 'C', 'D', 'D', 'Z', 'N', 'Pi', 'connect', 'conv', 'diff', 'jac', 'integ', 'ratio', 'algebra', 'build', 'measure']),
                                  'n': st.integers(1, 24), 'a': par, 'b': par, 'p': st.sampled_from([1, -1]), 'norm': st.booleans(), 'da': st.integers(0, 3), 'db': st.integers(0, 3), 'seed': st.integers(0, 10**6)})


def run_jacobi(c):
    fn, n, a, b, p = c['fn'], c['n'], c['a'], c['b'], c['p']
    r = V.rng(c['seed'])
    z = np.sort(r.uniform(-1, 1, 30))
    nm = c['norm']
    what = f'{fn} n={n} a={a} b={b} p={p}'
    if fn in ('quad', 'build'):
        zq, w = J.quadrature(n, a, b) if fn == 'quad' else (TJ.build_grid(n, a, b), TJ.build_weights(n, a, b))
        require(np.all(np.diff(zq) > 0) if n > 1 else True, f'{what}: nodes are not increasing')
        require(np.all(np.abs(zq) < 1) and np.all(w > 0), f'{what}: nodes or weights out of range')
        for i in range(2 * n):
            for q in {0, i // 2, i}:
                want = np.exp((a + b + 1) * np.log(2) + betaln(a + 1 + q, b + 1 + i - q))
                got = np.sum(w * ((1 - zq) / 2)**q * ((1 + zq) / 2)**(i - q))
                require(abs(got - want) <= 1e-10 * want + 1e-13 * w.sum(), f'{what}: quadrature of degree {i} is {got} instead of {want}')
        if fn == 'quad':
            require(abs(np.sum(J.quadrature(n, a, b, probability=True)[1]) - 1) < 1e-11, f'{what}: probability weights')
        pq = P(n + 1, a, b, zq)
        require(np.abs(pq[n]).max() < 1e-8 * np.abs(P(n + 1, a, b, np.array([-1.0, 1.0]))).max() + 1e-8, f'{what}: nodes are not the roots')
    elif fn == 'measure':
        m = np.exp((a + b + 1) * np.log(2) + betaln(a + 1, b + 1))
        close([J.mass(a, b), np.exp(J.mass(a, b, log=True)), TJ.mass(a, b)], [m] * 3, f'{what}: mass')
        w = (1 - z)**a * (1 + z)**b
        close(J.measure(a, b, z) + 0 * z, w / m, f'{what}: measure')
        close(J.measure(a, b, z, probability=False) + 0 * z, w, f'{what}: measure')
        close(np.exp(J.measure(a, b, z, log=True)) + 0 * z, w / m, f'{what}: log measure')
        close(np.exp(J.measure(a, b, z, log=True, probability=False)) + 0 * z, w, f'{what}: log measure')
    elif fn == 'poly':
        got = J.polynomials(n, a, b, z, normalised=nm) if nm or True else None
        want = P(n, a, b, z, normalised=nm)
        close(got, want, what)
        close(TJ.build_polynomials(n, a, b, z), P(n, a, b, z), what)
        x = float(z[3])
        close(np.array(J.polynomials(n, a, b, x)), P(n, a, b, np.array([x]))[:, 0], what + ' scalar')
        init = 1.5 + z
        close(J.polynomials(n, a, b, z, init), P(n, a, b, z) / P(1, a, b, z) * init, what + ' with starting values')
        # orthonormality under an independent exact rule
        q, w = J.quadrature(n + 1, a, b)
        Q = J.polynomials(n, a, b, q)
        close((w * Q) @ Q.T, np.eye(n), what + ' orthonormality', rtol=1e-10)
    elif fn in 'ABCD':
        da, db = {'A': (p, 0), 'B': (0, p), 'C': (p, -p), 'D': (p, p)}[fn]
        if a + da <= -0.95 or b + db <= -0.95:
            raise Skip('parameters')
        op = J.operator(fn, normalised=nm)(p)
        M = D(op(n, a, b))
        n2, a2, b2 = op.codomain(n, a, b)
        require((a2, b2) == (a + da, b + db), f'{what}: codomain')
        require(M.shape == (max(n2, 0), n), f'{what}: shape {M.shape}, codomain {n2}')
        f, g = P(n, a, b, z, nm), dP(n, a, b, z, nm)
        left = {('A', 1): f, ('A', -1): (1 - z) * f, ('B', 1): f, ('B', -1): (1 + z) * f, ('C', 1): b * f + (1 + z) * g, ('C', -1): a * f - (1 - z) * g,
                ('D', 1): g, ('D', -1): (a * (1 + z) - b * (1 - z)) * f - (1 - z**2) * g}[fn, p]
        close((P(n2, a2, b2, z, nm).T @ M).T, left, f'{what} normalised={nm}', extra=np.abs(g).max() if fn in 'CD' else 0)
    elif fn == 'Z':
        M = D(J.operator('Z', normalised=nm)(n, a, b))
        close((P(n + 1, a, b, z, nm).T @ M).T, z * P(n, a, b, z, nm), what)
    elif fn == 'N':
        close(D(J.operator('N')(n, a, b)), np.diag(np.arange(n)), what)
        close(D(J.operator('Id')(n, a, b)), np.eye(n), what)
        close(D(J.operator('A')(0)(n, a, b)), a * np.eye(n), what)
    elif fn == 'Pi':
        op = J.operator('Pi')
        require(tuple(op.codomain(n, a, b)) == (n, b, a), f'{what}: codomain')
        close((P(n, b, a, z).T @ D(op(n, a, b))).T, P(n, a, b, -z), what)
    elif fn == 'connect':
        a2, b2 = a + c['da'], b + c['db']
        if c['seed'] % 2:
            a2, b2 = b, a
        C = J.coefficient_connection(n, (a, b), (a2, b2))
        F = lambda a, b: P(n, a, b, z) / P(1, a, b, z)
        close((F(a2, b2).T @ C).T, F(a, b), what, rtol=1e-7)
    elif fn == 'conv':
        a2, b2 = a + c['da'], b + c['db']
        if (a2 - a) % 1 or (b2 - b) % 1:
            raise Skip('parameters not exactly integer separated in floating point')
        M = D(TJ.conversion_matrix(n, a, b, a2, b2))
        require(M.shape == (n, n), f'{what}: shape')
        close((P(n, a2, b2, z).T @ M).T, P(n, a, b, z), what)
        for bad in ((a, b, a - 1, b), (a, b, a, b - 1), (a, b, a + 0.5, b), (a, b, a, b + 0.25)):
            try:
                TJ.conversion_matrix(n, *bad)
            except ValueError:
                continue
            raise Violation(f'conversion_matrix accepts {bad}')
    elif fn == 'diff':
        M = D(TJ.differentiation_matrix(n, a, b))
        require(M.shape == (n, n), f'{what}: shape')
        close((P(n, a + 1, b + 1, z).T @ M).T, dP(n, a, b, z), what)
    elif fn == 'jac':
        M = D(TJ.jacobi_matrix(n, a, b))
        full = D(J.operator('Z')(n, a, b))
        require(M.shape == (n, n), f'{what}: shape')
        close(M, full[:n, :n], what)
        if n > 1:
            close((P(n, a, b, z).T @ M[:, :n - 1]).T, z * P(n - 1, a, b, z), what)
    elif fn == 'integ':
        x, w = np.polynomial.legendre.leggauss(n + 2)
        close(TJ.integration_vector(n, a, b), P(n, a, b, x) @ w, what, rtol=1e-11)
    elif fn == 'ratio':
        k = np.arange(1, n + 3)
        dn, da, db = c['da'] - 1, c['db'] - 1, c['p']
        if a + da <= -0.95 or b + db <= -0.95 or c['da'] == 0 and False:
            raise Skip('parameters')
        if min(a, a + da) + min(b, b + db) <= -1.9:
            raise Skip('parameters')
        want = np.exp(0.5 * (lognorm(k + dn, a + da, b + db) - lognorm(k, a, b)))
        close(J.norm_ratio(dn, da, db, k, a, b), want, what)
        close(J.norm_ratio(dn, da, db, k, a, b, squared=True), want**2, what)
    elif fn == 'algebra':
        ops = {'A': J.operator('A')(1), 'B': J.operator('B')(1), 'D': J.operator('D')(1), 'Z': J.operator('Z'), 'Pi': J.operator('Pi')}
        A, B, Dp, Zz = ops['A'], ops['B'], ops['D'], ops['Z']
        f = P(n, a, b, z)
        M = (A**c['da'] @ B**c['db']) if True else None
        n2, a2, b2 = M.codomain(n, a, b)
        close((P(n2, a2, b2, z).T @ D(M(n, a, b))).T, f, what + ' powers')
        S = 2 * Zz @ Zz - Zz / 4 + 3
        R = D(S(n, a, b))
        close((P(R.shape[0], a, b, z).T @ R).T, (2 * z**2 - z / 4 + 3) * f, what + ' polynomial of Z')
        S = A @ B @ Zz - Dp @ (1 - Zz @ Zz)
        R = D(S(n, a, b))
        close((P(R.shape[0], a + 1, b + 1, z).T @ R).T, z * f - (-2 * z * f + (1 - z**2) * dP(n, a, b, z)), what + ' mixed sum', extra=np.abs(dP(n, a, b, z)).max())
        T = (A @ B).T
        close(D(T(n, a + 1, b + 1)), D((A @ B)(n, a, b)).T, what + ' transpose')
        C = Dp * Zz if False else (Dp @ Zz - (A @ B @ Zz) * 0)
        R = D((Zz * Zz)(n, a, b))
        require(np.abs(R).max(initial=0) < 1e-12, f'{what}: commutator of Z with itself')
    return {'nontrivial': n > 1, 'tags': [fn]}


def clen_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['scalar', 'matrix', 'kron', 'kron']), 'n': st.integers(1, 10), 'M': st.integers(2, 8), 'm': st.integers(1, 3), 'a': par, 'b': par, 'left': st.booleans(),
                                  'sparse': st.booleans(), 'seed': st.integers(0, 10**6)})


def run_clenshaw(c):
    r = V.rng(c['seed'])
    fn, n, a, b = c['fn'], c['n'], c['a'], c['b']
    cs = r.standard_normal(n)
    if fn == 'scalar':
        x = float(r.uniform(-1, 1))
        A, B = TC.jacobi_recursion(n, a, b, x)
        f0 = P(1, a, b, np.array([x]))[0, 0]
        f = P(n, a, b, np.array([x]))[:, 0]
        close(TC.scalar_clenshaw(cs, A, B, f0), cs @ f, 'scalar_clenshaw', extra=np.abs(f).max())
        return {'nontrivial': n > 1, 'tags': [fn]}
    X = r.standard_normal((c['M'], c['M']))
    X = X + X.T
    X /= np.abs(np.linalg.eigvalsh(X)).max() * 1.01
    lam, U = np.linalg.eigh(X)
    F = [(U * p) @ U.T for p in P(n, a, b, lam)]
    A, B = TC.jacobi_recursion(n, a, b, sps.csr_matrix(X))
    f0 = P(1, a, b, np.array([0.0]))[0, 0] * sps.identity(c['M'])
    if fn == 'matrix':
        cut = 0.3 if c['sparse'] else 1e-14
        got = TC.matrix_clenshaw(cs, A, B, f0, cut)
        want = sum(x * f for x, f in zip(cs, F) if abs(x) > cut) + 0 * X
        close(D(got), want, 'matrix_clenshaw', extra=max(np.abs(f).max() for f in F))
        return {'nontrivial': n > 1, 'tags': [fn]}
    C = [sps.csr_matrix(r.standard_normal((c['m'], c['m']))) for i in range(n)]
    norms = [np.abs(D(x)).max() for x in C]
    cut = 1.0 if c['sparse'] else 1e-14
    if c['left'] and False:
        pass
    got = TC.kronecker_clenshaw(C, norms, A, B, f0, cut, coeffs_left=c['left'])
    want = 0
    for x, nr, f in zip(C, norms, F):
        if nr > cut:
            want = want + (np.kron(D(x), f) if c['left'] else np.kron(f, D(x)))
    want = want + np.zeros(got.shape)
    close(D(got), want, f'kronecker_clenshaw coeffs_left={c["left"]}', extra=max(np.abs(f).max() for f in F))
    return {'nontrivial': n > 1 and c['m'] > 1, 'tags': [fn, 'left' if c['left'] else 'right']}


def zern_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['quad', 'poly', 'E', 'E', 'R', 'R', 'D', 'D', 'Z', 'Id']), 'dim': st.sampled_from([2, 3]), 'n': st.integers(1, 14), 'k': st.sampled_from([0, 0, 1, 2, 3, 0.5, -0.5]),
                                  'l': st.integers(0, 14), 'p': st.sampled_from([1, -1]), 'radius': st.sampled_from([1, 0.5, 2.7]), 'seed': st.integers(0, 10**6)})


def zern(dim, n, k, l, z):
    """Normalised radial functions r^l P^(k, l + dim/2 - 1)(2 r^2 - 1) and their r-derivatives."""
    b = l + dim / 2 - 1
    rr = np.sqrt((1 + z) / 2)
    # integral over (1-r^2)^k r^(dim-1) dr  =  2^-(k+b+2) * classical norm
    j = np.arange(n)[:, None]
    nrm = np.exp(-0.5 * (lognorm(j, k, b) - (k + b + 2) * np.log(2)))
    p, dp = P(n, k, b, z, False), dP(n, k, b, z, False)
    q = nrm * rr**l * p
    dq = nrm * ((l * rr**(l - 1) if l else 0 * rr) * p + rr**l * dp * 4 * rr)
    return q, dq, rr


def run_zernike(c):
    fn, dim, n, k, l, p = c['fn'], c['dim'], c['n'], c['k'], c['l'], c['p']
    r = V.rng(c['seed'])
    z = np.sort(r.uniform(-0.98, 1, 25))
    what = f'Zernike {fn} dim={dim} n={n} k={k} l={l} p={p}'
    q, dq, rr = zern(dim, n, k, l, z)
    if fn == 'quad':
        zq, w = Z.quadrature(dim, n, k)
        for i in range(2 * n):
            want = 0.5 * np.exp(betaln(k + 1, dim / 2 + i))
            got = np.sum(w * ((1 + zq) / 2)**i)
            require(abs(got - want) <= 1e-11 * w.sum(), f'{what}: integral of r^{2 * i}: {got} instead of {want}')
        require(abs(Z.mass(dim, k) - 0.5 * np.exp(betaln(k + 1, dim / 2))) < 1e-12, f'{what}: mass')
    elif fn == 'poly':
        close(Z.polynomials(dim, n, k, l, z), q, what)
        zq, w = Z.quadrature(dim, n + l, k)
        Q = Z.polynomials(dim, n, k, l, zq)
        close((w * Q) @ Q.T, np.eye(n), what + ' orthonormality', rtol=1e-10)
        for L in range(0, 6):
            require(Z.min_degree(L) == L // 2, 'min_degree')
    else:
        R = c['radius']
        if fn == 'E':
            if k + p <= -0.9:
                raise Skip('parameters')
            op, left, k2, l2 = Z.operator(dim, 'E', radius=R)(p), (q if p > 0 else (1 - rr**2) * q), k + p, l
        elif fn == 'R':
            if l + p < 0:
                raise Skip('parameters')
            op, left, k2, l2 = Z.operator(dim, 'R', radius=R)(p), R * rr * q, k, l + p
        elif fn == 'D':
            if l + p < 0:
                raise Skip('parameters')
            op, left, k2, l2 = Z.operator(dim, 'D', radius=R)(p), (dq - l * q / rr if p > 0 else dq + (l + dim - 2) * q / rr) / R, k + 1, l + p
        elif fn == 'Z':
            op, left, k2, l2 = Z.operator(dim, 'Z'), z * q, k, l
        else:
            op, left, k2, l2 = Z.operator(dim, 'Id'), q, k, l
        M = D(op(n, k, l))
        n2 = op.codomain(n, k, l)
        require(tuple(n2)[1:] == (k2, l2), f'{what}: codomain {n2}')
        require(M.shape[1] == n and (M.shape[0] == n2[0]), f'{what}: shape {M.shape} vs codomain {n2}')
        got = (zern(dim, M.shape[0], k2, l2, z)[0].T @ M).T
        close(got, left, what, extra=np.abs(dq).max() if fn == 'D' else 0)
    return {'nontrivial': n > 1 or l > 0, 'tags': [fn, f'dim{dim}']}


def sph_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['quad', 'harm', 'harm', 'D', 'D', 'D', 'Sin', 'Sin', 'Cos', 'L', 'Pi']), 'L': st.integers(0, 18), 'm': st.integers(-9, 9), 's': st.integers(-3, 3), 'p': st.sampled_from([1, -1]), 'seed': st.integers(0, 10**6)})


def wigner(l, m, s, th):
    """d^l_{m,-s}(theta) from the factorial sum."""
    mp, mm = m, -s
    out = 0 * th
    pre = np.sqrt(float(factorial(l + mp) * factorial(l - mp) * factorial(l + mm) * factorial(l - mm)))
    for k in range(max(0, mm - mp), min(l + mm, l - mp) + 1):
        den = float(factorial(l + mm - k) * factorial(k) * factorial(mp - mm + k) * factorial(l - mp - k))
        out = out + (-1.)**(mp - mm + k) * pre / den * np.cos(th / 2)**(2 * l + mm - mp - 2 * k) * np.sin(th / 2)**(mp - mm + 2 * k)
    return out


def harm(L, m, s, th):
    """Normalised spin-weighted harmonics of degrees max(|m|,|s|)..L, with the phase of the Goldberg convention."""
    lm = max(abs(m), abs(s))
    return np.array([np.sqrt((2 * l + 1) / 2) * (-1.)**m * wigner(l, m, s, th) * 1 for l in range(lm, L + 1)]).reshape(-1, len(th))


def run_sphere(c):
    fn, L, m, s, p = c['fn'], c['L'], c['m'], c['s'], c['p']
    r = V.rng(c['seed'])
    th = np.sort(r.uniform(0.1, np.pi - 0.1, 25))
    x = np.cos(th)
    what = f'sphere {fn} Lmax={L} m={m} s={s} p={p}'
    H = lambda L, m, s, y=x: np.asarray(SP.harmonics(L, m, s, y), float)
    n = L + 1 - max(abs(m), abs(s))
    if n < 1 and fn != 'quad':
        require(H(L, m, s).shape[0] == 0, f'{what}: no harmonics expected')
        return {'nontrivial': False, 'tags': [fn]}
    if fn == 'quad':
        zq, w = SP.quadrature(L)
        for i in range(2 * L + 2):
            want = 0 if i % 2 else 2 / (i + 1)
            require(abs(float(np.sum(w * zq**i)) - want) < 1e-12, f'{what}: degree {i}')
    elif fn == 'harm':
        f = H(L, m, s)
        want = harm(L, m, s, th)
        sg = np.sign(np.sum(f[0] * want[0]))
        close(f, sg * want, what, rtol=1e-9)
        require(sg == sign(m, s), f'{what}: phase convention')
        zq, w = SP.quadrature(L)
        Q = H(L, m, s, zq)
        close((np.asarray(w, float) * Q) @ Q.T, np.eye(n), what + ' orthonormality', rtol=1e-11)
    elif fn == 'D':
        op = SP.operator('D')(p)
        M = D(op(L, m, s))
        f = H(L, m, s)
        h = 1e-3
        g = lambda d: H(L, m, s, np.cos(th + d))
        df = (8 * (g(h) - g(-h)) - (g(2 * h) - g(-2 * h))) / (12 * h)
        left = (df - p * (m + s * x) / np.sin(th) * f) / np.sqrt(2)
        n2 = L + 1 - max(abs(m), abs(s + p))
        require(tuple(op.codomain(L, m, s)) == (L, m, s + p), f'{what}: codomain')
        require(M.shape == (max(n2, 0), n), f'{what}: shape {M.shape}')
        close((H(L, m, s + p).T @ M).T if n2 > 0 else 0 * left, DSIGN * left, what, rtol=1e-6, extra=np.abs(df).max())
        # exact eigenvalues of the ladder
        if n2 > 0:
            back = D(SP.operator('D')(-p)(L, m, s + p))
            l = np.arange(max(abs(m), abs(s)), L + 1)
            close(np.diag(back @ M), -((l * (l + 1) - s * (s + p))) / 2, what + ' ladder eigenvalues', rtol=1e-11)
    elif fn == 'Sin':
        op = SP.operator('Sin')(p)
        M = D(op(L, m, s))
        n2 = M.shape[0]
        require(tuple(op.codomain(L, m, s)) == (L + 1, m, s + p), f'{what}: codomain')
        require(n2 == max(0, L + 2 - max(abs(m), abs(s + p))), f'{what}: shape {M.shape}')
        close((H(L + 1, m, s + p).T @ M).T, np.sin(th) * H(L, m, s), what)
    elif fn == 'Cos':
        M = D(SP.operator('Cos')(L, m, s))
        close((H(L + 1, m, s).T @ M).T, x * H(L, m, s), what)
    elif fn == 'L':
        l = np.arange(max(abs(m), abs(s)), L + 1)
        close(D(SP.operator('L')(L, m, s)), np.diag(l), what)
        close(D(SP.operator('M')(L, m, s)), m * np.eye(n), what)
        close(D(SP.operator('Id')(L, m, s)), np.eye(n), what)
    elif fn == 'Pi':
        op = SP.operator('Pi')
        require(tuple(op.codomain(L, m, s)) == (L, m, -s), f'{what}: codomain')
        got = (H(L, m, -s).T @ D(op(L, m, s))).T
        ref = H(L, m, s, -x)
        sg = np.sign(np.sum(got[0] * ref[0]))
        close(got, sg * ref, what)
    return {'nontrivial': n > 1, 'tags': [fn, f's{s}']}


DSIGN = 1


def sign(m, s):
    """Library phase: (-1)^s d^l_{m,-s}."""
    return (-1.)**(m + s)


def shell_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['Z', 'R', 'AB', 'E', 'D', 'D', 'D', 'Id']), 'dim': st.sampled_from([2, 3]), 'n': st.integers(1, 16), 'k': st.integers(0, 4), 'l': st.integers(0, 10), 'p': st.sampled_from([1, -1]),
                                  'radii': st.sampled_from([[1, 2], [0.1, 1], [3, 3.5], [0.5, 4]]), 'alpha': st.sampled_from([[-0.5, -0.5], [0, 0], [0.5, -0.5]]), 'seed': st.integers(0, 10**6)})


def run_shell(c):
    fn, dim, n, k, l, p = c['fn'], c['dim'], c['n'], c['k'], c['l'], c['p']
    ri, ro = c['radii']
    al = tuple(c['alpha'])
    w = ro - ri
    r = V.rng(c['seed'])
    z = np.sort(r.uniform(-1, 1, 25))
    R = ri + (z + 1) / 2 * w
    F = lambda n, k: (w / R)**k * P(n, k + al[0], k + al[1], z)
    dF = lambda n, k: (w / R)**k * dP(n, k + al[0], k + al[1], z) * 2 / w - k / R * F(n, k)
    f, df = F(n, k), dF(n, k)
    what = f'shell {fn} dim={dim} n={n} k={k} l={l} p={p}'
    if fn == 'D':
        op = SH.operator(dim, (ri, ro), 'D', al)(p, l)
        left, k2 = (df - l / R * f if p > 0 else df + (l + dim - 2) / R * f), k + 1
    else:
        op = SH.operator(dim, (ri, ro), fn, al)
        left, k2 = {'Z': (z * f, k), 'R': (R * f, k), 'AB': (f * w / R, k + 1), 'E': (f, k + 1), 'Id': (f, k)}[fn]
        # AB converts the polynomial part only
    M = D(op(n, k))
    require(tuple(op.codomain(n, k))[1] == k2, f'{what}: codomain')
    got = (F(M.shape[0], k2).T @ M).T
    close(got, left, what, extra=np.abs(df).max() if fn == 'D' else 0, rtol=1e-9)
    return {'nontrivial': n > 1, 'tags': [fn, f'dim{dim}']}


def spin_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['metric', 'id', 'transpose', 'trace', 'product', 'inter', 'inter', 'ladder', 'xi', 'ops']), 'rank': st.integers(0, 3), 'L': st.integers(0, 9), 'ord': st.integers(0, 5), 'i': st.integers(0, 5), 'j': st.integers(0, 5),
                                  'dim': st.sampled_from([2, 3]), 'seed': st.integers(0, 10**6)})


def run_spin(c):
    fn, rank, L = c['fn'], c['rank'], c['L']
    r = V.rng(c['seed'])
    if c['dim'] == 2:
        idx = [(-1, 1), (1, -1)][c['ord'] % 2]
    else:
        idx = list(itertools.permutations((-1, 0, 1)))[c['ord']]
    d = len(idx)
    kw = dict(indexing=idx)
    T = r.standard_normal((d,) * rank)
    tup = list(itertools.product(*(rank * (idx,))))
    pos = {v: i for i, v in enumerate(idx)}

    def act(M, T, out):
        return (np.asarray(M) @ T.ravel()).reshape((d,) * out)
    what = f'{fn} rank {rank} indexing {idx}'
    nt = rank > 0
    if fn == 'id':
        close(np.asarray(SO.Identity(**kw)(rank)), np.eye(d**rank), what)
    elif fn == 'metric':
        got = act(SO.Metric(**kw)(rank), T, rank)
        want = np.zeros_like(T)
        for t in tup:
            want[tuple(pos[-x] for x in t)] = T[tuple(pos[x] for x in t)]
        close(got, want, what)
    elif fn == 'transpose':
        if rank < 2:
            raise Skip('rank')
        perm = list(itertools.permutations(range(rank)))[c['i'] % factorial(rank)]
        got = act(SO.Transpose(permutation=perm, **kw)(rank), T, rank)
        # output index sigma = permutation applied to the input index
        want = np.zeros_like(T)
        for t in tup:
            want[tuple(pos[t[q]] for q in perm)] = T[tuple(pos[x] for x in t)]
        close(got, want, f'{what} {perm}')
    elif fn == 'trace':
        if rank < 2:
            raise Skip('rank')
        pair = tuple(sorted((c['i'] % rank, (c['i'] + 1 + c['j'] % (rank - 1)) % rank)))
        got = act(SO.Trace(pair, **kw)(rank), T, rank - 2)
        want = np.zeros((d,) * (rank - 2))
        for t in tup:
            if t[pair[0]] + t[pair[1]] == 0:
                rest = tuple(pos[x] for i, x in enumerate(t) if i not in pair)
                want[rest] += T[tuple(pos[x] for x in t)]
        close(got, want, f'{what} {pair}')
    elif fn == 'product':
        el = tuple(idx[i % d] for i in (c['i'], c['j']))[:1 + c['seed'] % 2]
        for action in ('left', 'right'):
            got = act(SO.TensorProduct(el, action=action, **kw)(rank), T, rank + len(el)) if rank + len(el) <= 4 else None
            if got is None:
                continue
            want = np.zeros((d,) * (rank + len(el)))
            e = tuple(pos[x] for x in el)
            want[e if action == 'left' else (Ellipsis,) + e] = T
            close(got, want, f'{what} {el} {action}')
    elif fn == 'inter':
        idx3 = idx if d == 3 else (-1, 1, 0)
        Q = SO.Intertwiner(L, indexing=idx3)
        M = np.asarray(Q(rank), float)
        tups = list(itertools.product(*(rank * (idx3,))))
        okr = np.array([not Q.forbidden_regularity(t) for t in tups])
        oks = np.array([not Q.forbidden_spin(t) for t in tups])
        for t, o in zip(tups, okr):
            # degrees along the chain of regularities must stay valid
            walk = [L]
            for x in t[::-1]:
                walk.append(walk[-1] + x)
            want = all(w >= 0 for w in walk) and not any(walk[i] == walk[i + 1] == 0 for i in range(len(walk) - 1))
            require(o == want, f'{what} L={L}: allowed regularity {t}')
        for t, o in zip(tups, oks):
            require(o == (abs(sum(t)) <= L), f'{what} L={L}: allowed spin {t}')
        close(M.T @ M, np.diag(okr.astype(float)), f'{what} L={L}: columns are orthonormal on allowed regularities', rtol=1e-10)
        require(okr.sum() == oks.sum(), 'number of allowed components')
        close(M @ M.T, np.diag(oks.astype(float)), f'{what} L={L}: rows are orthonormal on allowed spins', rtol=1e-10)
        nt = rank > 0 and L > 0
    elif fn == 'ladder':
        # gradient of a regular solid harmonic r^l Y_l is purely of regularity -1
        if L < 1:
            raise Skip('degree')
        Q = SO.Intertwiner(L)
        col = [Q[(s,), (-1,)] for s in (-1, 0, 1)]
        # grad(r^l Y) = r^(l-1) (l Y e_r + sum of k_s Y_s e_s); normalised by sqrt(l (2l+1))
        want = np.array([Q.k(-1, 0), L, Q.k(1, 0)], float)
        nrm = np.linalg.norm(want)
        require(abs(nrm - np.sqrt(L * (2 * L + 1))) < 1e-10, 'norm of the gradient of a solid harmonic')
        close(np.abs(col), np.abs(want) / nrm, f'{what} L={L}')
        require(np.isclose(abs(np.dot(col, want)), nrm), f'{what} L={L}: regularity -1 vector is not the gradient of a solid harmonic')
    elif fn == 'xi':
        for mu in (-1, 0, 1):
            want = 0 if mu == 0 else np.sqrt((L + (mu + 1) / 2) / (2 * L + 1))
            close(SO.xi(mu, L), want, f'xi({mu},{L})')
    elif fn == 'ops':
        if rank < 2:
            raise Skip('rank')
        A, B = SO.Metric(**kw), SO.Transpose(**kw) if rank == 2 else SO.Metric(**kw)
        M = np.asarray((A @ B + 2 * A - B / 2)(rank))
        close(M, np.asarray(A(rank)) @ np.asarray(B(rank)) + 2 * np.asarray(A(rank)) - np.asarray(B(rank)) / 2, what)
    return {'nontrivial': nt, 'tags': [fn]}


SUBS = [Sub('jacobi', jac_case, run_jacobi, 12000), Sub('clenshaw', clen_case, run_clenshaw, 2500), Sub('zernike', zern_case, run_zernike, 6000), Sub('sphere', sph_case, run_sphere, 5000), Sub('shell', shell_case, run_shell, 4000), Sub('spin', spin_case, run_spin, 2500)]
