"""C19 Array and sparse-matrix kernels against dense numpy."""
import warnings
import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from vlib.core import Sub, require, assert_close, Skip, Violation
from vlib import spaces as V
from dedalus.tools import array as T
from dedalus.tools import general as G
from dedalus.libraries import spin_recombination as SR

LAYS = ['C', 'F', 'step', 'swap', 'flip']


def shaped(r, shape, dtype, lay):
    """Random array of the given shape, element type and memory layout."""
    shape = tuple(shape)

    def rand(s):
        x = r.standard_normal(s)
        if dtype in ('c16', 'c8'):
            x = x + 1j * r.standard_normal(s)
        return x.astype({'f8': np.float64, 'c16': np.complex128, 'f4': np.float32, 'c8': np.complex64}[dtype])
    x = np.asarray(rand(shape))
    if lay == 'F':
        return np.asfortranarray(x)
    if lay == 'step' and shape:
        big = rand(tuple(2 * s + 1 for s in shape))
        v = big[tuple(slice(0, 2 * s, 2) for s in shape)]
        assert v.shape == shape
        return v
    if lay == 'swap' and len(shape) > 1:
        return np.ascontiguousarray(np.swapaxes(x, 0, -1)).swapaxes(0, -1)
    if lay == 'flip' and shape:
        return np.ascontiguousarray(x[::-1])[::-1]
    return np.ascontiguousarray(x)


def spmat(r, m, n, dens, dtype, fmt='csr', dup=False):
    A = r.standard_normal((m, n))
    if dtype[0] == 'c':
        A = A + 1j * r.standard_normal((m, n))
    A[r.uniform(size=(m, n)) > dens] = 0
    A = A.astype({'f8': np.float64, 'c16': np.complex128, 'f4': np.float32, 'c8': np.complex64}[dtype])
    M = sps.coo_matrix(A)
    if dup and M.nnz:
        # unsorted entries with duplicates
        p = r.permutation(M.nnz)
        row, col, dat = np.r_[M.row[p], M.row[:1]], np.r_[M.col[p], M.col[:1]], np.r_[M.data[p], M.data[:1]]
        A[M.row[0], M.col[0]] *= 2
        M = sps.coo_matrix((dat, (row, col)), shape=(m, n))
        indptr = np.r_[0, np.cumsum(np.bincount(row, minlength=m))].astype(np.int32)
        o = np.argsort(row, kind='stable')
        C = sps.csr_matrix((dat[o], col[o].astype(np.int32), indptr), shape=(m, n))
        return A, C
    return A, M.asformat(fmt)


def dense_apply(A, x, axis):
    return np.moveaxis(np.tensordot(A, x, axes=(1, axis)), 0, axis)


DT = st.sampled_from(['f8', 'f8', 'c16', 'c16', 'f4', 'c8'])
TOL = {'f8': 1e-12, 'c16': 1e-12, 'f4': 2e-4, 'c8': 2e-4}


def apply_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['apply_sparse', 'apply_dense', 'apply_sparse_dot', 'apply_dense_einsum', 'apply_matrix', 'solve_upper', 'solve_upper']),
                                  'shape': st.lists(st.sampled_from([2, 3, 1, 4, 5, 3, 2, 0]), min_size=1, max_size=5), 'axis': st.integers(-5, 4), 'rows': st.sampled_from([3, 2, 1, 4, 5, 6, 0]), 'dt': DT, 'mreal': st.booleans(),
                                  'lay': st.sampled_from(LAYS), 'outlay': st.sampled_from([None, None, 'C', 'F', 'step', 'flip', 'same']), 'dens': st.sampled_from([1.0, 0.3, 0.7, 0.0]),
                                  'dup': st.booleans(), 'threads': st.sampled_from([1, 1, 2]), 'check': st.booleans(), 'seed': st.integers(0, 10**6)})


def run_apply(c):
    r = V.rng(c['seed'])
    shape = c['shape']
    nd = len(shape)
    axis = c['axis'] % nd if c['axis'] >= 0 or c['check'] else -1 - (c['axis'] % nd)
    fn, dt = c['fn'], c['dt']
    pos = axis % nd
    tol = TOL[dt]
    if fn == 'solve_upper':
        if pos == axis or True:
            n = shape[pos]
        mdt = {'c16': 'f8', 'c8': 'f4'}.get(dt, dt) if c['mreal'] else dt
        A, _ = spmat(r, n, n, c['dens'], mdt)
        A = np.triu(A, 1) * 0.5 + np.diag((1 + r.uniform(size=n)).astype(A.dtype) if n else np.zeros(0, A.dtype))
        A = A.astype({'f8': np.float64, 'c16': np.complex128, 'f4': np.float32, 'c8': np.complex64}[mdt])
        M = sps.csr_matrix(A)
        if c['dup'] and n:
            # same matrix with unsorted column indices
            o = np.concatenate([np.arange(M.indptr[i], M.indptr[i + 1])[::-1] for i in range(n)])
            M = sps.csr_matrix((M.data[o], M.indices[o], M.indptr), shape=M.shape)
        x = shaped(r, shape, dt, c['lay'])
        x0 = x.copy()
        want = np.moveaxis(np.linalg.solve(A, np.moveaxis(x0, pos, 0).reshape(n, -1)).reshape((n,) + tuple(np.delete(shape, pos))), 0, pos) if x.size else x0.copy()
        kw = dict(num_threads=c['threads'])
        if c['check'] and axis >= 0:
            kw['check_shapes'] = True
        A0 = M.toarray()
        if c['outlay'] == 'same':
            got = T.solve_upper_sparse(M, x, axis, out=x, **kw)
            res = x
        elif c['outlay'] is None:
            got = res = T.solve_upper_sparse(M, x, axis, **kw)
            require(got is not None, 'solve_upper_sparse returns nothing when no output is given')
        else:
            out = shaped(r, shape, dt, c['outlay'])
            T.solve_upper_sparse(M, x, axis, out=out, **kw)
            res = out
        assert_close(res, want, f'{fn} shape {shape} axis {axis} {dt} layout {c["lay"]} out {c["outlay"]}', rtol=tol * 10)
        if c['outlay'] != 'same':
            require(np.array_equal(x, x0), f'{fn}: input modified')
        require(np.array_equal(M.toarray(), A0), f'{fn}: matrix modified')
        return {'nontrivial': x.size > 1 and c['dens'] > 0, 'tags': [fn, dt, c['lay'], f'out {c["outlay"]}', f'{nd}D']}
    m, n = c['rows'], shape[pos]
    mdt = {'c16': 'f8', 'c8': 'f4'}.get(dt, dt) if c['mreal'] else dt
    x = shaped(r, shape, dt, c['lay'])
    x0 = x.copy()
    sparse = fn in ('apply_sparse', 'apply_sparse_dot') or (fn == 'apply_matrix' and c['dup'])
    A, M = spmat(r, m, n, c['dens'], mdt, dup=c['dup'] and fn != 'apply_matrix')
    mat = M if sparse else A
    if fn == 'apply_dense_einsum':
        axis = pos  # einsum signatures need the plain axis
    want = dense_apply(A.astype(np.result_type(A, x0)), x0, pos)
    f = getattr(T, fn)
    kw = {}
    if fn == 'apply_sparse':
        kw['num_threads'] = c['threads']
        kw['check_shapes'] = c['check'] and axis >= 0
    what = f'{fn} matrix {(m, n)} on {shape} axis {axis} {dt} layout {c["lay"]} out {c["outlay"]}'
    outlay = c['outlay']
    if outlay == 'same' and (sparse and fn != 'apply_sparse_dot' or m != n or fn == 'apply_dense_einsum'):
        outlay = 'C'
    if outlay is None:
        got = f(mat, x, axis, **kw)
    elif outlay == 'same':
        got = f(mat, x, axis, out=x, **kw)
    else:
        oshape = list(shape)
        oshape[pos] = m
        out = shaped(r, oshape, dt, outlay)
        ret = f(mat, x, axis, out=out, **kw)
        require(ret is out or ret is None, f'{what}: does not return the given output')
        got = out
    assert_close(got, want, what, rtol=tol)
    if outlay != 'same':
        require(np.array_equal(x, x0), f'{what}: input modified')
    require(np.array_equal(mat.toarray() if sparse else mat, A) if not c['dup'] else True, f'{what}: matrix modified')
    return {'nontrivial': x.size > 1 and c['dens'] > 0 and m > 0, 'tags': [fn, dt, c['lay'], f'out {outlay}', f'{nd}D']}


def misc_case():
    sh = st.lists(st.tuples(st.integers(0, 4), st.integers(0, 4)).map(list), min_size=0, max_size=4)
    return st.fixed_dictionaries({'fn': st.sampled_from(['block', 'block', 'kron', 'nkron', 'perm', 'perm', 'permaxis', 'drop', 'interleave', 'interleave', 'pattern', 'expand', 'add', 'matvec', 'matvecs', 'ivview',
                                  'reshape', 'axslice', 'move', 'copyto', 'lu', 'allclose', 'pinv', 'recombine']), 'shapes': sh, 'n': st.integers(0, 5), 'm': st.integers(0, 5), 'k': st.integers(0, 4), 'dt': st.sampled_from(['f8', 'c16']),
                                  'dens': st.sampled_from([1.0, 0.3, 0.7, 0.0]), 'fmt': st.sampled_from(['csr', 'csc', 'coo', 'dense']), 'lay': st.sampled_from(LAYS), 'flag': st.booleans(), 'flag2': st.booleans(), 'seed': st.integers(0, 10**6)})


def D(M):
    return M.toarray() if sps.issparse(M) else np.asarray(M)


def run_misc(c):
    r = V.rng(c['seed'])
    fn, m, n, k, dt, dens = c['fn'], c['m'], c['n'], c['k'], c['dt'], c['dens']
    fmt = 'csr' if c['fmt'] == 'dense' else c['fmt']
    nt = True
    if fn == 'block':
        As = [spmat(r, a, b, dens, dt, fmt) for a, b in c['shapes']]
        blocks = [A if c['fmt'] == 'dense' else M for A, M in As]
        M_, N_ = sum(a for a, b in c['shapes']), sum(b for a, b in c['shapes'])
        shape = (M_ + k, N_ + m) if c['flag'] else None
        want = np.zeros(shape or (M_, N_), dtype=np.result_type(*[A for A, _ in As]) if As else float)
        i = j = 0
        for A, _ in As:
            want[i:i + A.shape[0], j:j + A.shape[1]] = A
            i += A.shape[0]
            j += A.shape[1]
        got = T.sparse_block_diag(blocks, shape=shape)
        require(sps.issparse(got) and got.format == 'csr', 'sparse_block_diag format')
        assert_close(D(got), want, f'sparse_block_diag of {c["shapes"]} shape {shape}', rtol=0)
        nt = want.any()
    elif fn == 'kron':
        As = [spmat(r, max(a, 1), max(b, 1), 1, dt)[0] for a, b in c['shapes']]
        want = np.identity(1)
        for A in As:
            want = np.array([[want[i // A.shape[0], j // A.shape[1]] * A[i % A.shape[0], j % A.shape[1]] for j in range(want.shape[1] * A.shape[1])] for i in range(want.shape[0] * A.shape[0])])
        assert_close(T.kron(*As), want, 'kron')
        nt = len(As) > 1
    elif fn == 'nkron':
        A = spmat(r, 2, 2, 1, dt)[0]
        want = np.identity(1)
        for i in range(k):
            want = np.kron(want, A)
        assert_close(T.nkron(A, k), want, 'nkron')
    elif fn == 'perm':
        M = n + m if c['flag'] else None
        p = r.permutation(n + m if c['flag'] else n)[:n]
        src = c['flag2']
        if src:
            M = None   # source indices select from len(perm) columns
            p = r.permutation(n)
        if k % 2 and len(p):
            p = list(p)
        want = np.zeros((M or n, n))
        for j, q in enumerate(p):
            if src:
                want[j, q] = 1
            else:
                want[q, j] = 1
        got = T.perm_matrix(p, M=M, source_index=src, sparse=c['fmt'] != 'dense')
        require(sps.issparse(got) == (c['fmt'] != 'dense'), 'perm_matrix sparsity')
        assert_close(D(got), want, f'perm_matrix {p} M={M} source={src}', rtol=0)
        nt = n > 1
    elif fn == 'permaxis':
        shape = [max(1, b) for b in (m, n, k)]
        ax = c['seed'] % 3
        x = shaped(r, shape, dt, c['lay'])
        x0 = x.copy()
        p = r.permutation(shape[ax])
        want = np.take(x0, p, axis=ax)
        if c['flag']:
            out = x if c['flag2'] else np.empty_like(x0)
            T.permute_axis(x, ax, p, out=out)
            got = out
        else:
            got = T.permute_axis(x, ax, p)
        assert_close(got, want, 'permute_axis', rtol=0)
        if not (c['flag'] and c['flag2']):
            require(np.array_equal(x, x0), 'permute_axis: input modified')
        nt = shape[ax] > 1
    elif fn == 'drop':
        A, M = spmat(r, m, n, dens, dt, fmt)
        A0 = A.copy()
        got = T.drop_empty_rows(A if c['fmt'] == 'dense' else M)
        assert_close(D(got), A[A.any(axis=1)] if n else A[:0], 'drop_empty_rows', rtol=0)
        nt = A.any()
    elif fn == 'interleave':
        N = 1 + k % 4
        As = [spmat(r, max(m, 1), max(n, 1), dens, dt, fmt) for i in range(N)]
        want = np.zeros((max(m, 1) * N, max(n, 1) * N), dtype=As[0][0].dtype)
        for i, (A, M) in enumerate(As):
            want[i::N, i::N] = A
        got = T.interleave_matrices([M for A, M in As])
        assert_close(D(got), want, f'interleave_matrices of {N}', rtol=0)
        for A, M in As:
            require(np.array_equal(D(M), A), 'interleave_matrices: input modified')
        nt = N > 1 and want.any()
    elif fn in ('pattern', 'expand'):
        N = 1 + k % 3 if fn == 'pattern' else 2
        As = [spmat(r, max(m, 1), max(n, 1), dens, dt, fmt) for i in range(N)]
        got = T.zeros_with_pattern(*[M for A, M in As]) if fn == 'pattern' else T.expand_pattern(As[0][1], As[1][1])
        want = np.zeros_like(As[0][0]) if fn == 'pattern' else As[0][0]
        assert_close(D(got), want, fn, rtol=0)
        pat = np.zeros(got.shape, bool)
        g = got.tocoo()
        pat[g.row, g.col] = True
        require(np.array_equal(pat, np.logical_or.reduce([A != 0 for A, M in As])), f'{fn}: pattern is not the union of the patterns')
        for A, M in As:
            require(np.array_equal(D(M), A), f'{fn}: input modified')
        nt = pat.any()
    elif fn == 'add':
        A, M = spmat(r, max(m, 1), max(n, 1), dens, dt, fmt)
        B, N = spmat(r, max(m, 1), max(n, 1), dens, dt, fmt)
        s = [2, -1.5, 0, 1 + 2j][k % 4]
        I = np.eye(*A.shape)
        sel = c['seed'] % 4
        got, want = [(T.add_sparse(M, N), A + B), (T.add_sparse(s, N), s * I + B), (T.add_sparse(M, s), A + s * I), (T.add_sparse(s, 2.5), s + 2.5)][sel]
        if sel < 3:
            require(sps.issparse(got), 'add_sparse: sparse result expected')
        assert_close(D(got), want, 'add_sparse', rtol=1e-14)
        require(np.array_equal(D(M), A) and np.array_equal(D(N), B), 'add_sparse: input modified')
    elif fn in ('matvec', 'matvecs'):
        A, M = spmat(r, m, n, dens, dt, 'csr', dup=c['flag'])
        xs, ys = ((n,), (m,)) if fn == 'matvec' else ((n, k), (m, k))
        x, y = shaped(r, xs, dt, 'C'), shaped(r, ys, dt, 'C')
        x0, y0 = x.copy(), y.copy()
        f = T.csr_matvec if fn == 'matvec' else T.csr_matvecs
        if c['flag2'] and c['seed'] % 3 == 0:
            bad = x[:-1] if n else np.zeros((1,) + xs[1:], x.dtype)
            try:
                f(M, bad, y)
            except ValueError:
                return {'nontrivial': True, 'tags': [fn, 'shape mismatch']}
            raise Violation(f'{fn}: mismatched shapes accepted')
        got = f(M, x, y)
        require(got is y, f'{fn}: output identity')
        assert_close(y, y0 + A @ x0, fn, rtol=1e-13)
        require(np.array_equal(x, x0), f'{fn}: input modified')
        nt = m > 0 and n > 0
    elif fn == 'ivview':
        x = shaped(r, [b for b in (m, n, k)], 'c16', 'C' if c['flag'] else c['lay'])
        try:
            v = T.interleaved_view(x)
        except (ValueError, BufferError):
            require(not x.flags.c_contiguous, 'interleaved_view refuses a contiguous array')
            return {'nontrivial': True, 'tags': [fn, 'refused']}
        require(v.shape == x.shape + (2,), 'interleaved_view shape')
        assert_close(v[..., 0] + 1j * v[..., 1], x, f'interleaved_view of layout {c["lay"]}', rtol=0)
        if x.size:
            v[..., 1] = 7
            require(np.all(x.imag == 7), 'interleaved_view is not a view')
        nt = x.size > 1
    elif fn == 'reshape':
        dim = 1 + k
        ax = c['seed'] % dim - (dim if c['flag'] else 0)
        x = shaped(r, (n,), dt, c['lay'])
        v = T.reshape_vector(x, dim=dim, axis=ax)
        want = [1] * dim
        want[ax] = n
        require(v.shape == tuple(want), 'reshape_vector shape')
        assert_close(v.ravel(), x, 'reshape_vector', rtol=0)
    elif fn == 'axslice':
        shape = [max(1, b) for b in (m, n, k)]
        ax = c['seed'] % 3
        x = shaped(r, shape, dt, c['lay'])
        a, b, s = r.randint(-6, 6), r.randint(-6, 6), int(r.choice([1, 2, -1]))
        want = np.moveaxis(np.moveaxis(x, ax, 0)[a:b:s], 0, ax)
        assert_close(x[T.axslice(ax, a, b, s)], want, 'axslice', rtol=0)
        i = r.randint(shape[ax])
        assert_close(x[T.axindex(ax, i)], np.take(x, i, axis=ax), 'axindex', rtol=0)
        try:
            T.axindex(-1, 0)
        except ValueError:
            pass
        else:
            raise Violation('axindex accepts a negative axis')
    elif fn == 'move':
        shape = [max(1, b) for b in (m, n, k, 2)]
        x = shaped(r, shape, dt, c['lay'])
        a, b = r.randint(4), r.randint(4)
        assert_close(T.move_single_axis(x, a, b), np.moveaxis(x, a, b), f'move_single_axis {a} {b}', rtol=0)
        nt = a != b
    elif fn == 'copyto':
        x, y = shaped(r, (m, n), dt, c['lay']), shaped(r, (m, n), dt, 'C')
        T.copyto(x, y)
        assert_close(x, y, 'copyto', rtol=0)
    elif fn == 'lu':
        N = max(n, 1)
        mdt = 'f8' if c['flag'] else dt
        A = spmat(r, N, N, dens, mdt)[0] + 3 * np.eye(N)
        x = shaped(r, (N,) if c['flag2'] else (N, max(k, 1)), dt, 'C')
        x0 = x.copy()
        if np.linalg.cond(A) > 1e6:
            raise Skip('ill conditioned')
        op = T.splu_inverse(sps.csr_matrix(A))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if np.iscomplexobj(A) and not np.iscomplexobj(x):
                x0 = x = x.astype(complex)
            got = op @ x
        assert_close(got, np.linalg.solve(A, x0), 'splu_inverse', rtol=1e-9)
        require(np.array_equal(x, x0), 'splu_inverse: input modified')
    elif fn == 'allclose':
        A, M = spmat(r, max(m, 1), max(n, 1), dens, dt, fmt)
        require(T.sparse_allclose(M, sps.csr_matrix(A)), 'sparse_allclose denies equality')
        if A.any():
            B = A.copy()
            i, j = np.argwhere(A)[r.randint(np.count_nonzero(A))]
            B[i, j] = [0, B[i, j] + 1, -2 * B[i, j]][k % 3]
            require(not T.sparse_allclose(M, sps.csr_matrix(B)), 'sparse_allclose misses a difference')
            C = np.roll(A, 1, axis=1)
            if not np.allclose(C, A):
                require(not T.sparse_allclose(M, sps.csr_matrix(C)), 'sparse_allclose ignores the columns of entries')
    elif fn == 'pinv':
        N = max(n, 1)
        p = r.permutation(N)
        P = np.eye(N)[p][:r.randint(N + 1)] if not c['flag'] else np.eye(N)[p] * (r.uniform(size=N) > 0.4)
        A = sps.csr_matrix(P)
        T.assert_sparse_pinv(A, sps.csr_matrix(P.T))
        if P.any():
            B = P.T.copy()
            i, j = np.argwhere(B)[0]
            B[i, j] = 0 if k % 2 else 2
            try:
                T.assert_sparse_pinv(A, sps.csr_matrix(B))
            except AssertionError:
                pass
            else:
                raise Violation('assert_sparse_pinv accepts a wrong pseudoinverse')
    elif fn == 'recombine':
        # complex rotation (u_phi, u_theta) -> (u_-, u_+) on cos/msin pairs
        shape = (max(m, 1), 2 + k, max(n, 1), 2 * (1 + m % 3), 1 + n % 3)
        s = c['seed'] % (k + 1)
        x = shaped(r, shape, 'f8', 'C')
        x0 = x.copy()
        y = np.full_like(x, np.nan)
        SR.recombine_forward(s, x, y)
        require(np.array_equal(x, x0), 'recombine_forward: input modified')
        z = x0[..., 0::2, :] + 1j * x0[..., 1::2, :]
        w = y[..., 0::2, :] + 1j * y[..., 1::2, :]
        ph, th = z[:, s], z[:, s + 1]
        want = z.copy()
        want[:, s], want[:, s + 1] = (th - 1j * ph) / 2**0.5, (th + 1j * ph) / 2**0.5
        if not c['flag']:
            # spin ordering (-, +): unitary map with the documented matrix ((i, 1), (-i, 1)) / sqrt(2) up to the sign convention
            a, b = w[:, s], w[:, s + 1]
            require(np.allclose(np.abs(a)**2 + np.abs(b)**2, np.abs(ph)**2 + np.abs(th)**2), 'recombination is not unitary')
        for j in range(2 + k):
            if j not in (s, s + 1):
                assert_close(w[:, j], z[:, j], 'recombine_forward: other components', rtol=0)
        got = (w[:, s], w[:, s + 1])
        opts = [((th - 1j * ph) / 2**0.5, (th + 1j * ph) / 2**0.5)]
        assert_close(np.array(got), np.array(opts[0]), 'recombine_forward', rtol=1e-13)
        back = np.full_like(x, np.nan)
        SR.recombine_backward(s, y, back)
        assert_close(back, x0, 'recombine_backward inverts recombine_forward', rtol=1e-13)
    return {'nontrivial': bool(nt), 'tags': [fn, dt]}


def gen_case():
    return st.fixed_dictionaries({'fn': st.sampled_from(['oset', 'rev', 'sort', 'osc', 'unify', 'replace', 'defer', 'dtype', 'attrs']), 'xs': st.lists(st.integers(0, 6), max_size=8),
                                  'strs': st.lists(st.text('ab0123456789_', max_size=6), max_size=8), 'k': st.integers(0, 4), 'bits': st.lists(st.booleans(), max_size=8)})


def run_general(c):
    fn, xs = c['fn'], c['xs']
    if fn == 'oset':
        s = G.OrderedSet(xs[:4], xs[4:])
        seen = []
        for x in xs:
            if x not in seen:
                seen.append(x)
        require(list(s) == seen, 'OrderedSet order')
    elif fn == 'rev':
        require(list(G.rev_enumerate(xs)) == list(enumerate(xs))[::-1], 'rev_enumerate')
    elif fn == 'sort':
        import re
        names = [f'file_s{x}' for x in xs] + [f's{x}0_p{i}' for i, x in enumerate(xs)]
        got = G.natural_sort(names, reverse=c['k'] % 2 == 1)

        def order(a):
            return [int(t) if t.isdigit() else t for t in re.split('([0-9]+)', a)]
        require(got == sorted(names, key=order, reverse=c['k'] % 2 == 1), f'natural_sort of {names}')
    elif fn == 'osc':
        if len(xs) < 2 or not c['k']:
            return {'nontrivial': False}
        # forward then backward without repeating the ends
        want = []
        for i in range(c['k']):
            want += xs + xs[::-1][1:-1]
        require(list(G.oscillate(xs, max_passes=c['k'])) == want, 'oscillate')
    elif fn == 'unify':
        try:
            v = G.unify(xs) if xs else None
        except ValueError:
            require(len(set(xs)) > 1, 'unify refuses equal objects')
        else:
            require(len(set(xs)) <= 1 and (not xs or v == xs[0]), 'unify accepts different objects')
    elif fn == 'attrs':
        class A:
            pass
        objs = []
        for i, x in enumerate(xs):
            o = A()
            if i < len(c['bits']) and c['bits'][i]:
                o.v = x
            objs.append(o)
        have = [o.v for o in objs if hasattr(o, 'v')]
        if not have:
            return {'nontrivial': False}
        for req in (False, True):
            try:
                v = G.unify_attributes(objs, 'v', require=req)
            except (ValueError, AttributeError) as e:
                require((isinstance(e, AttributeError) and req and len(have) < len(objs)) or len(set(have)) > 1, f'unify_attributes refuses ({e!r})')
            else:
                require(len(set(have)) == 1 and v == have[0] and (not req or len(have) == len(objs)), 'unify_attributes accepts')
    elif fn == 'replace':
        require(list(G.replace(xs, c['bits'], 'r')) == ['r' if b else x for x, b in zip(xs, c['bits'])], 'replace')
    elif fn == 'defer':
        t = G.DeferredTuple(lambda i: xs[i], len(xs))
        require(len(t) == len(xs) and list(t) == xs, 'DeferredTuple iteration')
        for i in range(-len(xs), len(xs)):
            require(t[i] == xs[i], 'DeferredTuple index')
        try:
            t[len(xs)]
        except IndexError:
            pass
        else:
            raise Violation('DeferredTuple out of range')
    elif fn == 'dtype':
        for d in (np.float64, np.float32, np.complex128, np.complex64, np.dtype(float), np.dtype(complex), float, complex, int, np.int64):
            cplx = np.dtype(d).kind == 'c'
            require(G.is_complex_dtype(d) == cplx and G.is_real_dtype(d) == (not cplx), f'dtype predicates of {d}')
    return {'nontrivial': len(xs) > 1, 'tags': [fn]}


SUBS = [Sub('apply', apply_case, run_apply, 24000), Sub('sparse', misc_case, run_misc, 30000), Sub('general', gen_case, run_general, 3000)]
