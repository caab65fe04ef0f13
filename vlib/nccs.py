"""Coefficient fields: masks with headroom and smooth radial tensors."""
import numpy as np
from vlib import spaces as V
import dedalus.core.basis as dbasis


def shift_mask(f, budget):
    """Valid modes with `budget` headroom along every polynomial or coupled direction."""
    f.require_coeff_space()
    m = V.valid_mask(f)
    rank = len(f.tensorsig)
    if not any(budget):
        return m
    groups = f.layout.local_group_arrays(f.domain, 1)
    lead = (slice(None),) * rank
    for basis in f.domain.bases:
        ax = f.dist.get_basis_axis(basis)
        for sub in range(basis.dim):
            b = budget[ax + sub]
            if not b:
                continue
            a = rank + ax + sub
            g = np.ma.getdata(groups[ax + sub])
            last = sub == basis.dim - 1
            if isinstance(basis, (dbasis.RealFourier, dbasis.ComplexFourier)):
                K = (basis.size - 1) // 2
                m[lead + (np.abs(g) > K - b,)] = False
            elif isinstance(basis, dbasis.SphereBasis) and sub == 1:
                L = basis.Lmax
                m[lead + (g > L - b,)] = False
            elif sub == basis.dim - 1:
                n = m.shape[a]
                keep = np.zeros_like(m)
                if b < n:
                    sl = [slice(None)] * m.ndim
                    s2 = [slice(None)] * m.ndim
                    sl[a], s2[a] = slice(0, n - b), slice(b, n)
                    keep[tuple(sl)] = m[tuple(s2)]
                m &= keep
    return m


def low_mask(f, q):
    """Lowest q modes along every direction."""
    m = V.valid_mask(f)
    rank = len(f.tensorsig)
    groups = f.layout.local_group_arrays(f.domain, 1)
    lead = (slice(None),) * rank
    for basis in f.domain.bases:
        ax = f.dist.get_basis_axis(basis)
        for sub in range(basis.dim):
            g = np.abs(np.ma.getdata(groups[ax + sub]))
            m[lead + (g > q[ax + sub],)] = False
    return m


def radial_ncc(f, rank, basis, q, r):
    """Isotropic radial tensor: h(r) e_r, or f(r) I + g(r) e_r e_r + h(r) eps.e_r, polynomial of low degree."""
    f.change_scales(1)
    f['g']
    R = basis.global_grid(f.dist, 1).ravel()[f.layout.local_elements(f.domain, f.scales)[2]].reshape(1, 1, -1)
    ball = isinstance(basis, dbasis.BallRadialBasis)
    def poly(parity):
        if ball:
            return R**parity * np.polynomial.polynomial.polyval(R**2, r.standard_normal(q + 1))
        return np.polynomial.polynomial.polyval(R, r.standard_normal(q + 1))
    f['g'] = 0
    if rank == 0:
        f['g'] = poly(0)
    elif rank == 1:
        f['g'][2] = poly(1)
    else:
        iso, dev, anti = poly(0), poly(2), poly(1)
        for i in range(3):
            f['g'][i, i] = iso
        f['g'][2, 2] += dev
        f['g'][0, 1] = anti
        f['g'][1, 0] = -anti
