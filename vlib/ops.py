"""Helpers shared by the operator checks."""
import numpy as np
from numbers import Number
from vlib.core import require, assert_close, Violation, Skip
from vlib import spaces as V


def disturb(f, state):
    """Put a field in a given scale and layout without changing its function (scales >= 1)."""
    sc, lay = state
    if sc:
        f.change_scales(sc if not isinstance(sc, list) else tuple(sc))
    if lay is not None:
        layouts = f.dist.layouts
        f.change_layout(layouts[lay % len(layouts)])


def evaluated(expr):
    """Evaluate an operand (may be a number or a plain field)."""
    if isinstance(expr, Number):
        return expr
    if hasattr(expr, 'evaluate'):
        return expr.evaluate()
    return expr


def snapshot(fields):
    out = []
    for f in fields:
        g = f.copy()
        g.change_scales(1)
        out.append(np.array(g['c']))
    return out


def unchanged(fields, snaps, what, rtol=1e-9):
    for f, s in zip(fields, snaps):
        g = f.copy()
        g.change_scales(1)
        assert_close(np.array(g['c']), s, f'{what}: operand changed', rtol=rtol, scale=max(1e-3, np.abs(s).max() if s.size else 1))


def grid_at(f, scales):
    f.change_scales(scales)
    return np.array(f['g'])
