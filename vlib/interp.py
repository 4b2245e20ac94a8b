"""Reference linear interpolation with honest handling of repeated abscissae."""
import numpy as np


class Curve:
    def __init__(self, x, y):
        x = np.asarray(x, float)
        y = np.asarray(y, float)
        ok = ~(np.isnan(x) | np.isnan(y))
        o = np.argsort(x[ok], kind="stable")
        self.x = x[ok][o]
        self.nan_x = x[np.isnan(y) & ~np.isnan(x)]
        self.y = y[ok][o]

    def bounds(self, q):
        """(lo, hi) of the values a linear interpolation may give at q; None = missing."""
        x, y = self.x, self.y
        if x.size == 0:
            return None
        eps = 1e-9 * max(1.0, abs(q))
        near = np.abs(x - q) <= eps
        vals = list(y[near])
        if q < x[0]:
            if vals:
                return min(vals), max(vals), True   # may be missing through rounding
            return None
        if q > x[-1]:
            vals += list(y[x == x[-1]])
            return min(vals), max(vals), False
        exact = x == q
        if exact.any():
            vals += list(y[exact])
            # a record without this reading sits at the same abscissa as the first reading
            return min(vals), max(vals), bool(q <= x[0] + eps and (np.abs(self.nan_x - q) <= eps).any())
        i = np.searchsorted(x, q, side="right")
        xl, xr = x[i - 1], x[i]
        w = (q - xl) / (xr - xl)
        for a in set(y[x == xl]):
            for b in set(y[x == xr]):
                vals.append(a + w * (b - a))
        return min(vals), max(vals), False


def agrees(curve, q, value, rel=1.5e-6, ab=1e-7):
    b = curve.bounds(q)
    v = float(value)
    if b is None:
        return bool(np.isnan(v))
    lo, hi, maybe_nan = b
    if np.isnan(v):
        return maybe_nan
    tol = ab + rel * max(abs(lo), abs(hi))
    return lo - tol <= v <= hi + tol
