"""P09: every solver returns an image inside the limits and zero outside of the solution mask."""

import numpy as np

from harness import solverlib as L
from harness.p08 import run
from vf.ctx import case

S = [("SIRT", "full", 2), ("SIRT", "zrow", 2), ("SART", "full", 1), ("MLEM", "full", 1), ("PDHG", "full", 2), ("PDHG", "neg", 2), ("FISTA", "full", 2), ("FISTA", "wide", 2)]


def limits(c, kind, n):
    lo = hi = None
    if kind in ("both", "low"):
        lo = c.real("lo", -1, 0)
    if kind in ("both", "up"):
        hi = c.real("hi", 0, 1)
    if kind == "array":
        lo, hi = c.array("lo", (n,), -1, 0), c.array("hi", (n,), 0, 1)
    return lo, hi


@case("P09", params=[dict(s=s, mat=m, n=n, lk=k) for s, m, n in S for k in ("both", "low", "up", "array")], budget=100)
def bounds(c, s, mat, n, lk):
    """Any data, start and limits (scalar or per pixel); 1-2 iterations."""
    M = L.matrix(mat)
    b = c.array("b", (M.shape[0],), 0.05 if s == "MLEM" else -2, 2)
    x0 = c.array("x0", (M.shape[1],), 0.05 if s == "MLEM" else -2, 2)
    lo, hi = limits(c, lk, M.shape[1])
    got, _ = run(c, s, M, b, n, x0, lower_limit=lo, upper_limit=hi)
    if lo is not None:
        c.le("lower", lo, got, tol=1e-6)
    if hi is not None:
        c.le("upper", got, hi, tol=1e-6)
    c.shape("shape", got, x0.shape)


@case("P09", params=[dict(s=s, start=x) for s in ("SIRT", "MLEM", "PDHG", "FISTA", "SART") for x in (False, True)], budget=100)
def support(c, s, start):
    """Outside of the solution mask the image is exactly zero, inside it is within the limits (1 iteration)."""
    M = L.matrix("wide")
    pos = s == "MLEM"
    b = c.array("b", (2,), 0.05 if pos else -2, 2)
    x0 = c.array("x0", (3,), 0.05 if pos else -2, 2) if start else None
    xm = c.boolarray("xm", (3,)).astype(np.float64)
    c.assume(xm.sum() >= 1)
    lo, hi = c.real("lo", -1, 0.5), c.real("hi", 0.5, 1)
    got, _ = run(c, s, M, b, 1, x0, x_mask=xm, lower_limit=lo, upper_limit=hi)
    c.close("outside", got * (1 - xm), 0.0, tol=0)
    c.le("lower", lo * xm, got, tol=1e-6)
    c.le("upper", got, hi * xm, tol=1e-6)


@case("P09", params=[dict(reg=r, s=s) for s, r in (("SIRT", "TV1D"), ("PDHG", "TV1D"), ("PDHG", "l1"), ("FISTA", "l1"), ("PDHG", "up"))])
def regularized_bounds(c, s, reg):
    """Limits and mask hold with regularizers too (1 iteration)."""
    from corrct import regularizers as rg

    M = L.matrix("three")
    b, x0 = c.array("b", (3,), -2, 2), c.array("x0", (3,), -2, 2)
    w = c.real("w", 0, 1)
    R = rg.Constraint_UpperLimit(w) if reg == "up" else getattr(rg, "Regularizer_" + reg)(w)
    xm = np.array([1.0, 0.0, 1.0])
    lo, hi = c.real("lo", -1, 0), c.real("hi", 0, 1)
    got, _ = run(c, s, M, b, 1, x0, x_mask=xm, lower_limit=lo, upper_limit=hi, regularizer=R)
    c.close("outside", got[1], 0.0, tol=0)
    c.le("lower", lo, got)
    c.le("upper", got, hi)


@case("P09", params=[dict(lk=k) for k in ("both", "array", "lower", "upper")])
def fbp(c, lk):
    """Filtered back-projection."""
    A = L.op(np.array([[1.0, 0.5], [0.25, 1.0], [0.5, 2.0], [1.0, 0.0]]), ps=(2, 2))
    b = c.array("b", (2, 2), -3, 3)
    lo, hi = limits(c, lk if lk == "array" else "both", 2)
    xm = c.boolarray("xm", (2,)).astype(np.float64)
    if lk in ("lower", "upper"):
        lo, hi = (lo, None) if lk == "lower" else (None, hi)
        got, _ = L.solver("FBP")(A, b, lower_limit=lo, upper_limit=hi)
        c.le("one", *((lo, got) if lk == "lower" else (got, hi)))
        return
    got, _ = L.solver("FBP")(A, b, lower_limit=lo, upper_limit=hi, x_mask=xm)
    c.close("outside", got * (1 - xm), 0.0, tol=0)
    c.le("lower", lo * xm, got)
    c.le("upper", got, hi * xm)
