"""P10: masked data cannot influence a reconstruction; arguments are left alone; solvers can be re-used."""

import numpy as np

from harness import solverlib as L
from harness.p08 import run
from vf.ctx import case

SOL = ["SIRT", "MLEM", "PDHG", "FISTA", "SART"]


def data(c, s, M, name="b"):
    return c.array(name, (M.shape[0],), 0.1 if s == "MLEM" else -2, 2)


def start(c, s, M):
    return c.array("x0", (M.shape[1],), 0.25 if s == "MLEM" else -2, 2)


@case("P10", params=[dict(s=s, mat=m, n=n) for s, m, n in (("SIRT", "full", 1), ("SIRT", "three", 1), ("MLEM", "full", 1), ("PDHG", "full", 1), ("FISTA", "full", 1), ("SART", "full", 1))], budget=110)
def masked(c, s, mat, n):
    """Two data sets that differ only where the data mask is zero give the same image (binary masks, any start)."""
    M = L.matrix(mat)
    b, d = data(c, s, M), data(c, s, M, "d")
    bm = c.boolarray("bm", (M.shape[0],)).astype(np.float64)
    c.assume(bm.sum() >= 1)
    x0 = start(c, s, M)
    if s == "SART":
        perm = L.order(c, M.shape[0])
        A = lambda x, i: (M[i] * x).sum(keepdims=True)  # noqa: E731
        At = lambda y, i: M[i] * y[0]  # noqa: E731
        with L.fixed_order(perm):
            f = lambda v: L.solver("SART")(A, v[:, None], n, A_num_rows=M.shape[0], At=At, x0=x0, b_mask=bm[:, None])[0]  # noqa: E731
            g1, g2 = f(b), f(bm * b + (1 - bm) * d)
    else:
        g1, _ = run(c, s, M, b, n, x0, b_mask=bm)
        g2, _ = run(c, s, M, bm * b + (1 - bm) * d, n, x0, b_mask=bm)
    c.close("same_image", g1, g2, tol=1e-4)


@case("P10", params=[dict(s=s, term=t, n=n, pos=p) for s, t, n, p in (("PDHG", "l2", 2, 0), ("PDHG", "l1", 2, 1), ("PDHG", "kl", 1, 2), ("PDHG", "huber", 1, 0), ("SIRT", "l2", 3, 1), ("SIRT", "kl", 1, 0), ("FISTA", "l2", 3, 2), ("MLEM", "kl", 2, 0), ("MLEM", "kl", 2, 2))], budget=90)
def masked_fixed(c, s, term, n, pos):
    """The same for one masked detector pixel, several data terms and iterations."""
    from corrct import data_terms as dt

    M = L.matrix("full")
    T = dict(l2=dt.DataFidelity_l2, l1=dt.DataFidelity_l1, kl=dt.DataFidelity_KL, huber=lambda: dt.DataFidelity_Huber(0.5))[term]()
    b = c.array("b", (3,), 0.1 if term == "kl" else -2, 2)
    if s == "MLEM":
        b = np.array([0.5, 1.0, 1.5])
    b1, b2 = b.copy(), b.copy()
    e = np.eye(3)[pos]
    b1, b2 = b * (1 - e) + c.real("j1", 0.1, 5) * e, b * (1 - e) + c.real("j2", 0.1, 5) * e
    bm = 1 - e
    g1, _ = run(c, s, M, b1, n, None, b_mask=bm, data_term=T)
    g2, _ = run(c, s, M, b2, n, None, b_mask=bm, data_term=T)
    c.close("same_image", g1, g2, tol=1e-4)


@case("P10", params=[dict(s=s, pos=p) for s in ("SIRT", "MLEM", "PDHG", "FISTA") for p in (0, 2)], budget=90)
def test_set(c, s, pos):
    """Pixels of the cross-validation set do not influence the image, and behave as masked out."""
    M = L.matrix("full")
    b = data(c, s, M)
    e = np.eye(3)[pos]
    b2 = b * (1 - e) + c.real("j", 0.1, 5) * e
    x0 = start(c, s, M)
    g1, i1 = run(c, s, M, b, 1, x0, b_test_mask=e)
    g2, i2 = run(c, s, M, b2, 1, x0, b_test_mask=e)
    g3, _ = run(c, s, M, b2, 1, x0, b_mask=1 - e)
    c.close("same_image", g1, g2, tol=1e-4)
    c.close("as_masked", g1, g3, tol=1e-4)


@case("P10", params=[dict(s=s) for s in SOL], budget=90)
def arguments(c, s):
    """Data, start, limits and masks are not modified, and the result is not the start array."""
    M = L.matrix("full")
    b, x0 = data(c, s, M), start(c, s, M)
    lo, hi = c.array("lo", (2,), -1, 0), c.array("hi", (2,), 1, 2)
    bm, xm = np.array([1.0, 0.0, 1.0]), np.array([1.0, 0.0])
    k0 = [v.copy() for v in (b, x0, lo, hi, bm, xm)]
    got, _ = run(c, s, M, b, 1, x0, lower_limit=lo, upper_limit=hi, b_mask=bm, x_mask=xm)
    for n, v, w in zip(("b", "x0", "lo", "hi", "bm", "xm"), (b, x0, lo, hi, bm, xm), k0):
        c.close(n, v, w, tol=0)
    got[...] = 7.0
    c.close("no_alias", x0, k0[1], tol=0)


@case("P10", params=[dict(s=s, reg=r) for s, r in (("SIRT", None), ("SIRT", "TV1D"), ("PDHG", None), ("PDHG", "TV1D"), ("FISTA", None), ("FISTA", "l1"), ("MLEM", None))], budget=90)
def reuse(c, s, reg):
    """A solver object has no memory: after another reconstruction (other data, mask, size) it gives the same image."""
    from corrct import regularizers as rg

    M = L.matrix("three")
    b = c.array("b", (3,), 0.1 if s == "MLEM" else -1, 2)
    mk = lambda: L.solver(s, **({"regularizer": getattr(rg, "Regularizer_" + reg)(0.5)} if reg else {}))  # noqa: E731
    A = L.op(M)
    ref, _ = mk()(A, b, 1)
    sol = mk()
    sol(L.op("full"), np.array([1.0, 2.0, 3.0]), 2, b_mask=np.array([1.0, 0.0, 1.0]), b_test_mask=np.array([0.0, 0.0, 1.0]), x_mask=np.array([1.0, 0.0]), upper_limit=0.5)
    got, _ = sol(A, b, 1)
    c.close("same_image", got, ref, tol=1e-4)


@case("P10")
def mask_split(c):
    """Test pixels are removed from the data mask, and masked pixels from the test set."""
    from corrct.solvers import Solver

    b = np.zeros(3)
    bm, bt = c.boolarray("bm", (3,)).astype(np.float64), c.boolarray("bt", (3,)).astype(np.float64)
    m, t = Solver._initialize_b_masks(b, bm, bt)
    c.close("data", m, bm * (1 - bt))
    c.close("test", t, bm * bt)
    m, t = Solver._initialize_b_masks(b, None, bt)
    c.close("data2", m, 1 - bt)
    c.close("test2", t, bt)
    m, t = Solver._initialize_b_masks(b, bm, None)
    c.close("data3", m, bm)
    c.check("test3", t is None)
