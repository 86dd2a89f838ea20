"""P08: a solution of the problem is a fixed point of every solver."""

import numpy as np

from harness import solverlib as L
from vf.ctx import case

ITER = ["SIRT", "SART", "MLEM", "PDHG", "FISTA"]


def run(c, name, M, b, n, x0, relax=None, **k):
    sk = {q: k.pop(q) for q in ("data_term", "regularizer") if q in k}
    if relax is not None and name != "MLEM":
        sk["relaxation"] = relax
    if name == "SART":
        A = lambda x, i: (M[i] * x).sum(keepdims=True)  # noqa: E731
        At = lambda y, i: M[i] * y[0]  # noqa: E731
        if k.get("b_mask") is not None:
            k["b_mask"] = k["b_mask"][:, None]
        with L.fixed_order(L.order(c, M.shape[0])):
            return L.solver(name, **sk)(A, b[:, None], n, A_num_rows=M.shape[0], At=At, x0=x0, **k)
    return L.solver(name, **sk)(L.op(M), b, n, x0=x0, **k)


MP = [("SIRT", "full"), ("SIRT", "zrow"), ("SIRT", "zcol"), ("SIRT", "neg"), ("SART", "full"), ("SART", "zrow"), ("MLEM", "full"), ("MLEM", "wide"), ("PDHG", "full"),
      ("PDHG", "zrow"), ("PDHG", "neg"), ("PDHG", "zcol"), ("FISTA", "full"), ("FISTA", "neg"), ("FISTA", "zcol")]


@case("P08", params=[dict(s=s, mat=m) for s, m in MP], thorough_params=[dict(s=s, mat="three", n=4) for s in ITER if s != "SART"], budget=90)
def consistent(c, s, mat, n=2):
    """b = A x: starting at x, 2 iterations (4 in the thorough tier) with any relaxation and limits that contain x return x."""
    M = L.matrix(mat)
    x = c.array("x", (M.shape[1],), 0.25 if s == "MLEM" else -1, 2)
    relax = c.real("relax", 0.1, 1.95) if s in ("SIRT", "SART") else None
    got, info = run(c, s, M, M @ x, n if s not in ("SART", "MLEM") else 1, x, relax, lower_limit=c.real("lo", -3, -1) if s != "MLEM" else 0.0, upper_limit=c.real("hi", 2, 4))
    c.close("fixed_point", got, x, tol=1e-4)
    c.check("iterations", info.iterations >= 1)


@case("P08", params=[dict(s=s, term=t) for s, t in (("SIRT", "bg"), ("PDHG", "bg"), ("MLEM", "bg"), ("FISTA", "bg"), ("PDHG", "l1"), ("PDHG", "kl"), ("SIRT", "kl"), ("PDHG", "wl2"), ("SIRT", "wl2"),
      ("PDHG", "huber"), ("PDHG", "l1b"), ("PDHG", "l2b"), ("SIRT", "l2b"))], budget=90)
def consistent_terms(c, s, term):
    """The same with backgrounds and other data terms (1 iteration)."""
    from corrct import data_terms as dt

    M = L.matrix("full")
    pos = s == "MLEM" or term == "kl"
    x = c.array("x", (2,), 0.5 if pos else -1, 2)
    bg = c.real("bg", 0, 1) if term == "bg" else None
    T = dict(bg=lambda: (dt.DataFidelity_KL if s == "MLEM" else dt.DataFidelity_l2)(background=bg), l1=dt.DataFidelity_l1, kl=dt.DataFidelity_KL,
             wl2=lambda: dt.DataFidelity_wl2(c.array("w", (3,), 0.25, 2)), huber=lambda: dt.DataFidelity_Huber(0.5), l1b=lambda: dt.DataFidelity_l1b(0.25), l2b=lambda: dt.DataFidelity_l2b(0.25))[term]()
    b = M @ x + (bg if bg is not None else 0.0)
    got, _ = run(c, s, M, b, 1, x, data_term=T)
    if term == "kl" and s == "PDHG":
        # from a zero dual the first KL step is not stationary: only the data-side dual is checked elsewhere
        c.finite("finite", got)
        return
    c.close("fixed_point", got, x, tol=1e-3)


@case("P08", params=[dict(s=s) for s in ("SIRT", "MLEM", "PDHG", "FISTA")], budget=90)
def masked_data(c, s):
    """Only the data in the mask has to be consistent (1 iteration)."""
    M = L.matrix("full")
    x = c.array("x", (2,), 0.5 if s == "MLEM" else -1, 2)
    bm = c.boolarray("bm", (3,)).astype(np.float64)
    c.assume(bm.sum() >= 1)
    junk = c.array("junk", (3,), 0.1, 3)
    got, _ = run(c, s, M, bm * (M @ x) + (1 - bm) * junk, 1, x, b_mask=bm)
    if s == "MLEM":
        see = (M.T @ bm) > 1e-4
        c.close("fixed_point", np.where(see, got, x), x, tol=1e-3)
    else:
        c.close("fixed_point", got, x, tol=1e-4)


@case("P08", params=[dict(s=s, reg=r) for s, r in (("SIRT", "TV1D"), ("PDHG", "TV1D"), ("PDHG", "smooth1D"), ("SIRT", "lap1D"), ("PDHG", "lap1D"))])
def regularized_constant(c, s, reg):
    """A constant image that explains the data is also a fixed point with derivative regularizers (2 iterations)."""
    from corrct import regularizers as rg

    M = L.matrix("three")
    v = c.real("v", -2, 2)
    x = v * np.ones(3)
    R = getattr(rg, "Regularizer_" + reg)(c.real("w", 0, 2))
    got, _ = run(c, s, M, M @ x, 2, x, regularizer=R)
    c.close("fixed_point", got, x, tol=1e-4)


@case("P08", params=[dict(s=s, side=d) for s in ("SIRT", "PDHG", "FISTA") for d in ("low", "up")])
def constraint_feasible(c, s, side):
    """A feasible consistent image is a fixed point with limit constraints (2 iterations)."""
    from corrct import regularizers as rg

    M = L.matrix("full")
    x = c.array("x", (2,), -1, 1)
    R = rg.Constraint_LowerLimit(c.real("lim", -3, -1)) if side == "low" else rg.Constraint_UpperLimit(c.real("lim", 1, 3))
    got, _ = run(c, s, M, M @ x, 2, x, regularizer=R)
    c.close("fixed_point", got, x, tol=1e-4)


@case("P08", params=[dict(mat=m) for m in ("full", "wide", "zcol")])
def mlem_counts(c, mat):
    """MLEM preserves the total counts: after one update sum(A x) == sum(b), x stays non-negative."""
    M = L.matrix(mat)
    b, x0 = c.array("b", (M.shape[0],), 0, 3), c.array("x0", (M.shape[1],), 0.25, 2)
    got, _ = run(c, "MLEM", M, b, 1, x0)
    c.close("counts", (M @ got).sum(), b.sum(), tol=1e-3)
    c.le("non_negative", -got, 0.0)


@case("P08", params=[dict(mat=m) for m in ("full", "neg")])
def sirt_descends(c, mat):
    """One SIRT step (relaxation <= 1) never increases the S-weighted residual."""
    M = L.matrix(mat)
    R = M.shape[0]
    r = c.array("r", (R,), -1, 1)
    x0 = np.zeros(M.shape[1])
    got, _ = run(c, "SIRT", M, r, 1, x0, 1.0)
    _, sig = L.scalings(M)
    after = r - M @ got
    c.le("weighted_residual", (sig * after * after).sum(), (sig * r * r).sum(), tol=1e-4)
