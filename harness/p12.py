"""P12: book-keeping of the solvers: iterations, residual histories, stopping."""

import numpy as np

from harness import solverlib as L
from vf.ctx import case


def nrm(v):
    return np.sqrt((v * v).sum())


def res2(term, b, z, m):
    r = (b - z) * m
    return (r * r).sum()


def states(c, s, M, b, x0, n, bm):
    """Images after 0..n iterations, each from its own run."""
    return [x0] + [L.solver(s)(L.op(M), b, k, x0=x0, b_mask=bm)[0] for k in range(1, n + 1)]


@case("P12", params=[dict(s=s, m=m) for s in ("SIRT", "PDHG", "FISTA") for m in (False, True)], budget=100)
def residuals(c, s, m):
    """residual0 and residuals are the data-term norms (l2: squared) of the images they describe (2 iterations, never stopping)."""
    M = L.matrix("neg")
    b, x0 = c.array("b", (2,), -2, 2), c.array("x0", (2,), -2, 2)
    bm = np.array([1.0, 0.0]) if m else None
    mk = np.ones(2) if bm is None else bm
    got, info = L.solver(s, tolerance=-1.0)(L.op(M), b, 2, x0=x0, b_mask=bm)
    X = states(c, s, M, b, x0, 2, bm)
    c.close("image", got, X[2], tol=1e-4)
    c.check("iterations", info.iterations == 2)
    c.check("max_iterations", info.max_iterations == 2)
    c.shape("length", info.residuals, (2,))
    c.close("residual0", info.residual0, res2("l2", b, M @ x0, mk), tol=1e-3)
    seq = X[0:2] if s == "SIRT" else X[1:3]
    for i in range(2):
        c.close(f"residual{i + 1}", info.residuals[i], res2("l2", b, M @ seq[i], mk), tol=1e-3)


@case("P12", params=[dict(s=s) for s in ("SIRT", "PDHG", "FISTA")], budget=100)
def cross_validation(c, s):
    """The test residuals only count the test pixels, the others only the remaining ones (1 iteration)."""
    M = L.matrix("full")
    b, x0 = c.array("b", (3,), -2, 2), c.array("x0", (2,), -2, 2)
    t = np.array([0.0, 1.0, 0.0])
    got, info = L.solver(s)(L.op(M), b, 1, x0=x0, b_test_mask=t)
    ref = x0 if s == "SIRT" else got
    c.close("cv0", info.residual0_cv, res2("l2", b, M @ x0, t), tol=1e-3)
    c.close("res0", info.residual0, res2("l2", b, M @ x0, 1 - t), tol=1e-3)
    c.close("cv", info.residuals_cv[0], res2("l2", b, M @ ref, t), tol=1e-3)
    c.close("res", info.residuals[0], res2("l2", b, M @ ref, 1 - t), tol=1e-3)


@case("P12", params=[dict(s=s) for s in ("SIRT", "PDHG", "FISTA", "MLEM")], budget=100, paths=100)
def stopping(c, s):
    """The run stops at the first iteration whose residual is below the tolerance, and not before (2 iterations, any tolerance)."""
    M = np.array([[1.0]])
    pos = s == "MLEM"
    b, x0 = c.array("b", (1,), 0.5 if pos else -2, 2), c.array("x0", (1,), 0.5 if pos else -2, 2)
    tol = c.real("tol", 0.01, 4)
    from corrct import data_terms as dt

    got, info = L.solver(s, tolerance=tol, data_term=dt.DataFidelity_l2())(L.op(M), b, 2, x0=x0) if pos else L.solver(s, tolerance=tol)(L.op(M), b, 2, x0=x0)
    n = info.iterations
    c.check("range", 1 <= n <= 2)
    r = info.residuals
    if n == 1:
        c.check("reached", r[0] <= tol)
    else:
        c.check("not_before", r[0] >= tol)
    ndone = n if s in ("PDHG", "FISTA") else (n - 1 if bool(r[n - 1] < tol) else n)
    ref = x0 if ndone == 0 else (L.solver(s, data_term=dt.DataFidelity_l2()) if pos else L.solver(s))(L.op(M), b, ndone, x0=x0)[0]
    c.close("image", got, ref, tol=1e-4)


@case("P12", params=[dict(s=s) for s in ("SIRT", "PDHG", "FISTA", "MLEM")])
def zero_iterations(c, s):
    """Without iterations the start image is returned."""
    M = L.matrix("full")
    b, x0 = c.array("b", (3,), -2, 2), c.array("x0", (2,), -2, 2)
    got, info = L.solver(s)(L.op(M), b, 0, x0=x0)
    c.close("x0", got, x0, tol=0)
    c.check("iterations", info.iterations == 0)


@case("P12", params=[dict(s=s) for s in ("SIRT", "PDHG", "FISTA", "MLEM")])
def method_name(c, s):
    """The solution info names the method."""
    M = L.matrix("full")
    b = c.array("b", (3,), 0.5, 2)
    _, info = L.solver(s)(L.op(M), b, 1)
    c.check("named", info.method.startswith(s))
    c.check("tolerance", info.tolerance is None)
    c.close("untracked", info.residuals, 0.0)


@case("P12", params=[dict(t=t, bg=g) for t in ("l2", "wl2", "l1", "kl", "huber") for g in (None, 0, 1, 2)])
def names(c, t, bg):
    """Data terms have names for any kind of background, and solutions of solvers with backgrounds are computed."""
    from corrct import data_terms as dt

    k = dict(l2=dt.DataFidelity_l2, wl2=lambda **k: dt.DataFidelity_wl2(np.ones(2), **k), l1=dt.DataFidelity_l1, kl=dt.DataFidelity_KL, huber=lambda **k: dt.DataFidelity_Huber(0.5, **k))[t]
    g = None if bg is None else c.real("g", 0, 1) if bg == 0 else c.array("g", (bg,), 0, 1)
    d = k() if g is None else k(background=g)
    c.check("name", d.info()[:1].lower() == d.lower()[:1])
    c.check("cases", d.upper() == d.lower().upper() and d.lower() == d.upper().lower())
    c.check("background", ("B:" in d.info()) == (g is not None))


@case("P12", params=[dict(s=s, bg=g, same=t) for s in ("SIRT", "PDHG", "FISTA", "MLEM") for g, t in ((0, True), (1, False), (3, True), (3, False))], budget=60)
def background_residuals(c, s, bg, same):
    """With a background (one value or one per pixel), training and test residuals include it, also when the test term does not have it."""
    from corrct import data_terms as dt

    M = L.matrix("full")
    g = c.real("g", 0.1, 1) if bg == 0 else c.array("g", (bg,), 0.1, 1)
    b, x0 = c.array("b", (3,), 0.5, 2), c.array("x0", (2,), 0.25, 2)
    t = np.array([0.0, 1.0, 0.0])
    test = dt.DataFidelity_l2(background=g) if same else dt.DataFidelity_l2()
    got, info = L.solver(s, tolerance=-1.0, data_term=dt.DataFidelity_l2(background=g), data_term_test=test)(L.op(M), b, 1, x0=x0, b_test_mask=t)
    r = M @ x0 + g - b
    c.close("cv0", info.residual0_cv, r[1] * r[1], tol=1e-3)
    c.close("res0", info.residual0, r[0] * r[0] + r[2] * r[2], tol=1e-3)
    c.check("name", "B:" in info.method)


@case("P12", params=[dict(m=m) for m in (False, True)], budget=60)
def sart_residuals(c, m):
    """SART (2 angles, 2 detector pixels, 2 image columns): residual norms of start and result, any order."""
    M = np.array([[[1.0, 0.5], [0.0, 1.0]], [[0.5, 1.0], [1.0, 0.25]]])
    A = lambda x, i: M[i] @ x  # noqa: E731
    At = lambda y, i: M[i].T @ y  # noqa: E731
    b, x0 = c.array("b", (2, 2), -2, 2), c.array("x0", (2,), -2, 2)
    bm = np.array([[1.0, 0.0], [1.0, 1.0]]) if m else None
    w = np.ones((2, 2)) if bm is None else bm
    with L.fixed_order(L.order(c, 2)):
        got, info = L.solver("SART", tolerance=-1.0)(A, b, 1, A_num_rows=2, At=At, x0=x0, b_mask=bm)
    f = lambda x: (np.stack([M[0] @ x, M[1] @ x]) - b) * w  # noqa: E731
    c.close("residual0", info.residual0 * info.residual0, (f(x0) * f(x0)).sum(), tol=1e-3)
    c.close("residual", info.residuals[0] * info.residuals[0], (f(got) * f(got)).sum(), tol=1e-3)


@case("P12", params=[dict(m=m) for m in (False, True)], budget=60)
def sart_residuals_3d(c, m):
    """SART of volumes (2 angles, 2 x 1 pixels, 2 x 1 x 1 voxels): residual norms of start and result, any order."""
    M = np.array([[[1.0, 0.5], [0.25, 1.0]], [[0.5, 1.0], [1.0, 0.25]]])
    A = lambda x, i: (M[i] @ x.reshape(2)).reshape(2, 1)  # noqa: E731
    At = lambda y, i: (M[i].T @ y.reshape(2)).reshape(2, 1)  # noqa: E731
    b, x0 = c.array("b", (2, 2, 1), -2, 2), c.array("x0", (2, 1), -2, 2)
    bm = np.array([[[1.0], [0.0]], [[1.0], [1.0]]]) if m else None
    w = np.ones((2, 2, 1)) if bm is None else bm
    with L.fixed_order(L.order(c, 2)):
        got, info = L.solver("SART", tolerance=-1.0)(A, b, 1, A_num_rows=2, At=At, x0=x0, b_mask=bm)
    f = lambda x: (np.stack([A(x, 0), A(x, 1)], axis=1) - b) * w  # noqa: E731
    c.shape("shape", got, (2, 1))
    c.close("residual0", info.residual0 * info.residual0, (f(x0) * f(x0)).sum(), tol=1e-3)
    c.close("residual", info.residuals[0] * info.residuals[0], (f(got) * f(got)).sum(), tol=1e-3)


@case("P12", budget=60)
def sart_stopping(c):
    """SART stops at the first iteration whose residual is below the tolerance, and not before, reporting as many residuals as iterations; its image is that of as many iterations without tolerance (1 angle, 1 pixel, up to 3 iterations, any tolerance)."""
    A = lambda x, i: x * 1.0  # noqa: E731
    At = lambda y, i: y * 1.0  # noqa: E731
    b, x0 = c.array("b", (1, 1), -2, 2), c.array("x0", (1,), -2, 2)
    tol = c.real("tol", 0.01, 4)
    run = lambda n, **k: L.solver("SART", relaxation=0.5, **k)(A, b, n, A_num_rows=1, At=At, x0=x0)  # noqa: E731
    with L.fixed_order([0]):
        got, info = run(3, tolerance=tol)
        n = info.iterations
        c.check("range", 1 <= n <= 3)
        r = info.residuals
        c.close("residual", r[n - 1] * r[n - 1], ((got - b[0]) ** 2).sum(), tol=1e-3)
        if n < 3:
            c.check("reached", r[n - 1] <= tol)
        for i in range(n - 1):
            c.check(f"not_before_{i}", r[i] >= tol)
        c.close("image", got, run(n)[0], tol=1e-4)


@case("P12")
def relative(c):
    """Relative residuals are the ratios to the initial ones."""
    from corrct.solvers import SolutionInfo

    i = SolutionInfo("m", max_iterations=3, tolerance=None, residual0=c.real("r0", 0.5, 2), residual0_cv=c.real("c0", 0.5, 2))
    r, v = c.array("r", (3,), 0, 2), c.array("v", (3,), 0, 2)
    i.residuals[:] = r
    i.residuals_cv[:] = v
    c.close("rel", i.residuals_rel * i.residual0, r)
    c.close("rel_cv", i.residuals_cv_rel * i.residual0_cv, v)
