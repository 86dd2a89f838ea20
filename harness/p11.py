"""P11: solver iterations follow the published algorithms (independent references)."""

import numpy as np

from harness import solverlib as L
from harness.p06 import clip, soft
from vf.ctx import case


def masks(c, M, mode):
    bm = c.boolarray("bm", (M.shape[0],)).astype(np.float64) if "b" in mode else None
    xm = c.boolarray("xm", (M.shape[1],)).astype(np.float64) if "x" in mode else None
    if bm is not None:
        c.assume(bm.sum() >= 1)
    if xm is not None:
        c.assume(xm.sum() >= 1)
    return bm, xm


def mm(bm, v):
    return v if bm is None else v * bm


def setup(c, mat, mode, blo=-2, bhi=2, xlo=-2, xhi=2):
    M = L.matrix(mat)
    b = c.array("b", (M.shape[0],), blo, bhi)
    x0 = c.array("x0", (M.shape[1],), xlo, xhi) if "0" in mode else None
    bm, xm = masks(c, M, mode)
    lo = c.real("lo", -1, 0) if "l" in mode else None
    hi = c.real("hi", 0.25, 1) if "u" in mode else None
    return M, b, x0, bm, xm, lo, hi


@case("P11", params=[dict(mat=m, mode=o, n=n) for m, o, n in (("full", "", 2), ("full", "0lu", 2), ("neg", "0", 2), ("zrow", "", 2), ("zcol", "0", 1),
      ("full", "b", 1), ("wide", "x", 1), ("three", "0bx", 1))], thorough_params=[dict(mat=m, mode=o, n=n) for m, o, n in (("full", "", 4), ("three", "0bxlu", 2), ("wide", "0bl", 3))], paths=600, budget=100)
def sirt(c, mat, mode, n):
    """x <- P(x + T A^T S (b - A x)), T and S the inverse absolute column and row sums; 1-4 iterations."""
    M, b, x0, bm, xm, lo, hi = setup(c, mat, mode)
    r = c.real("relax", 0.1, 1.95) if n == 1 else 1.5
    got, info = L.solver("SIRT", relaxation=r)(L.op(M), b, n, x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm)
    tau, sig = L.scalings(M, bm, xm, rt=r)
    x = np.zeros(M.shape[1]) if x0 is None else x0
    for _ in range(n):
        x = L.clamp(x + tau * (M.T @ (sig * mm(bm, b - M @ x))), lo, hi, xm)
    c.close("x", got, x, tol=1e-4)
    c.check("iterations", info.iterations == n)


@case("P11", params=[dict(kind=k) for k in ("background", "l2b", "wl2")])
def sirt_terms(c, kind):
    """SIRT with other quadratic data terms (2 iterations)."""
    from corrct import data_terms as dt

    M, b, x0, bm, xm, lo, hi = setup(c, "full", "0")
    if kind == "background":
        bg = c.real("bg", -1, 1)
        t = dt.DataFidelity_l2(background=bg)
        f = lambda r: r - bg  # noqa: E731
    elif kind == "l2b":
        e = c.real("e", 0, 1)
        t = dt.DataFidelity_l2b(e)
        f = lambda r: soft(r, np.sqrt(e))  # noqa: E731
    else:
        w = c.array("w", (3,), 0.25, 2)
        t = dt.DataFidelity_wl2(w)
        f = lambda r: r * w  # noqa: E731
    got, _ = L.solver("SIRT", relaxation=1.0, data_term=t)(L.op(M), b, 1, x0=x0)
    tau, sig = L.scalings(M)
    x = x0
    x = x + tau * (M.T @ (sig * f(b - M @ x)))
    c.close("x", got, x, tol=1e-4)


def tv_matrix(n):
    D = np.zeros((n, n))
    for i in range(n - 1):
        D[i, i], D[i, i + 1] = -1, 1
    # the divergence of the package with edge padding
    Dt = np.zeros((n, n))
    for j in range(n):
        if j > 0:
            Dt[j, j] -= 1
            Dt[j, j - 1] += 1
    return D, Dt


@case("P11", params=[dict(reg=r) for r in ("l1", "TV1D", "low")], paths=400, budget=90)
def sirt_regularized(c, reg):
    """SIRT subtracts each regularizer's primal update, computed from a fresh dual (1 iteration)."""
    from corrct import regularizers as rg

    M = L.matrix("three")
    b, x0 = c.array("b", (3,), -2, 2), c.array("x0", (3,), -2, 2)
    w = c.real("w", 0.1, 1)
    if reg == "l1":
        R, extra, u = rg.Regularizer_l1(w), 1.0, clip(x0, w)
    elif reg == "low":
        R, extra = rg.Constraint_LowerLimit(w), 1.0
        u = np.minimum(x0 - w, 0) / 2
    else:
        R, extra = rg.Regularizer_TV1D(w), 2.0
        D, Dt = tv_matrix(3)
        u = Dt @ clip(0.5 * (D @ x0), w)
    got, _ = L.solver("SIRT", relaxation=1.0, regularizer=R)(L.op(M), b, 1, x0=x0)
    tau, sig = L.scalings(M, extra=extra)
    c.close("x", got, x0 + tau * (M.T @ (sig * (b - M @ x0)) - u), tol=1e-4)


@case("P11", params=[dict(mat=m, mode=o, n=n) for m, o, n in (("full", "", 1), ("full", "0lu", 1), ("zrow", "0", 1), ("neg", "0", 2), ("full", "b0", 1), ("full", "x0", 1))], paths=800, budget=100)
def sart(c, mat, mode, n):
    """Row action: x <- P(x + relax * a_i (b_i - a_i x) / (|a_i|_1 |a_ij|)), any row order; 1-2 sweeps."""
    M, b, x0, bm, xm, lo, hi = setup(c, mat, mode)
    R = M.shape[0]
    A = lambda x, i: (M[i] * x).sum(keepdims=True)  # noqa: E731
    At = lambda y, i: M[i] * y[0]  # noqa: E731
    perm = L.order(c, R)
    relax = c.real("relax", 0.25, 1.5) if n == 1 else 1.0
    with L.fixed_order(perm):
        got, info = L.solver("SART", relaxation=relax)(
            A, b[:, None], n, A_num_rows=R, At=At, x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=None if bm is None else bm[:, None])
    bo = np.ones(R) if bm is None else bm
    tau = relax / L.nz(np.abs(M * bo[:, None]))
    sig = 1 / L.nz(np.abs(M @ (np.ones(M.shape[1]) if xm is None else xm)))
    x = np.zeros(M.shape[1]) if x0 is None else x0
    for _ in range(n):
        for i in perm:
            r = ((M[i] * x).sum() - b[i]) * bo[i]
            x = L.clamp(x - M[i] * (r * sig[i]) * tau[i], lo, hi, xm)
    c.close("x", got, x, tol=1e-4)
    c.check("iterations", info.iterations == n)


@case("P11", params=[dict(mat=m, mode=o) for m, o in (("full", ""), ("full", "0"), ("wide", "0"), ("zcol", "0"), ("full", "b0"), ("wide", "x0"), ("full", "u0"))], budget=100)
def mlem(c, mat, mode):
    """x <- x / (A^T m) * A^T (m b / (A x)) for positive images and data (1 iteration)."""
    M, b, x0, bm, xm, lo, hi = setup(c, mat, mode, 0.1, 2, 0.25, 2)
    got, info = L.solver("MLEM")(L.op(M), b, 1, x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm)
    bo = np.ones(M.shape[0]) if bm is None else bm
    x = np.ones(M.shape[1]) if x0 is None else x0
    if xm is not None:
        x = x * xm
    ax = np.maximum(M @ x, 1e-7)
    ref = L.clamp(x * (M.T @ (bo * b / ax)) / L.nz(M.T @ bo), lo, hi, xm)
    c.finite("finite", got)
    c.close("x", got, ref, tol=1e-3)
    c.check("iterations", info.iterations == 1)


@case("P11")
def mlem_background(c):
    """The background enters the expected counts."""
    from corrct import data_terms as dt

    M = L.matrix("full")
    b, x0, bg = c.array("b", (3,), 0.1, 2), c.array("x0", (2,), 0.25, 2), c.real("bg", 0, 1)
    got, _ = L.solver("MLEM", data_term=dt.DataFidelity_KL(background=bg))(L.op(M), b, 1, x0=x0)
    c.close("x", got, x0 * (M.T @ (b / (M @ x0 + bg))) / (M.T @ np.ones(3)), tol=1e-3)


def pdhg_prox(term, sig, b, bg=None, e=None):
    if term == "l2":
        return lambda p: (p - sig * b) / (1 + sig)
    if term == "l1":
        return lambda p: clip(p - sig * b, 1.0)
    raise KeyError(term)


@case("P11", params=[dict(mat=m, mode=o, n=n, term=t, reg=r) for m, o, n, t, r in (
    ("full", "", 2, "l2", None), ("full", "0lu", 2, "l2", None), ("neg", "0", 2, "l1", None), ("zrow", "0", 1, "l1", None), ("full", "b0", 1, "l2", None),
    ("wide", "x0", 1, "l2", None), ("three", "0", 1, "l2", "TV1D"), ("three", "0", 1, "l2", "l1"), ("three", "0", 1, "l1", "low"), ("three", "", 2, "l2", "smooth1D"),
    ("eye", "0", 2, "l2", "l1"), ("identity", "", 2, "l2", "l1"), ("identity", "0", 1, "l1", "low"))],
    thorough_params=[dict(mat=m, mode=o, n=n, term=t, reg=r) for m, o, n, t, r in (("full", "", 4, "l2", None), ("three", "0bxlu", 1, "l2", "TV1D"), ("three", "0", 2, "l2", "TV1D"), ("identity", "0", 3, "l2", "l1"))], paths=600, budget=100)
def pdhg(c, mat, mode, n, term, reg):
    """p <- prox(p + S A xr), q <- clip(q + s K xr), x' <- P(x - T (A^T p + K^T q)), xr = 2x' - x; 1-4 iterations."""
    from corrct import regularizers as rg

    ident = mat == "identity"
    M, b, x0, bm, xm, lo, hi = setup(c, "eye" if ident else mat, mode)
    A = L.op("identity") if ident else L.op(M)
    N = M.shape[1]
    w = c.real("w", 0.1, 1) if reg else None
    R, extra, K, Kt, s, prox, mul = [], 0.0, np.zeros((1, N)), np.zeros((N, 1)), 1.0, lambda q: q * 0, 1.0
    if reg == "TV1D":
        R, extra, s = rg.Regularizer_TV1D(w), 2.0, 0.5
        (K, Kt), prox = tv_matrix(N), lambda q: clip(q, w)
    elif reg == "smooth1D":
        R, extra, s, mul = rg.Regularizer_smooth1D(w), 2.0 * w, 0.5, w
        (K, Kt), prox = tv_matrix(N), lambda q: q / 1.5
    elif reg == "l1":
        R, extra, K, Kt, prox = rg.Regularizer_l1(w), 1.0, np.eye(N), np.eye(N), lambda q: clip(q, w)
    elif reg == "low":
        R, extra, K, Kt, prox = rg.Constraint_LowerLimit(w), 1.0, np.eye(N), np.eye(N), lambda q: np.minimum(q - w, 0) / 2
    got, info = L.solver("PDHG", relaxation=0.95, data_term=term, regularizer=R or None)(
        A, b, n, x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm)
    tau, sig = L.scalings(M, bm, xm, extra=extra, rt=0.95, rs=0.95)
    x = np.zeros(N) if x0 is None else x0
    xr, p, q = x, np.zeros(M.shape[0]), np.zeros(K.shape[0])
    pp = pdhg_prox(term, sig, b)
    for _ in range(n):
        p = mm(bm, pp(p + sig * (M @ xr)))
        q = prox(q + s * (K @ xr))
        xn = L.clamp(x - tau * (M.T @ p + mul * (Kt @ q)), lo, hi, xm)
        xr, x = 2 * xn - x, xn
    c.close("x", got, x, tol=1e-4)
    c.check("iterations", info.iterations == n)


@case("P11", params=[dict(mat=m, mode=o, n=n, reg=r, restart=s) for m, o, n, r, s in (
    ("full", "", 2, None, None), ("full", "0lu", 2, None, None), ("neg", "0", 2, "l1", None), ("full", "b0", 1, None, None), ("wide", "x0", 1, None, None),
    ("neg", "0", 3, None, 2), ("neg", "0", 3, None, None), ("eye", "0", 2, "up", None))], paths=600, budget=100)
def fista(c, mat, mode, n, reg, restart):
    """Gradient step at the extrapolated point, proximal of the regularizer, Beck-Teboulle momentum (with restart)."""
    from corrct import regularizers as rg

    M, b, x0, bm, xm, lo, hi = setup(c, mat, mode)
    w = c.real("w", 0.1, 1) if reg else None
    R = None if reg is None else rg.Regularizer_l1(w) if reg == "l1" else rg.Constraint_UpperLimit(w)
    got, info = L.solver("FISTA", relaxation=1.0, regularizer=R, restart_period=restart)(
        L.op(M), b, n, x0=x0, lower_limit=lo, upper_limit=hi, x_mask=xm, b_mask=bm)
    tau, sig = L.scalings(M, bm, xm)
    x = np.zeros(M.shape[1]) if x0 is None else x0
    if xm is not None:
        x = x * xm
    y, t = x, 1.0
    for k in range(n):
        xn = y + tau * (M.T @ (sig * mm(bm, b - M @ y)))
        if reg == "l1":
            xn = soft(xn, tau * w)
        elif reg == "up":
            xn = np.minimum(xn, w)
        xn = L.clamp(xn, lo, hi, xm)
        tn = (1 + (1 + 4 * t * t) ** 0.5) / 2
        if restart and (k + 1) % restart == 0:
            tn = 1.0
        y = xn + (t - 1) / tn * (xn - x)
        x, t = xn, tn
    c.close("x", got, x, tol=1e-4)
    c.check("iterations", info.iterations == n)


@case("P11", params=[dict(s=k) for k in ("PDHG", "FISTA")])
def lipschitz(c, s):
    """Without preconditioning the step is 1/|A|, for the operator norm estimated by the power method (diagonal A, exact)."""
    M = np.eye(2) * 2.0
    b, x0 = c.array("b", (2,), -2, 2), c.array("x0", (2,), -2, 2)
    got, _ = L.solver(s, relaxation=1.0)(L.op(M), b, 1, x0=x0, precondition=False)
    if s == "FISTA":
        ref = x0 + M.T @ (b - M @ x0) / 4
    else:
        p = (0.5 * (M @ x0) - 0.5 * b) / 1.5
        ref = x0 - 0.5 * (M.T @ p)
    c.close("x", got, ref, tol=1e-4)


@case("P11", params=[dict(lim=l) for l in (False, True)])
def fbp(c, lim):
    """Filtered back-projection: A^T(filter(b)), then limits and mask."""
    from corrct import filters

    M = L.matrix("three")[:, :2]
    A = L.op(np.concatenate((M, M[::-1] * 0.5)), ps=(2, 3))
    b = c.array("b", (2, 3), -2, 2)
    lo, hi = (c.real("lo", -1, 0), c.real("hi", 0.25, 1)) if lim else (None, None)
    xm = c.boolarray("xm", (2,)).astype(np.float64) if lim else None
    got, info = L.solver("FBP")(A, b, lower_limit=lo, upper_limit=hi, x_mask=xm)
    ref = L.clamp(A.T(filters.FilterFBP("ramp")(b)), lo, hi, xm)
    c.close("x", got, ref, tol=1e-4)


@case("P11", params=[dict(na=a, att=t, sym=k) for a, t, k in ((2, 0, True), (2, 1, False), (2, 2, True), (2, 2, False))], budget=100, paths=400)
def sart_projectors(c, na, att, sym):
    """SART on (attenuated, multi-detector) projectors: one angle after the other with its own projections and weights."""
    from corrct import projectors
    from harness import p13

    Ms = [np.array([[1.0, 0.5, 0.0, 0.0], [0.0, 0.0, 1.0, 0.5]]), np.array([[0.5, 0.0, 1.0, 0.0], [0.0, 1.0, 0.0, 0.5]])]
    be, Ms = p13.backend(c, 0, 2, na, Ms)
    n = 1
    ang = np.linspace(0, 1, na)
    if att:
        maps = np.reshape(np.arange(na * att * 4) % 3 / 4 + 0.5, (na, att, 2, 2))
        wd = np.array([1.0, 0.5])[:att]
        p = projectors.ProjectorAttenuationXRF((2, 2), ang, att_maps=maps, angles_detectors_rad=np.linspace(1, 2, att), weights_detectors=wd, is_symmetric=sym, backend=be)
        fwd = lambda x, i: np.stack([wd[k] * (Ms[i] @ (x * maps[i, k]).reshape(-1)) for k in range(att)], axis=0)  # noqa: E731
        bwd = lambda y, i: sum(wd[k] * (maps[i, k] if sym else 1.0) * (Ms[i].T @ y[k]).reshape(2, 2) for k in range(att))  # noqa: E731
    else:
        w = np.array([1.0, 0.5])
        p = projectors.ProjectorUncorrected((2, 2), ang, prj_intensities=w, backend=be, create_single_projs=True)
        fwd = lambda x, i: (w[i] * (Ms[i] @ x.reshape(-1)))[None]  # noqa: E731
        bwd = lambda y, i: w[i] * (Ms[i].T @ y[0]).reshape(2, 2)  # noqa: E731
    nd = max(att, 1)
    b = c.array("b", (nd, na, 2), -2, 2)
    x0 = c.array("x0", (2, 2), -2, 2)
    bb = b if nd > 1 else b[0]
    perm = L.order(c, na)
    with p, L.fixed_order(perm):
        got, info = L.solver("SART", relaxation=1.0)(p, bb, n, x0=x0)
    x = x0
    ones_b, ones_x = np.ones((nd, 2)), np.ones((2, 2))
    for _ in range(n):
        for i in perm:
            r = (fwd(x, i) - b[:, i]) / np.abs(fwd(ones_x, i))
            t = np.abs(bwd(ones_b, i))
            x = x - bwd(r, i) / np.where(t < 1e-5, 1.0, t)
    c.close("x", got, x, tol=1e-3)
    c.check("iterations", info.iterations == n)


@case("P11")
def sart_refuses(c):
    """SART refuses projectors without single projections and operators without a transpose or a number of rows."""
    from harness import p13
    from corrct import projectors

    be, _ = p13.backend(c, 0, 2, 1, [np.ones((2, 4))])
    p = projectors.ProjectorUncorrected((2, 2), np.array([0.0]), backend=be)
    b = c.array("b", (1, 2), -1, 1)
    c.raises("no_single", ValueError, lambda: L.solver("SART")(p, b, 1))
    A, At = L.sart_funcs(L.matrix("full"))
    y = c.array("y", (3, 1), -1, 1)
    c.raises("no_transpose", ValueError, lambda: L.solver("SART")(A, y, 1, A_num_rows=3))
    c.raises("no_rows", ValueError, lambda: L.solver("SART")(A, y, 1, At=At))
    c.raises("fbp_1d", ValueError, lambda: L.solver("FBP")(L.op("full"), y[:, 0]))


@case("P11", params=[dict(s=s, kind=k) for s, k in (("SIRT", "list"), ("PDHG", "tuple"))], budget=100)
def several_regularizers(c, s, kind):
    """Several regularizers: each one has its own dual, and all of their updates and step sizes are added."""
    from corrct import regularizers as rg

    M = L.matrix("three")
    b, x0 = c.array("b", (3,), -2, 2), c.array("x0", (3,), -2, 2)
    w, v = c.real("w", 0.1, 1), c.real("v", 0.1, 1)
    D, Dt = tv_matrix(3)
    regs = [rg.Regularizer_TV1D(w), rg.Regularizer_l1(v)]
    got, _ = L.solver(s, relaxation=1.0, regularizer=regs if kind == "list" else tuple(regs))(L.op(M), b, 1, x0=x0)
    tau, sig = L.scalings(M, extra=3.0)
    u = Dt @ clip(0.5 * (D @ x0), w) + clip(x0, v)
    if s == "SIRT":
        ref = x0 + tau * (M.T @ (sig * (b - M @ x0)) - u)
    else:
        ref = x0 - tau * (M.T @ ((sig * (M @ x0) - sig * b) / (1 + sig)) + u)
    c.close("x", got, ref, tol=1e-4)
    c.raises("not_regularizers", ValueError, lambda: L.solver(s, regularizer=[rg.Regularizer_l1(0.5), "TV"]))
    c.raises("unknown", ValueError, lambda: L.solver(s, regularizer="TV"))


@case("P11", params=[dict(s=s) for s in ("SIRT", "PDHG", "FISTA", "MLEM")], budget=100)
def without_absolute(c, s):
    """Operators that have no absolute value: the scalings of SIRT are those of the operator itself, PDHG and FISTA use the operator norm."""
    from corrct import operators

    d = 2.0
    A = operators.TransformFunctions((2,), (2,), lambda x: d * x, lambda y: d * y) if hasattr(operators, "TransformFunctions") else operators.TransformIdentity((2,))
    b, x0 = c.array("b", (2,), 0.25, 2), c.array("x0", (2,), 0.25, 2)
    got, _ = L.solver(s, relaxation=1.0)(A, b, 1, x0=x0) if s != "MLEM" else L.solver(s)(A, b, 1, x0=x0)
    if s in ("SIRT", "FISTA"):
        ref = x0 + d * (b - d * x0) / d**2
    elif s == "MLEM":
        ref = b / d
    else:
        ref = x0 - (1 / d) * d * ((1 / d) * (d * x0 - b)) / (1 + 1 / d)
    c.close("x", got, ref, tol=1e-3)


@case("P11", params=[dict(s=s, t=t) for s in ("PDHG", "SIRT", "FISTA") for t in ("l2", "kl", "l1", "foo")])
def data_term_names(c, s, t):
    """Data terms can be given by name, in any case; unknown and unsupported ones are refused."""
    from corrct import data_terms as dt

    K = dict(l2=dt.DataFidelity_l2, kl=dt.DataFidelity_KL, l1=dt.DataFidelity_l1)
    ok = t in dict(SIRT=("l2", "kl"), PDHG=("l2", "kl", "l1"), FISTA=("l2",))[s]
    if not ok:
        c.raises("refused", ValueError, lambda: L.solver(s, data_term=t))
        if t in K:
            c.raises("refused_term", ValueError, lambda: L.solver(s, data_term=K[t]()))
        return
    b, x0 = c.array("b", (2,), 0.5, 2), c.array("x0", (2,), 0.5, 2)
    M = L.matrix("eye")
    r = [L.solver(s, relaxation=1.0, data_term=k)(L.op(M), b, 1, x0=x0)[0] for k in (t, t.upper(), K[t]())]
    c.close("upper", r[1], r[0])
    c.close("instance", r[2], r[0])


@case("P11", params=[dict(n=n) for n in (0, 1, 2)])
def fista_regularizers(c, n):
    """FISTA takes no or one regularizer that has a primal proximal, and refuses others; any weights."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    if n == 2:
        c.raises("two", ValueError, lambda: L.solver("FISTA", regularizer=(rg.Regularizer_l1(w), rg.Regularizer_l1(w))))
        for k in ("TV2D", "smooth2D", "lap2D", "l1med"):
            c.raises(k, ValueError, lambda: L.solver("FISTA", regularizer=getattr(rg, "Regularizer_" + k)(w)))
        return
    r = None if n == 0 else rg.Regularizer_l1(w)
    s = [L.solver("FISTA", regularizer=q) for q in ((r, ()) if n == 0 else (r, (r,), [r]))]
    for i, q in enumerate(s):
        c.check(f"kept_{i}", len(q.regularizer) == n)


@case("P11", params=[dict(s=s, mask=m) for s in ("SIRT", "MLEM", "PDHG", "FISTA") for m in (False, True)], budget=60)
def integer_data(c, s, mask):
    """Counts given as integers are reconstructed as the numbers they are: with fractional masks, test masks, backgrounds and integer start images; any counts."""
    from corrct import data_terms as dt

    M = L.matrix("full")
    n = c.intarray("n", (3,), 1, 4)
    bg = c.real("bg", 0.1, 1)
    x0 = c.intarray("x0", (2,), 1, 3) if mask else None
    k = dict(b_mask=np.array([1.0, 0.5, 1.0]), b_test_mask=np.array([0.0, 0.0, 1.0])) if mask else {}
    res = []
    for b, x in ((n, x0), (n * 1.0, None if x0 is None else x0 * 1.0)):
        sol = L.solver(s, data_term=dt.DataFidelity_l2(background=bg))
        res.append(sol(L.op(M), b, 1, x0=x, **k)[0])
    c.close("x", res[0], res[1], tol=1e-4)
