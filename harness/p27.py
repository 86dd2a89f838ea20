"""P27: step sizes of the primal-dual solvers."""

from fractions import Fraction

import numpy as np

from harness import solverlib as L
from harness.p06 import reg as reg06
from vf.ctx import case


def make(kind, w, **k):
    from corrct import regularizers as rg

    if kind in ("TNV", "vSVD", "HubTV3D", "smooth3D"):
        return rg.Regularizer_HubTV3D(w, 0.25) if kind == "HubTV3D" else getattr(rg, "Regularizer_" + kind)(w)
    if "wl-" in kind:
        name, wl, lv = kind.split("-")[:3]
        kw = dict(normalized=False) if kind.endswith("-raw") else {}
        if name in ("lnswl", "vl1wl"):
            return getattr(rg, "Regularizer_" + name)(w, wl, int(lv))
        if name.startswith("Hub_"):
            return getattr(rg, "Regularizer_" + name)(w, wl, int(lv), huber_size=0.5)
        return getattr(rg, "Regularizer_" + name)(w, wl, int(lv), ndims=1, axes=(-1,), **kw)
    return reg06(kind, w)


def step(r, x, tau=None):
    """K^T Sigma K x, as one dual and one primal update from zero."""
    q = r.initialize_dual()
    r.update_dual(q, x)
    return r.compute_update_primal(q)


def units(sh):
    for ix in np.ndindex(*sh):
        e = np.zeros(sh, dtype=np.float32)
        e[ix] = 1
        yield e


def definite(S):
    """Exact LDL^T of the matrix (entries rounded to 1e-7), with a slack of 1e-4 of its size: all pivots positive."""
    n = len(S)
    sl = Fraction(round(1e3 * max(1.0, float(np.abs(S).max()))), 10**7)
    A = [[Fraction(round(float(S[i, j]) * 10**7), 10**7) + (sl if i == j else 0) for j in range(n)] for i in range(n)]
    for k in range(n):
        if A[k][k] <= 0:
            return False
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            if f:
                for j in range(k + 1, n):
                    A[i][j] -= f * A[k][j]
    return True


def bounded(c, name, form, conc, sh, tau, x, gain=1.0):
    """sum tau x^2 >= <x, form(x)>: form is shown to be a matrix on all images, and diag(tau) minus the matrix to be positive (exact LDL^T),
    or else the direction that breaks it is followed."""
    n = int(np.prod(sh))
    H = np.stack([np.asarray(conc(e), dtype=float).ravel() for e in units(sh)], axis=1)
    t = np.broadcast_to(np.asarray(tau, dtype=float), sh).ravel()
    S = np.diag(t) - (H + H.T) / 2
    if not definite(S):
        lam, vec = np.linalg.eigh(S)
        a = c.real(f"{name}_a", 0.5, 1)
        v = (vec[:, 0].reshape(sh) / np.abs(vec[:, 0]).max()).astype(np.float32)
        y = v * a
        c.le(name, (form(y) * y).sum(), float((t.reshape(sh) * v * v).sum()) * a * a * gain, tol=1e-4)
        return
    xs = x.reshape(-1)
    u = form(x).reshape(-1)
    for i in range(n):
        row = sum(float(H[i, k]) * xs[k] for k in range(n) if abs(H[i, k]) > 1e-9)
        c.close(f"{name}_{i}", u[i], row * gain, tol=1e-3 * max(1.0, t.max()))


KINDS = dict(TV1D=(8,), TV2D=(4, 4), TV3D=(3, 3, 3), HubTV2D=(3, 4), smooth1D=(8,), smooth2D=(4, 4), smooth3D=(3, 3, 3), lap1D=(8,), lap2D=(3, 3), lap3D=(3, 3, 3), l1=(3,), fft=(3, 4), VTV=(2, 3, 3), TNV=(2, 2, 3))
KINDS.update({"l1swl-db1-1": (1, 4), "l1swl-db1-2-raw": (1, 4), "l1swl-db2-1-raw": (1, 4), "l12swl-bior2.2-1": (1, 4), "l1dwl-db1-1": (1, 4), "l1dwl-db1-2": (1, 8), "l1dwl-db2-2": (1, 8), "l1dwl-bior2.2-2": (1, 8), "l1dwl-bior4.4-1": (1, 8), "l12dwl-db1-1": (2, 4)})
SCALED = ("smooth", "Hub", "TNV")


@case("P27", params=[dict(kind=k) for k in KINDS])
def regularizer(c, kind):
    """The primal step that a regularizer asks for bounds its dual step: <x, K^T Sigma K x> <= sum tau x^2, the condition for the convergence of the primal-dual iterations; any image and weight."""
    sh = KINDS[kind]
    w = c.real("w", 0.25, 2)
    x = c.array("x", sh, -1, 1, dtype=np.float32)
    r = make(kind, w)
    tau = r.initialize_sigma_tau(x)
    one = make(kind, 1.0)
    t1 = one.initialize_sigma_tau(np.zeros(sh, np.float32))
    gain = w if kind.startswith(SCALED) else 1.0
    c.close("tau", tau, np.asarray(t1, dtype=float) * gain, tol=1e-4)
    bounded(c, "bound", lambda y: step(r, y), lambda e: step(one, e), sh, t1, x, gain)


@case("P27", params=[dict(kind=k) for k in ("TV1D", "lap1D", "l1", "smooth1D")])
def masked(c, kind):
    """With an update mask, the condition holds for the images inside of the mask, and nothing outside is updated; any image, mask and weight."""
    from corrct import regularizers as rg

    n = 4
    m = [int(c.concretize(c.integer(f"m{i}", 0, 1))) for i in range(n)]
    mask = np.array(m, dtype=np.float32)
    w = c.real("w", 0.25, 2)
    x = c.array("x", (n,), -1, 1, dtype=np.float32) * mask
    cls = getattr(rg, "Regularizer_" + kind)
    r = cls(w, upd_mask=mask)
    tau = r.initialize_sigma_tau(x)
    one = cls(1.0, upd_mask=mask)
    t1 = np.broadcast_to(np.asarray(one.initialize_sigma_tau(np.zeros(n, np.float32)), dtype=float), (n,))
    gain = w if kind.startswith(SCALED) else 1.0
    u = step(r, x)
    c.close("tau_out", tau * (1 - mask), 0.0, tol=0)
    c.close("upd_out", u * (1 - mask), 0.0, tol=1e-6)
    bounded(c, "bound", lambda y: step(r, y), lambda e: step(one, e * mask), (n,), t1, x, gain)


@case("P27", params=[dict(M=m, reg=r, bm=b) for m, r, b in (("full", None, False), ("neg", None, False), ("wide", "TV1D", False), ("three", "lap1D", True), ("zrow", "l1", False), ("zcol", None, False), ("three", "two", False), ("full", "TV1D", True))])
def preconditioned(c, M, reg, bm):
    """The diagonal scalings of a system with its regularizers satisfy <x, A^T Sigma A x> + sum of the regularizers' terms <= sum x^2 / tau, with masked data; any image, relaxation up to one."""
    from corrct import solvers

    A = L.op(M)
    mat = L.matrix(M)
    m, n = mat.shape
    rel = c.real("rel", 0.5, 1)
    mask = np.array([1.0, 0.0, 1.0, 1.0][:m]) if bm else None
    names = {None: (), "two": ("TV1D", "l1")}.get(reg, (reg,))
    x = c.array("x", (n,), -1, 1)

    def build(rl):
        regs = [make(k, 0.7) for k in names]
        s, t, sh, _ = solvers.compute_diagonal_scaling(A.absolute(), A.T.absolute(), np.zeros(m), regs, rl, rl, None, mask)
        return regs, s, t, sh

    regs, s, t, sh = build(rel)
    r1, s1, t1, _ = build(1.0)
    c.shape("x_shape", t, (n,))
    c.close("tau", t, t1 * rel, tol=1e-5)
    c.close("sigma", s, s1 * rel, tol=1e-5)

    def form(y, rr=r1, ss=s1):
        p = A(y) * ss
        if bm:
            p = p * mask
        u = A.T(p)
        for q in rr:
            u = u + step(q, y)
        return u

    bounded(c, "bound", form, form, (n,), 1.0 / t1, x)
    # relaxed: smaller steps on both sides
    c.le("tau_relaxed", t, t1, tol=1e-6)
    c.le("sigma_relaxed", s, s1, tol=1e-6)


@case("P27", params=[dict(n=k) for k in (2, 3)])
def row(c, n):
    """For one row of any system, sigma (sum a x)^2 <= sum |a| x^2: the rows of any matrix satisfy the condition; any entries and image."""
    from corrct import projectors, solvers

    a, x = [c.real(f"a{i}", -1, 1) for i in range(n)], c.array("x", (n,), -1, 1)
    c.assume(abs(a[0]) > 0.1)
    for i in range(1, n):
        c.assume(abs(a[i]) > 0.001)
    ab = [abs(v) for v in a]

    class Abs:
        def __call__(self, y):
            return np.stack([sum(p * y[i] for i, p in enumerate(ab))])

    class AbsT:
        def __call__(self, p):
            return np.stack([q * p[0] for q in ab])

    s, t, _, _ = solvers.compute_diagonal_scaling(Abs(), AbsT(), np.zeros(1), [])
    tot = sum(ab)
    c.close("sigma", s[0] * tot, 1.0, tol=1e-3)
    for i in range(n):
        c.close(f"tau_{i}", t[i] * ab[i], 1.0, tol=1e-3)
    # tot * sum |a| x^2 - (sum a x)^2 = sum_{i<j} |a_i a_j| (x_i - s_i s_j x_j)^2 >= 0
    ax = sum(a[i] * x[i] for i in range(n))
    q = sum(ab[i] * x[i] * x[i] for i in range(n)) * tot - ax * ax
    c.le("bound", 0.0, q, tol=1e-4)


@case("P27", params=[dict(it=i) for i in (1, 2)])
def lipschitz(c, it):
    """The power method returns the norm of multiples of isometries from any start, and never more than the norm of diagonal systems; without preconditioning the product of the steps and the squared norm is at most the relaxations' product, whatever the regularizers; any scale and start."""
    from unittest import mock

    from corrct import solvers

    s = c.real("s", 0.5, 3)
    x0 = c.array("start", (2,), 0.1, 1)
    co, si = 0.6, 0.8

    class Op:
        def __init__(self, m):
            self.m = m

        def __call__(self, x):
            return np.stack([self.m[0][0] * x[0] + self.m[0][1] * x[1], self.m[1][0] * x[0] + self.m[1][1] * x[1]])

        @property
        def T(self):
            m = self.m
            return Op([[m[0][0], m[1][0]], [m[0][1], m[1][1]]])

    A = Op([[co * s, -si * s], [si * s, co * s]])
    with mock.patch("numpy.random.rand", lambda *k: x0.copy()):
        norm, sh, _ = solvers.power_method(A, np.zeros(2), it)
    c.close("norm", norm, s, tol=1e-3)
    c.check("shape", tuple(sh) == (2,))
    if it == 1:
        r = make("TV1D", 0.7)
        with mock.patch("corrct.solvers.power_method", lambda A, b, *k: (s, (2,), np.dtype(float))):
            sg, tau, _, _ = solvers.compute_Lipschitz_scaling(A, np.zeros(2), [r], 0.95, 0.95)
        c.close("sigma", sg * s, 0.95, tol=1e-4)
        c.close("tau", tau * (s + 2.0), 0.95, tol=1e-4)
