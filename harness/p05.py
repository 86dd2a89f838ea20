"""P05: data-term proximals: the dual one is the proximal of the conjugate, the primal one its Moreau counterpart."""

import numpy as np

from vf.ctx import case

N = (2,)


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def clip(v, w):
    return np.maximum(np.minimum(v, w), -w)


@case("P05", params=[dict(sig=s, data=d) for s in ("scalar", "array") for d in (True, False)])
def l2_dual(c, sig, data):
    """p minimises (p-u)^2/(2 sigma) + p^2/2 + p b."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_l2()
    b = c.array("b", N, -3, 3) if data else None
    s = c.real("s", 0.05, 3) if sig == "scalar" else c.array("s", N, 0.05, 3)
    t.assign_data(b, s)
    u = c.array("u", N, -3, 3)
    p = u.copy()
    t.apply_proximal_dual(p)
    c.close("stationary", (p - u) + s * (p + (b if data else 0.0)), 0.0)


@case("P05", params=[dict(sig=s) for s in ("scalar", "array")])
def wl2_dual(c, sig):
    """p minimises (p-u)^2/(2 sigma) + p^2/(2 w) + p b; p = 0 where w = 0."""
    from corrct import data_terms as dt

    w = c.array("w", N, 0, 3)
    t = dt.DataFidelity_wl2(w)
    b = c.array("b", N, -3, 3)
    s = c.real("s", 0.05, 3) if sig == "scalar" else c.array("s", N, 0.05, 3)
    t.assign_data(b, s)
    u = c.array("u", N, -3, 3)
    p = u.copy()
    t.apply_proximal_dual(p)
    c.finite("finite", p)
    c.close("stationary", w * (p - u) + s * (p + w * b), 0.0)


@case("P05", params=[dict(data=d) for d in (True, False)])
def l2b_dual(c, data):
    """p minimises (p-u)^2/(2 s) + p b + r|p| + r^2 p^2/2 with r = sqrt(local error): checked against every q."""
    from corrct import data_terms as dt

    r = c.real("r", 0.1, 2)
    t = dt.DataFidelity_l2b(r * r)
    b = c.array("b", (1,), -3, 3) if data else None
    s = c.real("s", 0.1, 3)
    t.assign_data(b, s)
    u = c.array("u", (1,), -3, 3)
    p = u.copy()
    t.apply_proximal_dual(p)
    bb = b if data else 0.0
    c.close("formula", p * (1 + s * r * r), soft(u - s * bb, s * r))


@case("P05", params=[dict(sig=s, axis=a) for s in ("scalar", "array") for a in (None, 0, 1)])
def huber_dual(c, sig, axis):
    """Projection of (u - s b)/(1 + s a) on the unit ball."""
    from corrct import data_terms as dt

    S = (2, 1) if sig == "array" else (2, 2)
    a = c.real("a", 0, 3)
    t = dt.DataFidelity_Huber(a, l2_axis=axis)
    b = c.array("b", S, -3, 3)
    s = c.real("s", 0.05, 3) if sig == "scalar" else c.array("s", S, 0.05, 3)
    t.assign_data(b, s)
    v = c.array("v", S, -3, 3)  # every u is of this form
    p = v * (1 + s * a) + s * b
    t.apply_proximal_dual(p)
    nrm = np.abs(v) if axis is None else np.sqrt((v * v).sum(axis=axis, keepdims=True))
    c.close("formula", p * np.maximum(nrm, 1), v)


@case("P05", params=[dict(wk=w, data=d) for w in ("none", "scalar", "array") for d in (True, False)])
def l1_dual(c, wk, data):
    """Projection of u - s b on [-w, w], also for w = 0."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_l1()
    b = c.array("b", N, -3, 3) if data else None
    s = c.real("s", 0.05, 3)
    t.assign_data(b, s)
    u = c.array("u", N, -3, 3)
    p = u.copy()
    w = 1.0 if wk == "none" else (c.real("w", 0, 3) if wk == "scalar" else c.array("w", N, 0, 3))
    if wk == "none":
        t.apply_proximal_dual(p)
    else:
        t.apply_proximal_dual(p, w)
    c.finite("finite", p)
    c.close("projection", p, clip(u - (s * b if data else 0.0), w))


@case("P05")
def l1_dual_optimal(c):
    """The result beats every feasible q."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_l1()
    b, s, w = c.array("b", (1,), -3, 3), c.real("s", 0.05, 3), c.real("w", 0, 3)
    t.assign_data(b, s)
    u, q = c.array("u", (1,), -3, 3), c.array("q", (1,), -3, 3)
    c.assume(np.abs(q) <= w)
    p = u.copy()
    t.apply_proximal_dual(p, w)
    c.le("feasible", np.abs(p), w)
    c.le("optimal", ((p - u) * (p - u) + 2 * s * p * b).sum(), ((q - u) * (q - u) + 2 * s * q * b).sum(), tol=1e-4)


@case("P05", params=[dict(axis=a, wk=w) for a in (0, -1) for w in ("scalar", "array")])
def l12_dual(c, axis, wk):
    """Projection on the balls of radius w of the groups along l2_axis."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_l12(l2_axis=axis)
    t.assign_data(None, 0.5)
    S = (2, 2)
    u = c.array("u", S, -3, 3)
    p = u.copy()
    w = c.real("w", 0, 3) if wk == "scalar" else c.array("w", (1, 2) if axis == 0 else (2, 1), 0, 3)
    t.apply_proximal_dual(p, w)
    nrm = np.sqrt((u * u).sum(axis=axis, keepdims=True))
    c.finite("finite", p)
    c.close("formula", p * np.maximum(nrm, w), u * w)


@case("P05", params=[dict(data=d) for d in (True, False)])
def l1b_dual(c, data):
    """p minimises (p-u)^2/2 + s(p b + e|p|) on |p| <= w."""
    from corrct import data_terms as dt

    e = c.real("e", 0, 2)
    t = dt.DataFidelity_l1b(e)
    b = c.array("b", N, -3, 3) if data else None
    s = c.real("s", 0.05, 3)
    t.assign_data(b, s)
    u, w = c.array("u", N, -3, 3), c.real("w", 0, 3)
    p = u.copy()
    t.apply_proximal_dual(p, w)
    c.finite("finite", p)
    c.close("formula", p, clip(soft(u - (s * b if data else 0.0), s * e), w))


@case("P05", params=[dict(sig=s) for s in ("scalar", "array")])
def kl_dual(c, sig):
    """Stationarity: (p-u)(1-p) + s max(b,0) = 0 with p <= 1."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_KL()
    b = c.array("b", N, -1, 3)
    s = c.real("s", 0.05, 3) if sig == "scalar" else c.array("s", N, 0.05, 3)
    t.assign_data(b, s)
    u = c.array("u", N, -3, 3)
    p = u.copy()
    t.apply_proximal_dual(p)
    c.le("below_one", p, 1.0)
    c.close("stationary", (u - p) * (1 - p) - s * np.maximum(b, 0), 0.0)


@case("P05")
def kl_dual_no_data(c):
    from corrct import data_terms as dt

    t = dt.DataFidelity_KL()
    t.assign_data(None, c.real("s", 0.05, 3))
    u = c.array("u", N, -3, 3)
    p = u.copy()
    t.apply_proximal_dual(p)
    c.close("clip", p, np.minimum(u, 1.0))


# -- primal proximals ------------------------------------------------------
@case("P05", params=[dict(kind=k, data=d) for k in ("l2", "wl2", "l1", "l1b", "l2b") for d in (True, False)])
def moreau(c, kind, data):
    """prox_{tau f}(x) = x - tau prox_{f*/tau}(x/tau), through the two code paths."""
    from corrct import data_terms as dt

    if kind == "wl2":
        t = dt.DataFidelity_wl2(c.array("w", N, 0, 3))
    elif kind == "l1b":
        t = dt.DataFidelity_l1b(c.real("e", 0, 2))
    elif kind == "l2b":
        r = c.real("r", 0.1, 2)
        t = dt.DataFidelity_l2b(r * r)
    else:
        t = dict(l2=dt.DataFidelity_l2, l1=dt.DataFidelity_l1)[kind]()
    b = c.array("b", N, -3, 3) if data else None
    tau = c.real("tau", 0.1, 3)
    x = c.array("x", N, -3, 3)
    t.assign_data(b, 1 / tau)
    d = x / tau
    t.apply_proximal_dual(d)
    ref = x - tau * d
    p = x.copy()
    t.apply_proximal_primal(p, tau)
    c.close("moreau", p, ref, tol=1e-4)


@case("P05")
def kl_primal(c):
    """Stationarity of tau (p - b log p) + (p-x)^2/2: p (p - x + tau) = tau max(b,0), p >= 0."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_KL()
    b = c.array("b", N, -1, 3)
    t.assign_data(b)
    tau, x = c.real("tau", 0.05, 3), c.array("x", N, -2, 3)
    p = x.copy()
    t.apply_proximal_primal(p, tau)
    c.le("nonnegative", -p, 0.0)
    c.close("stationary", p * (p - x + tau), tau * np.maximum(b, 0))


@case("P05")
def kl_primal_no_data(c):
    """Without data the primal proximal lowers the values by the step, staying positive."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_KL()
    tau, x = c.real("tau", 0.05, 3), c.array("x", N, -2, 5)
    p = x.copy()
    t.apply_proximal_primal(p, tau)
    c.close("lowered", p, np.maximum(x - tau, 0), tol=1e-4)
    c.le("positive", np.full(p.shape, 0.0), p)


@case("P05", params=[dict(kind=k) for k in ("l2", "wl2", "l1")])
def primal_optimal(c, kind):
    """The primal proximal beats every other point."""
    from corrct import data_terms as dt

    w = c.array("w", (1,), 0, 3) if kind == "wl2" else 1.0
    t = dt.DataFidelity_wl2(w) if kind == "wl2" else dict(l2=dt.DataFidelity_l2, l1=dt.DataFidelity_l1)[kind]()
    b, tau = c.array("b", (1,), -3, 3), c.real("tau", 0.05, 3)
    x, q = c.array("x", (1,), -3, 3), c.array("q", (1,), -4, 4)
    t.assign_data(b)
    p = x.copy()
    t.apply_proximal_primal(p, tau)

    def cost(v):
        f = np.abs(v - b) if kind == "l1" else 0.5 * w * (v - b) * (v - b)
        return (0.5 * (v - x) * (v - x) + tau * f).sum()

    c.le("optimal", cost(p), cost(q), tol=1e-4)


@case("P05", params=[dict(kind=k) for k in ("hub", "l12", "ln")])
def unsupported_primal(c, kind):
    """Terms without a closed form say so instead of returning something else."""
    from corrct import data_terms as dt

    t = dict(hub=lambda: dt.DataFidelity_Huber(0.1), l12=dt.DataFidelity_l12, ln=dt.DataFidelity_ln)[kind]()
    x = c.array("x", (2, 2), -3, 3)
    x0 = x.copy()
    c.raises("not_implemented", NotImplementedError, lambda: t.apply_proximal_primal(x, 0.5))
    c.close("untouched", x, x0)


@case("P05")
def ln_spectral(c):
    """Nuclear-type norm: the spectral proximal acts on the singular values (l2 spectral norm: plain scaling)."""
    from corrct import data_terms as dt

    sp = dt.DataFidelity_l2()
    t = dt.DataFidelity_ln(ln_axes=(1, 0), spectral_norm=sp)
    t.assign_data(None, 0.5)
    u = c.array("u", (2, 2), -2, 2)
    p = u.copy()
    t.spectral_norm.assign_data(None, 1.0)
    t.apply_proximal_dual(p)
    c.close("dual", p, u / 2, tol=1e-4)


@case("P05", params=[dict(rows=r) for r in (1, 2)], budget=60)
def ln_data(c, rows):
    """Nuclear norm with data: the data enter as one more row of each matrix (one column: projection of the whole vector on the unit ball), and only the dual's own rows are kept; any data, dual and step."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_ln(ln_axes=(0, 1))
    b, s = c.array("b", (1, 1), -2, 2), c.real("s", 0.1, 2)
    t.assign_data(b, s)
    u = c.array("u", (rows, 1), -2, 2)
    p = u.copy()
    t.apply_proximal_dual(p)
    n = np.sqrt((u * u).sum() + (b * s * b * s).sum())
    c.shape("shape", p, (rows, 1))
    c.close("ball", p * np.maximum(n, 1), u, tol=1e-3)
    c.close("data", t.data, b, tol=0)
