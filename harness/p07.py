"""P07: limit constraints, and independence of regularizer instances."""

import numpy as np

from harness.p06 import SH, clip, reg
from vf.ctx import case


def lim_reg(side, lim, **k):
    from corrct import regularizers as rg

    return (rg.Constraint_LowerLimit if side == "low" else rg.Constraint_UpperLimit)(lim, **k)


def mklim(c, kind, S):
    return c.real("lim", -2, 2) if kind == "scalar" else c.array("lim", S, -2, 2)


SL = [dict(side=s, lk=l) for s in ("low", "up") for l in ("scalar", "array")]


@case("P07", params=SL)
def primal_projection(c, side, lk):
    """The primal proximal is the projection on the feasible half space, for any step."""
    S = (2, 2)
    lim = mklim(c, lk, S)
    r = lim_reg(side, lim)
    x = c.array("x", S, -4, 4, dtype=np.float32)
    p = x.copy()
    r.initialize_sigma_tau(x)
    r.apply_proximal_primal(p, c.real("tau", 0.01, 3))
    c.close("projection", p, np.maximum(x, lim) if side == "low" else np.minimum(x, lim))


@case("P07", params=[dict(side=s, lk=l, norm=n) for s in ("low", "up") for l in ("scalar", "array") for n in ("l2", "l1")])
def dual_step(c, side, lk, norm):
    """The dual accumulates the violation of the limit, is zero on the feasible side, and leaves the image as is."""
    from corrct import data_terms as dt

    S = (2, 2)
    lim = mklim(c, lk, S)
    r = lim_reg(side, lim, norm=dt.DataFidelity_l2() if norm == "l2" else dt.DataFidelity_l1())
    x = c.array("x", S, -4, 4, dtype=np.float32)
    x0 = x.copy()
    r.initialize_sigma_tau(x)
    d = r.initialize_dual()
    c.shape("shape", d, S)
    d0 = c.array("d", S, -2, 2, dtype=np.float32)
    d = d0.copy()
    r.update_dual(d, x)
    r.apply_proximal_dual(d)
    v = d0 + x0 - lim
    v = np.minimum(v, 0) if side == "low" else np.maximum(v, 0)
    c.close("formula", d, v * 0.5 if norm == "l2" else clip(v, 1.0))
    c.close("image_untouched", x, x0)
    c.le("sign", d if side == "low" else -d, 0.0)
    # from a zero dual: feasible pixels get no correction; the others are pushed to the feasible side
    z = r.initialize_dual()
    r.update_dual(z, x)
    r.apply_proximal_dual(z)
    u = r.compute_update_primal(z)
    ok = x0 >= lim if side == "low" else x0 <= lim
    c.check("feasible_is_free", np.logical_or(np.logical_not(ok), u == 0))
    step = -u
    c.check("push", np.logical_or(ok, step > 0 if side == "low" else step < 0))


@case("P07", params=[dict(side=s) for s in ("low", "up")])
def limit_mask(c, side):
    """Outside of the update mask the constraint has no effect on the image."""
    S = (2, 2)
    m = c.array("m", S, 0, 1)
    r, r0 = lim_reg(side, 0.5, upd_mask=m), lim_reg(side, 0.5)
    x = c.array("x", S, -4, 4, dtype=np.float32)
    t, t0 = r.initialize_sigma_tau(x), r0.initialize_sigma_tau(x)
    c.close("tau", t * np.ones(S), t0 * m)
    d = c.array("d", S, -2, 2, dtype=np.float32)
    d0 = d.copy()
    c.close("update", r.compute_update_primal(d), d0 * m)
    c.close("dual_untouched", d, d0)


@case("P07", params=[dict(side=s, lk=l, mk=m) for s in ("low", "up") for l in ("scalar", "array") for m in ("bool", "float")])
def primal_mask(c, side, lk, mk):
    """The projection leaves what lies outside of the update mask as it is."""
    S = (2, 2)
    lim = mklim(c, lk, S)
    m = c.boolarray("m", S)
    r = lim_reg(side, lim, upd_mask=m if mk == "bool" else np.where(m, 1.0, 0.0))
    x = c.array("x", S, -4, 4, dtype=np.float32)
    p = x.copy()
    r.initialize_sigma_tau(x)
    r.apply_proximal_primal(p, 0.5)
    c.close("projection", p, np.where(m, np.maximum(x, lim) if side == "low" else np.minimum(x, lim), x))


@case("P07", params=[dict(a=a, b=b, norm=n) for a, b in (("smooth2D", "l1"), ("l1", "smooth2D"), ("fft", "smooth2D"), ("low", "smooth2D"), ("med", "fft")) for n in ("l2", "Huber")])
def shared_norm(c, a, b, norm):
    """Two regularizers that are given the same norm object work as with one norm each."""
    from corrct import data_terms as dt
    from corrct import regularizers as rg

    S = (2, 2)
    w = c.real("w", 0.1, 2)
    x = c.array("x", S, -2, 2, dtype=np.float32)

    def mkn():
        return dt.DataFidelity_l2() if norm == "l2" else dt.DataFidelity_Huber(0.25)

    def make(k, nm):
        if k == "low":
            return lim_reg("low", 0.5, norm=nm)
        if k == "med":
            return rg.BaseRegularizer_med(w, norm=nm)
        return reg(k, w, norm=nm)

    nm = mkn()
    pair, single = [make(a, nm), make(b, nm)], [make(a, mkn()), make(b, mkn())]
    for rs in (pair, single):
        for r in rs:
            r.initialize_sigma_tau(x)
    for k, r, r0 in zip("ab", pair, single):
        d = r.initialize_dual()
        d0 = d.copy()
        for q, z in ((r, d), (r0, d0)):
            q.update_dual(z, x)
            q.apply_proximal_dual(z)
        c.close("dual_" + k, d, d0)


@case("P07", params=SL)
def info(c, side, lk):
    """Every accepted limit can be described."""
    S = (2, 2)
    lim = np.full(S, 0.5) if lk == "array" else 0.5
    r = lim_reg(side, lim)
    x = c.array("x", S, -4, 4, dtype=np.float32)
    r.initialize_sigma_tau(x)
    c.check("info", r.info() == ("lowlim(l:0.5)" if side == "low" else "uplim(l:0.5)"))


IND = ["TV1D", "TV2D", "smooth1D", "smooth2D", "lap1D", "lap2D", "HubTV2D", "l1", "l1swl", "l12swl", "l1dwl", "fft", "low", "up"]


def mk(kind, w):
    return lim_reg(kind, w) if kind in ("low", "up") else reg(kind, w)


def shp(kind):
    return (2, 2) if kind in ("low", "up") else SH[kind]


@case("P07", params=[dict(kind=k) for k in IND])
def independence(c, kind):
    """Working with a second regularizer of the same kind (other weight, other image size) changes nothing in the first."""
    S = shp(kind)
    S2 = (4, *S[1:]) if kind not in ("l1swl", "l12swl", "l1dwl") else (2, *S[1:])
    w = c.real("w", 0.1, 2)
    x = c.array("x", S, -2, 2, dtype=np.float32)
    alone = mk(kind, w)
    alone.initialize_sigma_tau(x)
    da = alone.initialize_dual()
    alone.update_dual(da, x)
    ref_dual = da.copy()
    r, other = mk(kind, w), mk(kind, 3.5)
    t = r.initialize_sigma_tau(x)
    d = r.initialize_dual()
    r.update_dual(d, x)
    x2 = np.ones(S2, dtype=np.float32)
    other.initialize_sigma_tau(x2)
    d2 = other.initialize_dual()
    other.update_dual(d2, x2)
    other.apply_proximal_dual(d2)
    other.compute_update_primal(d2)
    c.close("dual", d, ref_dual)
    if kind in ("fft", "TV1D", "TV2D", "HubTV2D"):
        c.close("weight", r.weight, w)
        c.close("up", r.compute_update_primal(d.copy()), alone.compute_update_primal(da.copy()), tol=1e-4)
        return
    r.apply_proximal_dual(d)
    alone.apply_proximal_dual(da)
    c.close("proximal", d, da, tol=1e-4)
    c.close("update", r.compute_update_primal(d), alone.compute_update_primal(da), tol=1e-4)


@case("P07", params=[dict(kind=k) for k in ("TV1D", "smooth1D", "lap1D", "l1", "low", "l1dwl")])
def reuse(c, kind):
    """A regularizer initialised again for another image behaves as a fresh one."""
    S = shp(kind)
    w = c.real("w", 0.1, 2)
    x = c.array("x", S, -2, 2, dtype=np.float32)
    r, fresh = mk(kind, w), mk(kind, w)
    x1 = np.ones((8, *S[1:]), dtype=np.float32)
    r.initialize_sigma_tau(x1)
    d1 = r.initialize_dual()
    r.update_dual(d1, x1)
    r.apply_proximal_dual(d1)
    t, tf = r.initialize_sigma_tau(x), fresh.initialize_sigma_tau(x)
    c.close("tau", t * np.ones(S), tf * np.ones(S))
    d, df = r.initialize_dual(), fresh.initialize_dual()
    c.shape("shape", d, df.shape)
    r.update_dual(d, x)
    fresh.update_dual(df, x)
    c.close("dual", d, df)
    c.close("sigma", getattr(r, "sigma", 1.0) * np.ones(1), getattr(fresh, "sigma", 1.0) * np.ones(1))
