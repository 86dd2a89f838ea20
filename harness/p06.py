"""P06: regularizers: dual steps, feasible duals, primal updates, primal proximals."""

import numpy as np

from vf.ctx import case


def soft(v, t):
    return np.sign(v) * np.maximum(np.abs(v) - t, 0)


def clip(v, w):
    return np.maximum(np.minimum(v, w), -w)


def reg(kind, w, **k):
    from corrct import regularizers as r

    if kind in ("TV1D", "TV2D", "TV3D", "smooth1D", "smooth2D", "smooth3D", "lap1D", "lap2D", "lap3D"):
        return getattr(r, "Regularizer_" + kind)(w, **k)
    if kind in ("HubTV2D", "HubTV3D"):
        return getattr(r, "Regularizer_" + kind)(w, 0.25, **k)
    if kind == "l1":
        return r.Regularizer_l1(w, **k)
    if kind == "l1swl":
        return r.Regularizer_l1swl(w, "db1", 1, **k)
    if kind in ("l12swl", "l12dwl", "lnswl"):
        return getattr(r, "Regularizer_" + kind)(w, "db1", 1, **k)
    if kind == "l2swl2":
        return r.Regularizer_Hub_swl(w, "db1", 2, 0.25, **k)
    if kind in ("Hub_swl", "Hub_dwl"):
        return getattr(r, "Regularizer_" + kind)(w, "db1", 1, 0.25, **k)
    if kind in ("TNV", "vSVD"):
        return getattr(r, "Regularizer_" + kind)(w, **k)
    if kind == "l1dwl":
        return r.Regularizer_l1dwl(w, "db1", 1, **k)
    if kind == "fft":
        return r.Regularizer_fft(w, **k)
    if kind == "VTV":
        return r.Regularizer_VTV(w, **k)
    raise KeyError(kind)


SH = dict(TV1D=(4,), smooth1D=(4,), lap1D=(4,), TV3D=(2, 2, 2), lap3D=(2, 2, 2), TV2D=(2, 3), smooth2D=(2, 3), lap2D=(3, 3), HubTV2D=(2, 3), HubTV3D=(2, 2, 1), smooth3D=(1, 2, 2),
          l1=(2, 3), l1swl=(4, 4), l12swl=(4, 4), l1dwl=(4, 4), fft=(2, 2), VTV=(2, 2, 2),
          l12dwl=(2, 4), Hub_swl=(2, 4), Hub_dwl=(4, 2), lnswl=(2, 2, 2), TNV=(2, 2, 2))
L1 = ["TV1D", "TV2D", "TV3D", "lap1D", "lap2D", "lap3D", "l1", "l1swl", "l12swl", "l1dwl", "fft"]


@case("P06", params=[dict(kind=k) for k in SH])
def dual_step(c, kind):
    """initialize -> zero dual of the operator's shape; update adds sigma * op(x), once; x untouched."""
    w = c.real("w", 0, 3)
    r = reg(kind, w)
    x = c.array("x", SH[kind], -2, 2, dtype=np.float32)
    x0 = x.copy()
    tau = r.initialize_sigma_tau(x)
    d = r.initialize_dual()
    c.shape("dual_shape", d, r.op.adj_shape)
    c.close("dual_zero", d, 0.0)
    d0 = c.array("d", tuple(int(i) for i in r.op.adj_shape), -2, 2, dtype=np.float32)
    d = d0.copy()
    r.update_dual(d, x)
    c.close("ascent", d, d0 + (1.0 if kind == "l1" else r.sigma) * r.op(x), tol=1e-4)
    c.close("primal_untouched", x, x0)
    c.check("tau_finite", np.all(np.asarray(tau) >= 0))
    d = d0.copy()
    u = r.compute_update_primal(d)
    wl2 = kind.startswith(("smooth", "Hub")) or kind in ("TNV", "lnswl")
    c.close("descent_direction", u, r.op.T(d0) * (w if wl2 else 1.0), tol=1e-4)
    c.close("dual_untouched", d, d0)


@case("P06", params=[dict(kind=k, mk=m) for k in ("TV2D", "l1", "smooth2D") for m in ("float",)])
def update_mask(c, kind, mk):
    """The update mask limits where the regularizer acts, and weighs its share of the step size."""
    w = c.real("w", 0.1, 3)
    x = c.array("x", SH[kind], -2, 2, dtype=np.float32)
    m = c.array("m", SH[kind], 0, 1)
    r, r0 = reg(kind, w, upd_mask=m), reg(kind, w)
    t, t0 = r.initialize_sigma_tau(x), r0.initialize_sigma_tau(x)
    c.close("tau", t * np.ones(SH[kind]), t0 * m, tol=1e-4)
    d = c.array("d", tuple(int(i) for i in r.op.adj_shape), -2, 2, dtype=np.float32)
    d0 = d.copy()
    c.close("update", r.compute_update_primal(d), r0.compute_update_primal(d0.copy()) * m, tol=1e-4)
    c.close("dual_untouched", d, d0)


@case("P06", params=[dict(norm=n) for n in ("l2", "Huber", "l12")])
def update_weight_identity(c, norm):
    """Identity-operator regularizers with other norms: computing the update leaves the dual as it was."""
    from corrct import data_terms as dt
    from corrct import regularizers as rg

    nm = dict(l2=dt.DataFidelity_l2, Huber=lambda: dt.DataFidelity_Huber(0.5), l12=dt.DataFidelity_l12)[norm]()
    r = rg.Regularizer_l1(c.real("w", 0, 3), norm=nm)
    x = c.array("x", (2, 2), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    d = c.array("d", (2, 2), -2, 2, dtype=np.float32)
    d0 = d.copy()
    r.compute_update_primal(d)
    c.close("dual_untouched", d, d0)


@case("P06", params=[dict(kind=k, wz=z) for k in ("l1", "lap1D", "l1dwl", "l1swl") for z in ("pos", "zero")])
def dual_l1(c, kind, wz):
    """l1 type: the dual is clipped to [-weight, weight]; a zero weight gives a zero dual."""
    w = c.real("w", 0, 3) if wz == "pos" else 0.0
    r = reg(kind, w)
    x = c.array("x", SH[kind], -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    d0 = c.array("d", tuple(int(i) for i in r.op.adj_shape), -3, 3, dtype=np.float32)
    d = d0.copy()
    r.apply_proximal_dual(d)
    c.finite("finite", d)
    c.close("clip", d, clip(d0, w))


@case("P06", params=[dict(kind=k) for k in ("TV1D", "TV2D", "fft")] )
def dual_l12(c, kind):
    """l12 type: the vectors along the first axis are projected on the ball of radius weight."""
    w = c.real("w", 0, 3)
    r = reg(kind, w)
    x = c.array("x", (3,) if kind == "TV1D" else (1, 2), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    d0 = c.array("d", tuple(int(i) for i in r.op.adj_shape), -3, 3, dtype=np.float32)
    d = d0.copy()
    r.apply_proximal_dual(d)
    n = np.sqrt((d0 * d0).sum(axis=0, keepdims=True))
    c.finite("finite", d)
    c.close("formula", d * np.maximum(n, w), d0 * w)


@case("P06", params=[dict(kind=k) for k in ("smooth1D", "smooth3D", "HubTV2D", "HubTV3D")])
def dual_l2(c, kind):
    r = reg(kind, c.real("w", 0.1, 3))
    shp = {"smooth1D": (3,), "smooth3D": (1, 1, 2), "HubTV3D": (2, 1, 1)}.get(kind, (1, 2))
    x = c.array("x", shp, -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    d0 = c.array("d", tuple(int(i) for i in r.op.adj_shape), -3, 3, dtype=np.float32)
    d = d0.copy()
    r.apply_proximal_dual(d)
    if "smooth" in kind:
        c.close("scaled", d * (1 + r.sigma), d0)
    else:
        v = d0 / (1 + r.sigma * 0.25)
        c.close("huber", d * np.maximum(np.sqrt((v * v).sum(axis=0, keepdims=True)), 1), v, tol=1e-4)


@case("P06", params=[dict(k=k, nd=n, ch=m) for k, n, m in (("TNV", 2, 1), ("TNV", 1, 2), ("TNV", 1, 3), ("lnswl", 1, 1), ("vSVD", 1, 2))], budget=90)
def dual_nuclear(c, k, nd, ch):
    """Nuclear norms of one channel (or one derivative) are l2 norms: the dual is projected on the unit ball for each pixel; vSVD clips singular values at the weight."""
    w = c.real("w", 0.1, 3)
    from corrct import regularizers as rg

    r = rg.Regularizer_lnswl(w, "db1", 1, ndims=1) if k == "lnswl" else reg(k, w, ndims=nd)
    x = c.array("x", (ch, *((2,) * nd)), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    S = tuple(int(i) for i in r.op.adj_shape)
    if k == "vSVD":
        d0 = c.array("d", S, -3, 3)
        d = d0.copy()
        r.apply_proximal_dual(d)
        c.close("clip", d, clip(d0, w))
        return
    d0 = np.zeros(S)
    pix = (1,) * nd
    v = c.array("v", (S[0], ch), -3, 3)
    d0[(slice(None), slice(None), *pix)] = v
    d = d0.copy()
    r.apply_proximal_dual(d)
    n = np.sqrt((v * v).sum())
    c.close("ball", d[(slice(None), slice(None), *pix)] * np.maximum(n, 1), v, tol=1e-3)


@case("P06", params=[dict(norm=n, ch=m, nd=d) for n in ("l2", "Huber", "l1b") for m, d in ((1, 2), (2 if n == "l1b" else 3, 1))], budget=90)
def spectral_norms(c, norm, ch, nd):
    """The step of the spectral norm is taken on the singular values: for one channel (or one derivative) on the norm of the gradient of each pixel, with the step size of the gradient."""
    from corrct import data_terms as dt
    from corrct import regularizers as rg

    sn = dict(l2=dt.DataFidelity_l2, Huber=lambda: dt.DataFidelity_Huber(0.5), l1b=lambda: dt.DataFidelity_l1b(0.25))[norm]()
    r = rg.Regularizer_TNV(1.0, ndims=nd, spectral_norm=sn)
    x = c.array("x", (ch, *((2,) * nd)), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    S = tuple(int(i) for i in r.op.adj_shape)
    d0 = np.zeros(S)
    pix = (1,) * nd
    v = c.array("v", (S[0], ch), -3, 3)
    n = np.sqrt((v * v).sum())
    c.assume(n >= 0.01)
    d0[(slice(None), slice(None), *pix)] = v
    d = d0.copy()
    r.apply_proximal_dual(d)
    sig = float(np.max(r.sigma))
    if norm == "l2":
        m = n / (1 + sig)
    elif norm == "Huber":
        m = np.minimum(n / (1 + sig * 0.5), 1)
    else:
        m = np.minimum(np.maximum(n - sig * 0.25, 0), 1)
    c.close("step", d[(slice(None), slice(None), *pix)] * n, v * m, tol=1e-3)


@case("P06", params=[dict(mask=m) for m in (False, True)], budget=90)
def vsvd_update(c, mask):
    """vSVD: the dual holds the (rescaled) singular values of the channels' images, whose update gives back the image, masked."""
    m = c.array("m", (2, 2), 0, 1) if mask else None
    r = reg("vSVD", c.real("w", 0, 2), ndims=1, upd_mask=m)
    x = np.array([[1.0, 2.0], [-0.5, 1.0]])
    x0 = x.copy()
    t = r.initialize_sigma_tau(x)
    c.close("tau", t * np.ones((2, 2)), m if mask else 1.0)
    d = r.initialize_dual()
    c.shape("dual", d, (2,))
    r.update_dual(d, x)
    u = r.compute_update_primal(d)
    c.close("update", u, x0 * (m if mask else 1.0), tol=1e-3)
    c.close("untouched", x, x0)
    c.close("values", d, np.linalg.svd(x0)[1] / 2, tol=1e-4)
    q = c.array("q", (2,), -4, 4)
    p = q.copy()
    r.apply_proximal_dual(p)
    for i in range(2):
        c.check(f"limit_{i}", (abs(p[i]) <= r.weight + 1e-6) & ((p[i] - q[i]) * q[i] <= 1e-5) & ((abs(q[i]) > r.weight - 1e-6) | (abs(p[i] - q[i]) < 1e-5)))


@case("P06", params=[dict(k=k, lvl=v) for k, v in (("Hub_swl", 1), ("Hub_dwl", 1), ("Hub_swl", 2))])
def dual_huber_wavelets(c, k, lvl):
    """Huber wavelets: each coefficient is damped by its step and threshold, then kept within [-1, 1]."""
    from corrct import regularizers as rg

    h = 0.25
    r = getattr(rg, "Regularizer_" + k)(c.real("w", 0.1, 2), "db1", lvl, h, ndims=1)
    x = c.array("x", (4,), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    d0 = np.zeros(tuple(int(i) for i in r.op.adj_shape))
    if k == "Hub_dwl":
        d0[:] = c.array("d", d0.shape, -3, 3)
    else:
        d0[:, 1] = c.array("d", d0.shape[:1], -3, 3)
    d = d0.copy()
    r.apply_proximal_dual(d)
    v = d0 / (1 + h * r.sigma * np.ones(d0.shape))
    c.close("huber", d, clip(v, 1.0), tol=1e-4)


@case("P06", params=[dict(appr=a, shape=s, nd=n) for a in (True, False) for s, n in (((2, 4), 2), ((4, 4), 2), ((2, 2, 4), 2), ((2, 4), 1))])
def dual_l12dwl(c, appr, shape, nd):
    """l12 decimated wavelets: the details of one position share one ball, each approximation coefficient has its own (or is dropped by the step)."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    r = rg.Regularizer_l12dwl(w, "db1", 1, ndims=nd, min_approx=appr)
    x = c.array("x", shape, -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    q = r.op(x)
    S = tuple(int(i) for i in r.op.adj_shape)
    c.shape("shape", q, S)
    low = (slice(0, S[-1] // 2),) if nd == 1 else (slice(0, S[-2] // 2), slice(0, S[-1] // 2))
    if not appr:
        d = r.initialize_dual()
        r.update_dual(d, x)
        e = r.sigma * q
        e[(..., *low)] = 0
        c.close("no_approximation", d, e, tol=1e-4)
        return
    d0 = np.zeros(S)
    first = (slice(None),) + (0,) * (len(S) - 1)
    h, g = S[-2] // 2, S[-1] // 2
    lead = (len(S) - 2) * (0,)
    bands = ((0, 0), (h, 0), (0, g), (h, g)) if nd == 2 else ((0, 0), (0, g))
    v = c.array("v", (len(bands),), -3, 3)
    for i, p in enumerate(bands):
        d0[lead + p] = v[i]
    other = lead + ((1, 0) if nd == 1 or h > 1 else (0, 1))
    u = c.real("u", -3, 3)
    d0[other] = u
    d = d0.copy()
    r.apply_proximal_dual(d)
    n = np.sqrt((v[1:] * v[1:]).sum())
    c.close("approx", d[lead + bands[0]], clip(v[:1], w)[0])
    c.close("other", d[other], clip(np.array([u]), w)[0])
    for i, p in enumerate(bands[1:]):
        c.close(f"detail{i}", d[lead + p] * np.maximum(n, w), v[1 + i] * w, tol=1e-4)


@case("P06", params=[dict(lvl=1, shape=(2, 2)), dict(lvl=2, shape=(4,))])
def dual_l12swl(c, lvl, shape):
    """l12 stationary wavelets: the detail bands of one level share one ball; the approximation has its own."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    r = rg.Regularizer_l12swl(w, "db1", lvl, ndims=len(shape))
    x = c.array("x", shape, -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    S = tuple(int(i) for i in r.op.adj_shape)
    d0 = np.zeros(S)
    pix = (0,) * len(shape)
    v = c.array("v", (S[0],), -3, 3)
    d0[(slice(None), *pix)] = v
    d = d0.copy()
    r.apply_proximal_dual(d)
    nb = 2 ** len(shape) - 1
    got = d[(slice(None), *pix)]
    c.close("approx", got[:1], clip(v[:1], w))
    for l in range(lvl):
        g = v[1 + l * nb : 1 + (l + 1) * nb]
        n = np.sqrt((g * g).sum())
        c.close(f"level{l}", got[1 + l * nb : 1 + (l + 1) * nb] * np.maximum(n, w), g * w)


@case("P06")
def l12swl_level_groups(c):
    """Two levels in 2D: bands of different levels never share a ball."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    r = rg.Regularizer_l12swl(w, "db1", 2)
    x = c.array("x", (4, 4), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    S = tuple(int(i) for i in r.op.adj_shape)
    a, b = c.array("a", (3,), -3, 3), c.array("b", (3,), -3, 3)
    d = np.zeros(S)
    d[1:4, 0, 0] = a
    d[4:7, 0, 0] = b
    r.apply_proximal_dual(d)
    c.close("level1", d[1:4, 0, 0] * np.maximum(np.sqrt((a * a).sum()), w), a * w)
    c.close("level2", d[4:7, 0, 0] * np.maximum(np.sqrt((b * b).sum()), w), b * w)


@case("P06", params=[dict(der=p, chan=q, wz=z) for p in (1, 2, np.inf) for q in (1, 2, np.inf) for z in ("pos",)] + [dict(der=2, chan=np.inf, wz="zero")])
def dual_vtv(c, der, chan, wz):
    """VTV: each pixel's dual is scaled back on the dual ball of the (derivative, channel) norm."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2) if wz == "pos" else 0.0
    r = rg.Regularizer_VTV(w, ndims=1, pwise_der_norm=der, pwise_chan_norm=chan)
    x = np.zeros((2, 2), dtype=np.float32)
    r.initialize_sigma_tau(x)
    d = c.array("d", (1, 2, 2), -3, 3, dtype=np.float32)
    d0 = d.copy()
    r.apply_proximal_dual(d)
    g = np.abs(d0)  # one derivative: all its norms are the absolute value
    if chan == 1:
        n = g
    elif chan == 2:
        n = np.sqrt((g * g).sum(axis=1, keepdims=True))
    else:
        n = g.sum(axis=1, keepdims=True)
    c.finite("finite", d)
    c.close("formula", d * np.maximum(n, w), d0 * w)


@case("P06", params=[dict(der=p, chan=q) for p in (1, 2, np.inf) for q in (1, 2, np.inf)])
def dual_vtv_derivatives(c, der, chan):
    """VTV of images with several derivatives: each pixel's dual is scaled back on the dual ball of the norm over derivatives, then channels; any dual."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    r = rg.Regularizer_VTV(w, ndims=2, pwise_der_norm=der, pwise_chan_norm=chan)
    r.initialize_sigma_tau(np.zeros((2, 1, 1), dtype=np.float32))
    d = c.array("d", (2, 2, 1, 1), -3, 3, dtype=np.float32)
    d0 = d.copy()
    r.apply_proximal_dual(d)
    n = np.abs(d0)
    if der != 1:
        n = np.sqrt((d0 * d0).sum(axis=0, keepdims=True)) if der == 2 else n.sum(axis=0, keepdims=True)
    if chan != 1:
        n = np.sqrt((n * n).sum(axis=1, keepdims=True)) if chan == 2 else n.sum(axis=1, keepdims=True)
    c.close("formula", d * np.maximum(n, w), d0 * w, tol=1e-3)


@case("P06", params=[dict(k=k, der=a, chan=b) for k, a, b in (("VTV", 3, 1), ("VTV", 1, 3), ("vl1wl", 3, 1), ("vl1wl", 1, 0))])
def norms_refused(c, k, der, chan):
    """Vector regularizers with other norms than 1, 2, or infinity are refused; any dual."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)

    def run():
        if k == "VTV":
            r = rg.Regularizer_VTV(w, ndims=1, pwise_der_norm=der, pwise_chan_norm=chan)
        else:
            r = rg.Regularizer_vl1wl(w, "db1", 1, ndims=1, pwise_lvl_norm=der, pwise_chan_norm=chan)
        r.initialize_sigma_tau(np.zeros((2, 2), dtype=np.float32))
        d = c.array("d", (1, 2, 2) if k == "VTV" else (2, 2, 2), -3, 3, dtype=np.float32)
        r.apply_proximal_dual(d)

    c.raises("refused", ValueError, run)


@case("P06")
def dual_vtv_reference(c):
    """A reference channel joins the channel norm and is removed again."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    xr = c.array("xr", (2,), -2, 2, dtype=np.float32)
    r = rg.Regularizer_VTV(w, ndims=1, x_ref=xr)
    r.initialize_sigma_tau(np.zeros((2, 2), dtype=np.float32))
    d = c.array("d", (1, 2, 2), -3, 3, dtype=np.float32)
    d0 = d.copy()
    r.apply_proximal_dual(d)
    q = np.stack([r.sigma * (xr[1] - xr[0]), 0 * xr[0]])
    n = np.abs(d0).sum(axis=1, keepdims=True) + np.abs(q)
    c.shape("shape", d, (1, 2, 2))
    c.close("formula", d * np.maximum(n, w), d0 * w)


@case("P06", params=[dict(lvl=p, chan=np.inf, ref=x, norm=n) for p in (1, 2, np.inf) for x, n in ((False, False), (True, False))] + [dict(lvl=1, chan=np.inf, ref=True, norm=True), dict(lvl=1, chan=1, ref=True, norm=False), dict(lvl=np.inf, chan=2, ref=False, norm=False)])
def dual_vl1wl(c, lvl, chan, ref, norm):
    """Vectorial wavelets: the channel (and level) norm of the dual stays within the weight; a reference counts as one more channel, on the scale of the dual of one update, and is removed again; any dual (without reference), any reference (with a few duals)."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2) if chan != np.inf else 0.75
    xr = c.array("xr", (2,), -2, 2, dtype=np.float32) if ref else None
    r = rg.Regularizer_vl1wl(w, "db1", 1, ndims=1, pwise_lvl_norm=lvl, pwise_chan_norm=chan, normalized=norm, x_ref=xr)
    r.initialize_sigma_tau(np.zeros((2, 2), dtype=np.float32))
    d = np.concatenate((np.array([[[1.0], [2.5]], [[-2.0], [0.5]]], dtype=np.float32) if ref else c.array("d", (2, 2, 1), -3, 3, dtype=np.float32), np.array([[[1.5], [-2.0]], [[0.25], [3.0]]], dtype=np.float32)), axis=2)
    d0 = d.copy()
    r.apply_proximal_dual(d)
    full = d0
    if ref:
        o = rg.Regularizer_vl1wl(w, "db1", 1, ndims=1, normalized=norm)
        o.initialize_sigma_tau(np.zeros((2, 2), dtype=np.float32))
        q = o.initialize_dual()
        o.update_dual(q, np.stack([xr, xr]))
        q = q[:, :1]
        full = np.concatenate((d0, q), axis=1)
    g = np.abs(full)
    if lvl == 2:
        g = np.sqrt((full * full).sum(axis=0, keepdims=True))
    elif lvl == np.inf:
        g = g.sum(axis=0, keepdims=True)
    n = g.sum(axis=1, keepdims=True) if chan == np.inf else np.sqrt((g * g).sum(axis=1, keepdims=True)) if chan == 2 else g[:, :2]
    c.shape("shape", d, (2, 2, 2))
    c.finite("finite", d)
    c.close("formula", d * np.maximum(n, w), d0 * w, tol=1e-4)


# -- primal proximals ------------------------------------------------------
@case("P06", params=[dict(wk=w, mask=m) for w in ("scalar", "array") for m in (False, True)])
def primal_l1(c, wk, mask):
    from corrct import regularizers as rg

    S = (2, 2)
    w = c.real("w", 0, 3) if wk == "scalar" else c.array("w", S, 0, 3)
    m = c.boolarray("m", S).astype(np.float64) if mask else None
    r = rg.Regularizer_l1(w, upd_mask=m)
    x = c.array("x", S, -4, 4, dtype=np.float32)
    tau = c.real("tau", 0, 2)
    r.initialize_sigma_tau(x)
    p = x.copy()
    r.apply_proximal_primal(p, tau)
    ref = soft(x, tau * w)
    if mask:
        ref = ref * m + x * (1 - m)
    c.close("soft_threshold", p, ref)


@case("P06", params=[dict(fam=f, appr=a, lvl=l) for f in ("swl", "dwl") for a in (True, False) for l in (1, 2)])
def primal_wavelet(c, fam, appr, lvl):
    """Primal proximal: transform, soft-threshold the bands (approximation on request), transform back."""
    from corrct import operators as ops
    from corrct import regularizers as rg

    S = (4,)
    w, tau = c.real("w", 0, 3), c.real("tau", 0.05, 2)
    if fam == "swl":
        r = rg.Regularizer_l1swl(w, "db1", lvl, ndims=1, normalized=True, min_approx=appr)
    else:
        r = rg.Regularizer_l1dwl(w, "db1", lvl, ndims=1, min_approx=appr)
    x = c.array("x", S, -2, 2, dtype=np.float32)
    p = x.copy()
    r.initialize_sigma_tau(x)
    r.apply_proximal_primal(p, tau)
    A = ops.TransformStationaryWavelet(S, "db1", lvl) if fam == "swl" else ops.TransformDecimatedWavelet(S, "db1", lvl, pad_on_demand="constant")
    k = A(x)
    na = 1 if fam == "swl" else int(A.sub_band_shapes[0][0])
    s = soft(k, tau * w)
    if not appr:
        s = np.concatenate((k[:na], s[na:]))
    c.close("formula", p, A.T(s), tol=1e-4)


@case("P06", params=[dict(kind=k) for k in ("TV2D", "smooth2D", "lap2D", "l1med", "swl")])
def unsupported_primal(c, kind):
    from corrct import regularizers as rg

    if kind == "l1med":
        r = rg.Regularizer_l1med(0.5)
    elif kind == "swl":
        r = rg.Regularizer_l1swl(0.5, "db1", 1)
    else:
        r = reg(kind, 0.5)
    x = c.array("x", (4, 4), -3, 3, dtype=np.float32)
    x0 = x.copy()
    r.initialize_sigma_tau(x)
    c.raises("not_implemented", NotImplementedError, lambda: r.apply_proximal_primal(x, 0.5))
    c.close("untouched", x, x0)


@case("P06")
def primal_fft(c):
    """Fourier l1: zero weight is the identity, and the mean is never penalised by the delta filter."""
    from corrct import data_terms as dt
    from corrct import regularizers as rg

    w, tau = c.real("w", 0, 3), c.real("tau", 0.05, 2)
    r = rg.Regularizer_fft(w, ndims=1, fft_filter="delta", norm=dt.DataFidelity_l1())
    x = c.array("x", (2,), -2, 2, dtype=np.float32)
    p = x.copy()
    r.initialize_sigma_tau(x)
    r.apply_proximal_primal(p, tau)
    c.close("mean_kept", p.sum(), x.sum(), tol=1e-4)
    c.close("difference_thresholded", (p[0] - p[1]) * 0.7071067811865476, soft((x[0] - x[1]) * 0.7071067811865476, tau * w), tol=1e-4)


@case("P06")
def median_dual(c):
    """Median regularizer: the dual moves along x - median(x)."""
    from corrct import regularizers as rg

    r = rg.Regularizer_l1med(c.real("w", 0, 2), filt_size=3)
    x = c.array("x", (3,), -2, 2, dtype=np.float32)
    r.initialize_sigma_tau(x)
    d = c.array("d", (3,), -2, 2, dtype=np.float32)
    d0 = d.copy()
    r.update_dual(d, x)
    s = x[0] + x[1] + x[2]
    mx, mn = np.maximum(np.maximum(x[0], x[1]), x[2]), np.minimum(np.minimum(x[0], x[1]), x[2])
    c.close("centre", d[1] - d0[1], x[1] - (s - mx - mn))


@case("P06")
def not_initialised(c):
    """Before initialisation a regularizer refuses to work."""
    from corrct import regularizers as rg

    r = rg.Regularizer_TV2D(0.5)
    x = c.array("x", (2, 2), -1, 1, dtype=np.float32)
    c.raises("initialize_dual", ValueError, r.initialize_dual)
    c.raises("update_dual", ValueError, lambda: r.update_dual(x, x))
    c.raises("compute_update", ValueError, lambda: r.compute_update_primal(x))
    for k in ("swl", "dwl", "l1swl", "l1dwl", "l12swl", "l12dwl"):
        r = axes_reg(k, 0.5, 2)
        d = np.stack([x, x, x, x])
        c.raises(f"update_dual_{k}", ValueError, lambda: r.update_dual(d, x))
        c.raises(f"initialize_dual_{k}", ValueError, r.initialize_dual)
        if k.endswith("dwl"):
            c.raises(f"primal_{k}", ValueError, lambda: r.apply_proximal_primal(x, 1.0))


def axes_reg(kind, w, nd, axes=None):
    from corrct import regularizers as r

    kw = {} if axes is None else dict(axes=axes)
    if kind.startswith("fft"):
        return r.Regularizer_fft(w, ndims=nd, fft_filter=kind[4:], **kw)
    if kind.split("_")[-1] in ("swl", "dwl", "l1swl", "l1dwl", "l12swl", "l12dwl"):
        return getattr(r, "Regularizer_" + kind)(w, "db1", 1, *([0.25] if kind[:3] == "Hub" else []), ndims=nd, **kw)
    if kind in ("Grad", "lap", "vSVD"):
        return getattr(r, "Regularizer_" + kind)(w, ndims=nd, **kw)
    if kind == "laps":
        return getattr(r, f"Regularizer_lap{nd}D")(w, **kw)
    if kind in ("HubTV", "TV", "smooth"):
        return getattr(r, f"Regularizer_{kind}{nd}D")(w, *([0.25] if kind == "HubTV" else []), **kw)
    raise KeyError(kind)


AXES = [((4, 2, 2), (0,)), ((2, 4, 2), (1,)), ((2, 4, 2), (-2,)), ((4, 4, 2), (0, 1)), ((2, 4, 4), [1, 2]), ((4, 2, 4), (-3, -1))]


@case("P06", params=[dict(kind=k, sh=s, ax=a) for k in ("TV", "smooth", "HubTV", "Grad", "lap", "fft_exp", "fft_exp2", "fft_delta") for s, a in AXES if len(a) > 1 or k != "HubTV"] + [dict(kind=k, sh=s, ax=a) for k in ("l1swl", "l1dwl", "l12swl") for s, a in AXES[:5]] + [dict(kind="laps", sh=s, ax=a) for s, a in AXES if len(a) < 3] + [dict(kind=k, sh=s, ax=a) for k in ("l12dwl", "Hub_swl", "Hub_dwl", "swl", "dwl") for s, a in AXES[:4:3]] + [dict(kind=k, sh=(2, 2, 2, 2), ax=a) for k in ("TV", "smooth", "HubTV", "laps") for a in ((0, 1, 2), (0, 1, 3))], budget=90)
def chosen_axes(c, kind, sh, ax):
    """Regularizers along chosen axes (counted from the first or the last, in tuples, lists or arrays) treat the images along the others separately, each as the regularizer of fewer dimensions would: same dual ascent, primal update, step size and dual limits; any images."""
    w = c.real("w", 0.1, 2)
    x = c.array("x", sh, -2, 2, dtype=np.float32)
    nd = len(ax)
    N = len(sh)
    ps = [a % N for a in ax]
    rest = [i for i in range(N) if i not in ps]

    def run(r, x):
        tau = r.initialize_sigma_tau(x)
        d = r.initialize_dual()
        r.update_dual(d, x)
        return tau, d.copy(), r.compute_update_primal(d)

    tau, d, u = run(axes_reg(kind, w, nd, np.array(ax) if kind.startswith("fft") else ax), x)
    c.shape("shape", u, sh)
    for n, ix in enumerate(np.ndindex(*[sh[i] for i in rest])):
        sl = [slice(None)] * N
        for i, q in zip(rest, ix):
            sl[i] = q
        t1, d1, u1 = run(axes_reg(kind, w, nd), x[tuple(sl)])
        c.close(f"update_{n}", u[tuple(sl)], u1, tol=1e-4)
        c.close(f"step_{n}", np.asarray(tau), np.asarray(t1), tol=1e-5)
        if d.ndim == N + 1:
            c.close(f"dual_{n}", d[(slice(None), *sl)], d1, tol=1e-4)


@case("P06", params=[dict(kind=k, nd=n, ax=a) for k in ("Grad", "lap", "swl", "dwl", "l1swl", "l1dwl", "fft_exp") for n, a in ((2, (0,)), (1, (-1,)), (1, (0, 1)), (3, (1,)))] + [dict(kind="vSVD", nd=1, ax=(1, 2)), dict(kind="vSVD", nd=3, ax=(-1, -2))])
def mismatched_axes(c, kind, nd, ax):
    """When the number of axes differs from the number of dimensions given, the axes decide: same dual ascent, primal update, step size and dual limits as without the wrong number; any images."""
    w = c.real("w", 0.1, 2)
    x = c.array("x", (1, 1, 2) if kind == "vSVD" else (2, 4), -2, 2, dtype=np.float32)

    def run(r, x):
        tau = r.initialize_sigma_tau(x)
        d = r.initialize_dual()
        r.update_dual(d, x)
        u = r.compute_update_primal(d)
        if kind not in ("vSVD", "fft_exp"):
            r.apply_proximal_dual(d)
        return tau, d, u

    a, b = run(axes_reg(kind, w, nd, ax), x), run(axes_reg(kind, w, len(ax), ax), x)
    for n, p, q in zip(("step", "dual", "update"), a, b):
        c.close(n, np.asarray(p), np.asarray(q), tol=1e-4)


@case("P06", params=[dict(n=n, k=k) for n, k in ((1, "l2med"), (2, "l2med"), (1, "l1med"))])
def median_step(c, n, k):
    """Median regularizers: without differences from the median the dual stays the same, the update mask weighs the step, and the l2 one's dual is damped; any values."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    v = c.real("v", -2, 2)
    r = getattr(rg, "Regularizer_" + k)(w, filt_size=3)
    x = np.stack([v] * 3**n).reshape((3,) * n)
    tau = r.initialize_sigma_tau(x)
    d0 = c.array("d", (3,) * n, -2, 2, dtype=np.float32)
    d = d0.copy()
    r.update_dual(d, x)
    c.close("flat", d, d0, tol=1e-5)
    c.close("tau", np.asarray(tau), w if k == "l2med" else 1.0, tol=1e-5)
    if k == "l2med":
        r.apply_proximal_dual(d)
        c.close("damped", d * 2.0, d0, tol=1e-4)


@case("P06", params=[dict(kind=k, norm=n) for k in ("swl", "dwl", "fft", "l1", "med") for n in ("l2", "l12")])
def step_masks(c, kind, norm):
    """Regularizers with norms of choice: the step size holds the mask of each pixel, and the weight where the dual limits (of the l1 family) do not; any weights and masks."""
    from corrct import data_terms as dt
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    m = c.array("m", (2, 4), 0, 1)
    nm = lambda: dict(l2=dt.DataFidelity_l2, l12=dt.DataFidelity_l12)[norm]()
    x = c.array("x", (2, 4), -1, 1, dtype=np.float32)

    def make(w, m, nm):
        if kind in ("swl", "dwl"):
            return getattr(rg, "Regularizer_" + kind)(w, "db1", 1, ndims=1, upd_mask=m, norm=nm)
        if kind == "fft":
            return rg.Regularizer_fft(w, upd_mask=m, norm=nm)
        if kind == "l1":
            return rg.Regularizer_l1(w, upd_mask=m, norm=nm)
        return rg.BaseRegularizer_med(w, upd_mask=m, norm=nm)

    t = make(w, m, nm()).initialize_sigma_tau(x)
    one = make(1.0, None, dt.DataFidelity_l1()).initialize_sigma_tau(x)
    f = w if norm == "l2" else 1.0
    c.close("step", np.asarray(t) * np.ones((2, 4)), f * m * float(np.asarray(one)), tol=1e-4)


@case("P06", params=[dict(kind=k, norm=n) for k in ("l1swl", "l12swl", "vl1wl", "lnswl", "Hub_swl") for n in (False, True)])
def approximation(c, kind, norm):
    """Stationary wavelet regularizers that leave the approximation out: its dual stays zero, the duals of the details are those of the regularizer that includes it; any images and duals."""
    from corrct import regularizers as rg

    w = c.real("w", 0.1, 2)
    sh = (2, 4) if kind in ("vl1wl", "lnswl") else (4,)
    x = c.array("x", sh, -2, 2, dtype=np.float32)
    dd = None
    out = []
    for m in (True, False):
        a = (0.3,) if kind == "Hub_swl" else ()
        r = getattr(rg, "Regularizer_" + kind)(w, "db1", 1, *a, ndims=1, min_approx=m, normalized=norm)
        r.initialize_sigma_tau(x)
        d = r.initialize_dual()
        if dd is None:
            dd = c.array("d", d.shape, -1, 1, dtype=np.float32)
        d[...] = dd
        r.update_dual(d, x)
        out.append(d)
    c.close("approximation", out[1][0], 0.0, tol=0)
    c.close("details", out[1][1:], out[0][1:], tol=1e-6)
