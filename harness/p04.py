"""P04: data-term residuals and their norms: background once, mask, weights, slicing, no side effects."""

import numpy as np

from vf.ctx import case


def term(c, kind, bg):
    from corrct import data_terms as dt

    if kind == "l2":
        return dt.DataFidelity_l2(background=bg)
    if kind == "wl2":
        return dt.DataFidelity_wl2(c.array("w", (2, 2), 0, 4), background=bg)
    if kind == "l2b":
        return dt.DataFidelity_l2b(c.real("err", 0.05, 2), background=bg)
    if kind == "hub":
        return dt.DataFidelity_Huber(c.real("err", 0.05, 2), background=bg)
    if kind == "l1":
        return dt.DataFidelity_l1(background=bg)
    if kind == "l12":
        return dt.DataFidelity_l12(background=bg)
    if kind == "l1b":
        return dt.DataFidelity_l1b(c.real("err", 0.05, 2), background=bg)
    return dt.DataFidelity_KL(background=bg)


LIN = ["l2", "hub", "l1", "l12", "l1b"]
S = (2, 2)


@case("P04", params=[dict(kind=k, bgk=b) for k in LIN + ["wl2"] for b in ("none", "scalar", "array")])
def residual(c, kind, bgk):
    """residual == mask * weight * (data - projection - background), nothing is modified in place."""
    bg = None if bgk == "none" else (c.real("bg", -2, 2) if bgk == "scalar" else c.array("bg", S, -2, 2))
    t = term(c, kind, bg)
    b = c.array("b", S, -3, 3)
    z = c.array("z", S, -3, 3)
    m = c.array("m", S, 0, 1)
    b0, z0, m0 = b.copy(), z.copy(), m.copy()
    t.assign_data(b, c.real("sig", 0.1, 3))
    w = t.weights if kind == "wl2" else 1.0
    ref = (b0 - z0 - (0.0 if bg is None else bg)) * w
    c.close("residual", t.compute_residual(z), ref)
    c.close("residual_masked", t.compute_residual(z, m), ref * m0)
    c.close("projection_untouched", z, z0)
    c.close("data_untouched", b, b0)
    c.close("mask_untouched", m, m0)
    b[0, 0] = 7.0
    c.close("data_copied", t.compute_residual(z0), ref)
    t.assign_data(None)
    if kind != "wl2":
        c.close("no_data", t.compute_residual(z0), z0 + (0.0 if bg is None else bg))


@case("P04", params=[dict(kind=k, bgk=b) for k in LIN + ["wl2"] for b in ("none", "array")])
def residual_no_data(c, kind, bgk):
    """Terms without data (regularisers): residual == mask * weight * (projection + background), inputs untouched."""
    bg = None if bgk == "none" else c.array("bg", S, -2, 2)
    bg0 = None if bg is None else bg.copy()
    t = term(c, kind, bg)
    z, m = c.array("z", S, -3, 3), c.array("m", S, 0, 1)
    z0, m0 = z.copy(), m.copy()
    t.assign_data(None, c.real("sig", 0.1, 3))
    w = t.weights if kind == "wl2" else 1.0
    ref = (z0 + (0.0 if bg is None else bg0)) * w
    r = t.compute_residual(z)
    c.close("residual", r, ref)
    r[...] = 0.5  # the residual is the caller's to change
    c.close("owned", z, z0)
    c.close("residual_masked", t.compute_residual(z, m), ref * m0)
    c.close("projection_untouched", z, z0)
    c.close("mask_untouched", m, m0)
    if bg is not None:
        c.close("background_untouched", bg, bg0)


@case("P04", params=[dict(kind=k) for k in LIN + ["wl2", "l2b", "kl", "klp"]])
def background_is_a_shift(c, kind):
    """A background is the same as adding it to the projection, everywhere it enters."""
    bg = c.array("bg", S, 0, 2)
    lo = 0.1 if kind.startswith("kl") else -3
    b, z = c.array("b", S, lo, 3), c.array("z", S, lo, 3)
    sig = c.real("sig", 0.1, 3)
    kw = {} if kind not in ("kl", "klp") else dict(use_proximal=kind == "klp")
    from corrct import data_terms as dt

    if kind == "wl2":
        w = c.array("w", S, 0, 4)
        t1, t2 = dt.DataFidelity_wl2(w, background=bg), dt.DataFidelity_wl2(w)
    else:
        e = c.real("e", 0.05, 2)
        mk = dict(l2=dt.DataFidelity_l2, hub=lambda background=None: dt.DataFidelity_Huber(e, background=background),
                  l1=dt.DataFidelity_l1, l12=dt.DataFidelity_l12, l1b=lambda background=None: dt.DataFidelity_l1b(e, background=background),
                  l2b=lambda background=None: dt.DataFidelity_l2b(e, background=background), kl=dt.DataFidelity_KL, klp=dt.DataFidelity_KL)[kind]
        t1, t2 = mk(background=bg), mk()
    t1.assign_data(b, sig)
    t2.assign_data(b, sig)
    c.close("residual", t1.compute_residual(z, **kw), t2.compute_residual(z + bg, **kw))
    d1, d2 = c.array("d", S, -2, 2), None
    d2 = d1.copy()
    d3 = d1.copy()
    t1.update_dual(d1, z)
    t2.update_dual(d2, z + bg)
    c.close("update_dual", d1, d2)
    c.close("update_dual_def", d1, d3 + sig * (z + bg))


@case("P04", params=[dict(kind=k) for k in ("hub", "l1", "l1b")], qt=30)
def gap_background(c, kind):
    """The primal-dual gap sees a background as a shift of the projection (1-D data)."""
    from corrct import data_terms as dt

    bg = c.array("bg", (2,), 0, 2)
    b, z, d = c.array("b", (2,), -3, 3), c.array("z", (2,), -3, 3), c.array("d", (2,), -2, 2)
    e = c.real("e", 0.05, 2)
    mk = dict(hub=lambda background=None: dt.DataFidelity_Huber(e, background=background), l1=dt.DataFidelity_l1,
              l1b=lambda background=None: dt.DataFidelity_l1b(e, background=background))[kind]
    t1, t2 = mk(background=bg), mk()
    t1.assign_data(b)
    t2.assign_data(b)
    c.close("gap", t1.compute_primal_dual_gap(z, d), t2.compute_primal_dual_gap(z + bg, d))


@case("P04", params=[dict(kind=k) for k in ("l2", "wl2", "hub", "l1", "l12", "l1b", "kl")])
def residual_norm(c, kind):
    """Norm of a residual, element by element, from the definition of each term."""
    t = term(c, kind, None)
    r = c.array("r", S, -3, 3)
    r0 = r.copy()
    if kind == "wl2":
        t.assign_data(c.array("b", S, -3, 3))
        r = r * t.weights  # what compute_residual returns
        n = t.compute_residual_norm(r)
        c.close("norm", n, (t.weights * r0 * r0).sum())
        return
    if kind in ("l1b", "hub"):
        t.assign_data(c.array("b", S, -3, 3), c.real("s", 0.05, 3))
    n = t.compute_residual_norm(r)
    if kind == "l2":
        ref = (r0 * r0).sum()
    elif kind in ("l1", "kl"):
        ref = np.abs(r0).sum()
    elif kind == "l12":
        ref = np.sqrt((r0 * r0).sum(axis=0)).sum()
    elif kind == "l1b":
        ref = np.maximum(np.abs(r0) - t.local_error, 0).sum()
    else:
        ref = 0.0
        for v in r0.flatten():
            ref = ref + c.ite(np.abs(v) <= t.local_error, v * v, np.abs(v))
    c.close("norm", n, ref)
    c.close("residual_untouched", r, r0)


@case("P04")
def l2b_residual(c):
    """l2 ball, any dual step: deviations within sqrt(error) of the data give no residual."""
    from corrct import data_terms as dt

    s = c.real("s", 0.1, 2)
    t = dt.DataFidelity_l2b(s * s)
    b, z = c.array("b", S, -3, 3), c.array("z", S, -3, 3)
    t.assign_data(b, c.real("sigma", 0.2, 2))
    d = b - z
    c.close("dead_zone", t.compute_residual(z), np.sign(d) * np.maximum(np.abs(d) - s, 0))


@case("P04")
def kl_residual(c):
    """KL residual without proximal: minus the gradient of sum(z - b log z)."""
    from corrct import data_terms as dt

    t = dt.DataFidelity_KL()
    b, z = c.array("b", S, -1, 3), c.array("z", S, 0.1, 3)
    m = c.array("m", S, 0, 1)
    t.assign_data(b)
    r = t.compute_residual(z, m, use_proximal=False)
    c.close("gradient", r * z, m * (np.maximum(b, 0) - z))
    # without data: sum(z)
    t.assign_data(None)
    c.close("no_data", t.compute_residual(z, m, use_proximal=False), -m)


IND = [0, 1, slice(0, 1), (slice(None), 1), (slice(0, 2), slice(1, 2))]


@case("P04", params=[dict(kind=k, i=i) for k in ("l2", "wl2", "l1", "hub", "kl") for i in range(len(IND))])
def slicing(c, kind, i):
    """A sliced data term acts on the slice like the full term acts on the whole."""
    bg = c.array("bg", S, -2, 2)
    from corrct import data_terms as dt

    t = dt.DataFidelity_KL(background=bg) if kind == "kl" else term(c, kind, bg)
    b, z = c.array("b", S, -3, 3), c.array("z", S, -3, 3)
    sig = c.array("sig", S, 0.1, 3)
    t.assign_data(b, sig)
    ix = IND[i]
    full = t.compute_residual(z)
    s = t[ix]
    c.close("residual", s.compute_residual(z[ix]), full[ix])
    c.close("original_residual", t.compute_residual(z), full)
    d = c.array("d", S, -3, 3)
    ds = d[ix].copy()
    s.update_dual(ds, z[ix])
    s.apply_proximal_dual(ds)
    t.update_dual(d, z)
    t.apply_proximal_dual(d)
    c.close("dual_step", ds, d[ix])


@case("P04", params=[dict(bgk=b) for b in ("none", "array")])
def data_dot(c, bgk):
    from corrct import data_terms as dt

    t = dt.DataFidelity_l2(background=None if bgk == "none" else c.array("bg", S, -2, 2))
    b, d, m = c.array("b", S, -3, 3), c.array("d", S, -3, 3), c.array("m", S, 0, 1)
    c.close("no_data", t.compute_data_dual_dot(d), 0.0)
    t.assign_data(b)
    c.close("dot", t.compute_data_dual_dot(d), (b * d).sum())
    c.close("dot_masked", t.compute_data_dual_dot(d, m), (b * d * m).sum())
    d0 = t.initialize_dual()
    c.shape("dual_shape", d0, S)
    c.close("dual_zero", d0, 0.0)


@case("P04", params=[dict(kind=k) for k in LIN + ["wl2", "kl"]])
def integer_data(c, kind):
    """Counts given as integers are used as the numbers they are, also with a fractional background, which later data see unchanged; any counts, projections and backgrounds."""
    bg = c.real("bg", 0.1, 2)
    t = term(c, kind, bg)
    n = c.intarray("n", S, 1, 5)
    b, z, sig = c.array("b", S, 0.5, 5), c.array("z", S, 0.5, 3), c.real("sig", 0.1, 3)
    t.assign_data(n * 1.0, sig)
    want = t.compute_residual(z)
    t.assign_data(b, sig)
    later = t.compute_residual(z)
    t.assign_data(n, sig)
    c.close("integers", t.compute_residual(z), want)
    t.assign_data(b, sig)
    c.close("later", t.compute_residual(z), later)
    c.close("background", t.background, bg, tol=1e-9)
