"""P24: phase contrast: propagation filters."""

import numpy as np

from harness.p16 import patched
from harness.p23 import xrl
from vf.ctx import case


def physics_params(c):
    return dict(dist_um=c.real("dist", 0.5, 2), wlength_um=c.real("wl", 0.1, 0.5), delta_beta=c.real("db", 0, 10))


def freqs(n, d):
    return [((k if k <= (n - 1) // 2 else k - n)) / (n * d) for k in range(n)]


@case("P24", params=[dict(ft=t, shape=s) for t in ("ctf", "tie") for s in ((4,), (2, 3), (3, 2), (5,))])
def responses(c, ft, shape):
    """Filters are 1 + db pi wl d k^2 (TIE) or cos(x) + db sin(x) with x = pi wl d k^2 (CTF) at the frequencies of the image, halved along the last axis with real transforms, one at the zero frequency; the direct filter sums to the zero frequency; any distance, wavelength, delta over beta; pixel size listed."""
    from corrct.physics import phase

    p = physics_params(c)
    pix = 1.5
    ff, fd = phase.get_propagation_filter(shape, pix, **p, filter_type=ft, use_rfft=False, dtype=np.float64)
    fr, fdr = phase.get_propagation_filter(list(shape), pix, **p, filter_type=ft.upper(), use_rfft=True, dtype=np.float64)
    c.shape("full", ff, shape)
    c.shape("half", fr, (*shape[:-1], shape[-1] // 2 + 1))
    c.shape("direct", fd, shape)
    fq = [freqs(n, pix) for n in shape]
    for ix in np.ndindex(*shape):
        k2 = sum(fq[a][i] ** 2 for a, i in enumerate(ix))
        x = p["dist_um"] * p["wlength_um"] * np.pi * k2
        want = 1 + p["delta_beta"] * x if ft == "tie" else np.cos(x) + p["delta_beta"] * np.sin(x)
        c.close(f"val_{ix}", ff[ix], want, tol=1e-3)
        if ix[-1] <= shape[-1] // 2:
            c.close(f"half_{ix}", fr[ix], want, tol=1e-3)
    c.close("zero", ff[(0,) * len(shape)], 1.0, tol=1e-6)
    c.close("sum", fd.sum(), 1.0, tol=1e-3)
    c.close("same", fdr, fd, tol=1e-3)


@case("P24")
def unknown_filter(c):
    """Unknown filter types are refused; any distance."""
    from corrct.physics import phase

    d = c.real("d", 1, 2)
    c.raises("type", ValueError, lambda: phase.get_propagation_filter((2, 2), 1.0, d, 0.1, 1.0, filter_type="other"))


@case("P24", params=[dict(shape=s, ft=f) for s, f in (((2, 2), "tie"), ((3, 2), "tie"), ((2, 3), "tie"), ((2, 2, 2), "tie"), ((2, 2), "ctf"))])
def apply(c, shape, ft):
    """Filtering divides the spectrum of the edge-padded image by the propagation response and crops the image back: the response applied to the padded result gives the padded image; any images, listed responses."""
    from corrct.physics import phase

    x = c.array("x", shape, -2, 2)
    x0 = x.copy()
    pix, d, wl, db = 1.5, 1.3, 0.4, 3.0
    got = phase.apply_propagation_filter(x, pix, d, wl, db, filter_type=ft)
    c.shape("shape", got, shape)
    c.close("input", x, x0, tol=0)
    h, w = shape[-2:]
    pv, pu = h - h // 2, w - w // 2
    H, W = 2 * h, 2 * w
    fv, fu = np.fft.fftfreq(H, pix), np.fft.fftfreq(W, pix)
    s = np.pi * wl * d * (fv[:, None] ** 2 + fu[None, :] ** 2)
    resp = 1 + db * s if ft == "tie" else np.cos(s) + db * np.sin(s)
    ker = np.fft.ifft2(1 / resp).real  # circular kernel

    def clip(i, n):
        return min(max(i, 0), n - 1)

    for pre in np.ndindex(*shape[:-2]):
        for i in range(h):
            for j in range(w):
                want = sum(
                    float(ker[(i + pv - a) % H, (j + pu - b) % W]) * x[(*pre, clip(a - pv, h), clip(b - pu, w))]
                    for a in range(H) for b in range(W))
                c.close(f"val_{pre}_{i}_{j}", got[(*pre, i, j)], want, tol=1e-3)


@case("P24", params=[dict(ft=t) for t in ("tie", "ctf")])
def constant(c, ft):
    """Filtering leaves constant images unchanged, and images of a stack are filtered independently; any constants, distance and delta over beta."""
    from corrct.physics import phase

    a, b = c.real("a", -2, 2), c.real("b", -2, 2)
    one = np.ones((2, 2))
    st = np.stack([one * a, one * b])
    db = c.real("db", 0.5, 2) if ft == "tie" else 2.0
    got = phase.apply_propagation_filter(st, 1.5, 1.3, 0.4, db, filter_type=ft)
    for i, v in enumerate((a, b)):
        c.close(f"const_{i}", got[i], one * v, tol=1e-3)


@case("P24", params=[dict(rho=r) for r in (False, True)])
def delta_beta(c, rho):
    """Delta over beta is (1 - real part) / imaginary part of the refractive index at the density of the compound, at each energy of the curves and in order; any refractive indices."""
    from corrct.physics import phase, xraylib_helper

    r = c.real("rho", 0.5, 3) if rho else None
    tab = {}

    class Ind:
        def __init__(self, re, im):
            self.real, self.imag = re, im

    seen = []

    def index(name, e, density):
        seen.append((name, density))
        k = (name, float(e))
        if k not in tab:
            tab[k] = Ind(c.real(f"re_{len(tab)}", 0, 0.9), c.real(f"im_{len(tab)}", 0.1, 1))
        return tab[k]

    ctx, look = xrl(c)
    with ctx, patched(xraylib_helper.xraylib, Refractive_Index=index):
        got = phase.get_delta_beta("CaCO3", 10.0, density=r)
        curves = phase.get_delta_beta_curves(["CaCO3", "SiO2"], (1.0, 3.0, 2), plot=False)
        cmp = xraylib_helper.get_compound("CaCO3", density=r)
    v = tab[("CaCO3", 10.0)]
    c.close("value", got * v.imag, 1 - v.real, tol=1e-5)
    c.close("density", seen[0][1], cmp["density"], tol=1e-6)
    c.check("curves", len(curves) == 2)
    for n, cu in zip(("CaCO3", "SiO2"), curves):
        for i, e in enumerate((1.0, 3.0)):
            v = tab[(n, e)]
            c.close(f"curve_{n}_{i}", cu[i] * v.imag, 1 - v.real, tol=1e-5)


@case("P24", params=[dict(n=n, dom=d) for n in (4, 5) for d in ("fourier", "direct")])
def plot(c, n, dom):
    """Plots of the responses show both responses at the frequencies (or positions) of a filter of that length; any distance and delta over beta."""
    import matplotlib.pyplot as plt

    from corrct.physics import phase

    calls = []

    class Ax:
        def plot(self, x, y, **k):
            calls.append((np.array(x), y))

        def __getattr__(self, k):
            return lambda *a, **kw: None

    p = dict(dist_um=c.real("dist", 0.5, 2), wlength_um=0.3, delta_beta=c.real("db", 0, 10))
    with patched(plt, subplots=lambda *a, **k: (Ax(), Ax())):
        phase.plot_filter_responses(n, 1.5, **p, domain=dom)
        c.raises("domain", ValueError, lambda: phase.plot_filter_responses(n, 1.5, **p, domain="other"))
    c.check("two", len(calls) == 2)
    for x, y in calls:
        c.shape("len", y, x.shape)
    if dom == "fourier":
        for i, k in enumerate(np.fft.rfftfreq(n, 1.5)):
            c.close(f"tie_{i}", calls[0][1][i], 1 + p["delta_beta"] * p["dist_um"] * 0.3 * np.pi * k**2, tol=1e-3)
    else:
        c.check("count", len(calls[0][0]) == n)
        c.close("sum", calls[0][1].sum(), 1.0, tol=1e-3)
