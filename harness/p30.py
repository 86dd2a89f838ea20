"""P30: diagnostic plots show the data and quantities they claim to show.

matplotlib is replaced by a recorder: what is drawn is compared with a reference.
"""

from contextlib import contextmanager

import numpy as np

from harness.p16 import patched
from harness.p29 import quiet
from vf.ctx import case


class Tick:
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return Tick()

    def __call__(self, *a, **k):
        return Tick()


class Line(Tick):
    def __init__(self, label):
        self.label = label

    def get_label(self):
        return self.label


class Ax:
    """Records everything drawn on it."""

    xaxis = yaxis = Tick()

    def __init__(self):
        self.curves, self.images, self.points, self.vlines, self.bars, self.errors, self.stems, self.arrows = [], [], [], [], [], [], [], []
        self.twin = None

    def plot(self, *a, label=None, **k):
        x, y = a if len(a) == 2 else (None, a[0])
        self.curves.append((None if x is None else np.array(x), np.array(y), label))  # copies, like matplotlib
        return [Line(label)]

    semilogx = semilogy = loglog = plot

    def imshow(self, im, extent=None, **k):
        self.images.append((np.array(im), extent))
        return Tick()

    def scatter(self, x, y, **k):
        self.points.append((x, y))
        return Tick()

    def axvline(self, x=0, **k):
        self.vlines.append(x)
        return Tick()

    def bar(self, x, y, width=0.8, **k):
        self.bars.append((x, y, width))
        return Tick()

    def errorbar(self, x, y, yerr=None, **k):
        self.errors.append((np.array(x), np.array(y), yerr))
        return Tick()

    def stem(self, x, y, label=None, **k):
        self.stems.append((x, y, label))
        return Tick()

    def arrow(self, *a, **k):
        self.arrows.append(a)

    def twinx(self):
        self.twin = Ax()
        return self.twin

    def get_xticklabels(self):
        return []

    get_yticklabels = get_xticklabels

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: Tick()


@contextmanager
def canvas():
    """Yields the list of figures drawn: arrays of axes (or one)."""
    import matplotlib.pyplot as plt

    figs = []
    shown = []

    def subplots(nrows=1, ncols=1, squeeze=True, **k):
        a = np.empty((nrows, ncols), dtype=object)
        for i in np.ndindex(*a.shape):
            a[i] = Ax()
        out = a if not squeeze else a[0, 0] if a.size == 1 else a.reshape(-1) if 1 in a.shape else a
        figs.append(a.reshape(-1))
        return Tick(), out

    with patched(plt, subplots=subplots, show=lambda *a, **k: shown.append(1)), quiet():
        yield figs, shown


@contextmanager
def tables(c, energies, names):
    """Cross-sections are inputs, one per compound and energy."""
    from corrct.physics import attenuation

    tab = {(n, i): c.real(f"cs_{n}_{i}", 0.1, 3) for n in names for i in range(len(energies))}

    def find(cmp, e):
        i = int(np.argmin(np.abs(np.array(energies) - float(e))))
        assert abs(energies[i] - float(e)) < 1e-4, (e, energies)
        return tab[cmp["name"], i]

    with patched(attenuation, get_compound_cross_section=find, get_compound=lambda n: dict(name=n, density=2.0)):
        yield tab


@case("P30", params=[dict(kind=k) for k in ("one", "dict", "list")])
def transmittance(c, kind):
    """Transmittance decays: one curve per compound (given by name or description, alone or in lists), exp(-thickness x density x cross-section) at the thicknesses of the range, and shown; any cross-sections and densities."""
    from corrct.physics import attenuation

    rho = c.real("rho", 0.5, 4)
    cm = dict(one="A", dict=dict(name="A", density=rho), list=["A", dict(name="B", density=rho)])[kind]
    with tables(c, [20.0], ["A", "B"]) as tab, canvas() as (figs, shown):
        attenuation.plot_transmittance_decay(cm, 20.0, (0.0, 3e3, 3))
    ax = figs[0][0]
    c.check("shown", len(shown) == 1)
    c.check("curves", [q[2] for q in ax.curves] == ["A", "B"][: 2 if kind == "list" else 1])
    for q in ax.curves:
        d = 2.0 if kind == "one" or (kind == "list" and q[2] == "A") else rho
        c.close("x_" + q[2], q[0], np.array([0.0, 1.5e3, 3e3]), tol=1e-6)
        for i, t in enumerate((0.0, 0.15, 0.3)):
            c.close(f"y_{q[2]}_{i}", q[1][i], np.exp(-(t * d * tab[q[2], 0])), tol=1e-4)


SHAPES = dict(gaussian=(7, 3.0), lorentzian=(27, 13.0), **{"sech**2": (9, 4.0)})


@case("P30", params=[dict(shape=s) for s in SHAPES] + [dict(shape="Gaussian")])
def emission_line(c, shape):
    """Attenuated emission lines: the line is symmetric around its energy, with maximum one and half of it at half of the width; transmittances are exp(-thickness x density x cross-section at each energy), the measured line is their product, and the effective energy its mean; any cross-sections."""
    from corrct.physics import attenuation

    n, span = SHAPES[shape.lower()]
    e = 10.0 + 0.2 * span * np.linspace(-0.5, 0.5, n)
    few = [n // 2 - 1, n // 2, n // 2 + 1]
    with tables(c, [10.0], ["A"]) as tab, canvas() as (figs, shown):
        cs = [tab["A", 0] if i in few else 0.5 for i in range(n)]
        cs[n // 2 + 1] = c.real("other", 0.1, 3)

        def find(cmp, q):
            i = int(np.argmin(np.abs(e - float(q))))
            assert abs(e[i] - float(q)) < 1e-4
            return cs[i]

        with patched(attenuation, get_compound_cross_section=find):
            attenuation.plot_emission_line_attenuation("A", 2e3, 10.0, 0.2, shape, n)
            c.raises("unknown", ValueError, lambda: attenuation.plot_emission_line_attenuation("A", 2e3, 10.0, 0.2, "box", n))
    ax = figs[0][0]
    c.check("curves", len(ax.curves) == 1 and len(ax.twin.curves) == 2)
    x, line, _ = ax.curves[0]
    c.close("energies", x, e, tol=1e-6)
    c.close("centre", line[n // 2], 1.0, tol=1e-6)
    h = int(round((n - 1) / span / 2))
    c.close("half", line[[n // 2 - h, n // 2 + h]], np.array([0.5, 0.5]), tol=1e-6)
    c.close("symmetric", line, line[::-1], tol=1e-6)
    att = np.stack([np.exp(-(0.2 * 2.0 * q)) for q in cs])
    c.close("transmittance", ax.twin.curves[0][1], att, tol=1e-4)
    c.close("measured", ax.twin.curves[1][1], att * line, tol=1e-4)
    c.close("line_mean", ax.vlines[0], 10.0, tol=1e-6)
    w = att * line
    c.close("mean", ax.twin.vlines[0] * w.sum(), (e * w).sum(), tol=1e-3)


def beam(a):
    """Direction of the beam in the plot: downwards (from the first row to the last) at 0, to the right at 90 degrees."""
    return np.array([np.sin(a), -np.cos(a)])


@case("P30", params=[dict(shape=s, axes=a, ind=i) for s, a, i in (((2, 2), None, None), ((2, 3), None, None), ((2, 3, 4), None, 1), ((2, 3, 4), (-3, -1), 2), ((2, 3, 4), (-3, -2), 1), ((3, 3, 3), (-3, -1), 0))])
def attenuation_map(c, shape, axes, ind):
    """Attenuation plots draw the map of the chosen angle, detector, and slice, over the coordinates of its columns (horizontally) and rows; slices across the rotation axis have arrows along the incoming and outgoing beams; any maps."""
    from corrct.physics.attenuation import AttenuationVolume

    rot, det = (0.0, 0.7), (np.pi / 2, 0.4)
    m = AttenuationVolume(np.zeros(shape), None, rot, det)
    m.maps = c.array("m", (2, 2, *shape), 0, 1)
    ax = Ax()
    kw = dict(axes=axes) if axes else {}
    ext = m.plot_map(ax, 1, 1, slice_ind=ind, **kw)
    full = m.maps[1, 1]
    want = full if len(shape) == 2 else np.take(full, ind, axis=next(a for a in (-3, -2, -1) if a not in (axes or (-2, -1))))
    c.check("one", len(ax.images) == 1)
    c.shape("shape", ax.images[0][0], want.shape)
    c.close("image", ax.images[0][0], want, tol=1e-9)
    r, q = ((s - 1) / 2 for s in want.shape)
    for nm, v in (("drawn", ax.images[0][1]), ("returned", ext)):
        c.close("extent_" + nm, np.array(v, dtype=float), np.array([-q, q, -r, r]), tol=1e-9)
    if (axes or (-2, -1)) == (-2, -1):
        c.check("arrows", len(ax.arrows) == 2)
        for a, ang in zip(ax.arrows, (0.7, 1.1)):
            d = np.array(a[2:4], dtype=float)
            c.close(f"direction_{ang}", d / np.linalg.norm(d), beam(ang), tol=1e-6)
        i, e = ax.arrows
        c.close("in_tip", np.array(i[0:2], dtype=float) + np.array(i[2:4], dtype=float), np.zeros(2), tol=1e-6)
        c.close("out_start", np.array(e[0:2], dtype=float), np.zeros(2), tol=1e-6)
    else:
        c.check("no_arrows", not ax.arrows)
    if len(shape) == 3:
        c.raises("slice", ValueError, lambda: m.plot_map(ax, 0, 0))


@case("P30", params=[dict(shape=s, zero=z) for s in ((2, 2), (1, 3, 3)) for z in (False, True)])
def fourier(c, shape, zero):
    """Fourier inspection draws the real and imaginary parts and the absolute values of the centred spectrum of the image, and its profiles through the zero frequency (vertical, horizontal, diagonal), without it if asked; images with any value of one pixel."""
    from corrct.processing import misc

    x = np.arange(np.prod(shape)).reshape(shape) * 0.5
    x = np.concatenate((x[..., :-1, :], x[..., -1:, :] + np.concatenate((c.array("x", (*shape[:-2], 1, 1), -2, 2), np.zeros((*shape[:-2], 1, shape[-1] - 1))), axis=-1)), axis=-2)
    with canvas() as (figs, shown):
        misc.inspect_fourier_img(x, remove_zero=zero)
    n = shape[-1]
    k = np.arange(n)
    w = np.exp(-2j * np.pi * np.outer(k, k) / n)
    y = x.reshape(n, n)
    re = np.real(w) @ y @ np.real(w) - np.imag(w) @ y @ np.imag(w)
    im = np.real(w) @ y @ np.imag(w) + np.imag(w) @ y @ np.real(w)
    if zero:
        re[0, 0] = 0.0
        im[0, 0] = 0.0
    h = n // 2
    sh = (k - h) % n
    axs = figs[0]
    c.check("shown", len(shown) == 1)
    ref = [re[np.ix_(sh, sh)], im[np.ix_(sh, sh)]]
    for i in range(2):
        c.close(f"image_{i}", axs[i].images[0][0], ref[i], tol=1e-6)
    a = axs[2].images[0][0]
    c.close("abs", a * a, ref[0] ** 2 + ref[1] ** 2, tol=1e-3)
    c.check("abs_positive", (a >= 0).all())
    for i, sel in enumerate(((slice(None), h), (h, slice(None)), (np.arange(n), np.arange(n)))):
        q = axs[3 + i].curves[0][1]
        c.shape(f"profile_shape_{i}", q, (n, 3))
        for j in range(2):
            c.close(f"profile_{i}_{j}", q[:, j], ref[j][sel], tol=1e-6)
        c.close(f"profile_{i}_abs", q[:, 2] * q[:, 2], ref[0][sel] ** 2 + ref[1][sel] ** 2, tol=1e-3)


@case("P30", params=[dict(ab=a, nf=n) for a in (False, True) for n in (1, 2)])
def fbp_filters(c, ab, nf):
    """Filter plots draw every filter in real space, and in Fourier space (its absolute value if asked); any filters."""
    from corrct import filters

    f = c.array("f", (nf, 4), -2, 2)
    m = filters.FilterCustom(f if nf > 1 else f[0])
    real = np.array(m.filter_real, ndmin=2)
    with canvas() as (figs, shown):
        m.plot_filters(fourier_abs=ab)
    r, q = figs[0][:2]
    c.check("curves", len(r.curves) == nf and len(q.curves) == nf)
    for i in range(nf):
        c.close(f"real_{i}", r.curves[i][1], real[i], tol=1e-6)
        c.close(f"fourier_{i}", q.curves[i][1], np.abs(f[i]) if ab else f[i], tol=1e-6)


@case("P30", params=[dict(ss=s, none=n) for s in (1, 2) for n in (False, True)])
def frc_curves(c, ss, none):
    """Plots of correlation curves draw the curve of each pair against the frequency in Nyquist units, the last threshold, and a stem where each of them crosses it, if it does; any curves."""
    from corrct.processing import post

    n = 5
    cur = [c.array(f"c{i}", (n,), 0, 1) for i in range(2)]
    thr = c.array("t", (n,), 0, 1)
    at = [(c.real("p0", 0, 4), c.real("v0", 0, 1)), None if none else (c.real("p1", 0, 4), c.real("v1", 0, 1))]
    pairs = [(np.full((2, 2), 1.0 + i), np.full((2, 2), 3.0 + i)) for i in range(2)]
    seen = []

    def frc(a, b, **k):
        i = int(a[0, 0]) - 1
        assert b[0, 0] == 3 + i
        seen.append(k["supersampling"])
        return cur[i], thr

    with canvas() as (figs, shown), patched(post, compute_frc=frc, estimate_resolution=lambda f, t: at[0] if f is cur[0] else at[1]):
        post.plot_frcs(pairs, ["a", "b"], supersampling=ss, title="t")
    ax = figs[0][0]
    c.check("supersampling", seen == [ss, ss])
    c.check("curves", len(ax.curves) == 3 and [q[2] for q in ax.curves[:2]] == ["a", "b"])
    for i, q in enumerate((*cur, thr)):
        c.close(f"x_{i}", ax.curves[i][0], np.arange(n) * ss / (n - 1), tol=1e-6)
        c.close(f"y_{i}", ax.curves[i][1], q, tol=1e-6)
    c.check("stems", len(ax.stems) == (1 if none else 2))
    for i, q in enumerate(ax.stems):
        c.close(f"stem_x_{i}", q[0] * (n - 1), at[i][0] * ss, tol=1e-4)
        c.close(f"stem_y_{i}", q[1], at[i][1], tol=1e-6)
        c.check(f"stem_label_{i}", q[2].startswith("ab"[i]))


@case("P30", params=[dict(std=s, scale=k) for s in (False, True) for k in ("linear", "log")])
def fitted_minimum(c, std, scale):
    """Plots of fitted minima draw the measured values (with their spread), the parabola through the three points around the smallest, and its vertex; any values."""
    from corrct import param_tuning as pt

    hp = np.array([1.0, 2.0, 3.0, 4.0]) if scale == "linear" else np.array([1.0, 10.0, 100.0, 1000.0])
    u = hp if scale == "linear" else np.arange(4.0)
    f = c.array("f", (4,), 0, 4)
    c.assume(f[1] + 0.5 <= f[0])
    c.assume(f[1] + 0.5 <= f[2])
    c.assume(f[1] + 0.5 <= f[3])
    sd = np.array([0.1, 0.2, 0.3, 0.4]) if std else None
    with canvas() as (figs, shown):
        x, y = pt.fit_func_min(hp, f, f_stds=sd, scale=scale, plot_result=True)
    ax = figs[0][0]
    data = ax.errors[0] if std else ax.curves[0]
    c.close("x", data[0], hp, tol=1e-6)
    c.close("y", data[1], f, tol=1e-6)
    if std:
        c.close("spread", np.asarray(data[2]), sd, tol=1e-6)
    px, py, _ = ax.curves[-1]
    t = px if scale == "linear" else np.log10(px)
    ends = [0, len(px) // 2, len(px) - 1]
    c.close("ends", np.array([t[0], t[-1]]), np.array([u[0], u[2]]), tol=1e-4)
    for i in ends:
        s = float(t[i]) - u[0]
        want = f[0] * (s - 1) * (s - 2) / 2 - f[1] * s * (s - 2) + f[2] * s * (s - 1) / 2
        c.close(f"parabola_{i}", py[i], want, tol=1e-3)
    if scale == "linear":
        c.close("vertex_y", ax.points[0][1], y, tol=1e-4)
        c.close("vertex_x", ax.points[0][0], x, tol=1e-4)


@case("P30")
def cv_curves(c):
    """Cross-validation curves are the relative residuals of every hyper-parameter value; any residuals."""
    from corrct import param_tuning as pt
    from corrct.solvers import SolutionInfo

    infos = []
    for i in range(2):
        q = SolutionInfo("m", max_iterations=3, tolerance=None, residual0=1.0, residual0_cv=c.real(f"c{i}", 0.5, 2))
        q.residuals_cv[:] = c.array(f"r{i}", (3,), 0, 2)
        infos.append(q)
    with canvas() as (figs, shown):
        pt.plot_cv_curves(infos, [0.5, 2.0])
    ax = figs[0][0]
    c.check("curves", len(ax.curves) == 2)
    for i, q in enumerate(infos):
        c.close(f"y_{i}", ax.curves[i][1] * q.residual0_cv, q.residuals_cv, tol=1e-4)
        c.check(f"label_{i}", ("5.000e-01", "2.000e+00")[i] in ax.curves[i][2])


@case("P30", params=[dict(size=n, vox=v) for n in (1, 2) for v in (1.0, 2.0)])
def beam_profile(c, size, vox):
    """Plots of beam profiles draw the returned PSF as bars over the pixels they belong to, and the shape of the beam over the same pixels: it averages to the bars, up to a factor; any beam width among three."""
    from corrct import physics

    w = [0.5, 1.0, 1.5][c.concretize(c.integer("w", 0, 2))]
    with canvas() as (figs, shown):
        y = physics.pencil_beam_profile(vox, w, size, verbose=True)
    a, b = figs[0][:2]
    n = 2 * size + 1
    c.close("bars_x", b.bars[0][0], np.arange(n) - size, tol=1e-6)
    c.close("bars_y", b.bars[0][1], y, tol=1e-9)
    x, s, _ = b.curves[0]
    c.close("span", np.array([x[0], x[-1]]), np.array([-n / 2, n / 2]), tol=1e-6)
    c.close("beam_span", a.curves[2][0], x * vox, tol=1e-6)
    c.close("beam", a.curves[2][1], s, tol=1e-9)


@case("P30", params=[dict(st=s) for s in ((2,), (2, 2))])
def masks(c, st):
    """Mask inspection draws the encoding and decoding mask of the chosen shift (or the first); any masks."""
    from corrct.struct_illum import MaskCollection

    e, d = c.array("e", (*st, 2, 3), 0, 1), c.array("d", (*st, 2, 3), -1, 1)
    m = MaskCollection(e, d)
    for nm, ix in (("first", None), ("last", tuple(s - 1 for s in st))) if st else (("first", None),):
        with canvas() as (figs, shown):
            m.inspect_masks(ix)
        i = ix if ix is not None else (0,) * len(st)
        c.close("enc_" + nm, figs[0][0].images[0][0], e[i], tol=1e-9)
        c.close("dec_" + nm, figs[0][1].images[0][0], d[i], tol=1e-9)


ANGS = np.array([1.3, 0.1, 2.9, 0.6])


@case("P30", params=[dict(method=m, nd=n) for m in ("com", "max") for n in (2, 3)])
def horizontal_fit(c, method, nd):
    """Plots of horizontal fits draw the position of the sample at every (unsorted) angle, over the fitted sinusoid and its bias along the sorted angles, and on the sinogram; any fitted sinusoid, few sinograms."""
    from corrct.alignment import fitting, shifts

    im = np.array([[0.0, 1.0, 3.0, 0.0], [2.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 4.0], [1.0, 3.0, 1.0, 0.0]])
    a, b = c.real("a", -1, 1), c.real("b", -1, 1)
    s = shifts.DetectorShiftsPRE(im if nd == 2 else np.stack([im * 0.5, im * 1.5]), ANGS, verbose=True)
    with canvas() as (figs, shown), patched(fitting, fit_sinusoid=lambda *args, **k: (a, 0.4, b)):
        s.fit_u(method=method)
    ax, sn = figs[0][:2]
    pos = (im * np.arange(4)).sum(axis=1) / im.sum(axis=1) if method == "com" else np.argmax(im, axis=1)
    so = np.sort(ANGS)
    c.close("angles", ax.points[0][0], np.rad2deg(ANGS), tol=1e-3)
    c.close("positions", ax.points[0][1], 1.5 - pos, tol=1e-6)
    for q in ax.curves:
        c.close("sorted_" + q[2][:4], q[0], np.rad2deg(so), tol=1e-3)
    c.close("sinusoid", ax.curves[0][1], np.stack([a * np.sin(t + 0.4) + b for t in so]), tol=1e-4)
    c.close("bias", ax.curves[1][1], np.stack([b] * 4), tol=1e-6)
    c.close("sinogram", sn.images[0][0], im, tol=1e-6)
    c.close("on_sinogram_u", np.asarray(sn.points[0][0]), pos, tol=1e-6)
    c.close("on_sinogram_w", np.asarray(sn.points[0][1]), np.arange(4), tol=1e-6)


@case("P30", params=[dict(nd=2), dict(nd=3)])
def drift_fit(c, nd):
    """Plots of accumulated drifts draw the shifts found along the sorted angles, with the bias and the sinusoid of the horizontal ones; any shifts and sinusoid."""
    from corrct.alignment import fitting, shifts

    rel = c.array("rel", (2, 4), -0.5, 0.5)
    a, b = c.real("a", -1, 1), c.real("b", -1, 1)
    data = np.zeros((4, 3) if nd == 2 else (4, 4, 3))
    data[..., :, 0] = np.arange(4)
    s = shifts.DetectorShiftsXC(data, ANGS, max_shifts=50.0, verbose=True)
    order = [1, 3, 0, 2]
    s.find_shifts_vu = lambda p, q, *x, **k: np.stack([np.stack([rel[i, int(q.flat[0])]]) for i in (range(2) if nd == 3 else (1,))])
    with canvas() as (figs, shown), patched(fitting, fit_sinusoid=lambda *args, **k: (a, 0.4, b)):
        s.fit_vu()
    so = np.sort(ANGS)
    cum = np.cumsum(np.stack([0.0 * rel[:, 0], *[rel[:, i] for i in order[1:]]], axis=1), axis=1)
    ax = figs[0][nd - 2]
    c.close("angles", ax.curves[0][0], np.rad2deg(so), tol=1e-3)
    c.close("shifts", ax.curves[0][1], cum[1], tol=1e-4)
    c.close("bias", ax.curves[1][1], np.stack([b] * 4), tol=1e-6)
    c.close("sinusoid", ax.curves[2][1], np.stack([a * np.sin(t + 0.4) + b for t in so]), tol=1e-4)
    if nd == 3:
        c.close("vertical", figs[0][0].curves[0][1], cum[0] - cum[0].mean(), tol=0.02)
        c.close("zero", figs[0][0].curves[1][1], np.zeros(4), tol=1e-9)
