"""P21: image analysis: masks, radial integration, correlations, spectra, resolution, error maps."""

import numpy as np

from harness.p16 import patched
from vf.ctx import case


@case("P21", params=[dict(sh=s, ball=b, ss=q, org=o) for s, b, q, o in (((3, 4), None, 1, True), ((4, 3), None, 2, False), ((2, 3, 3), None, 1, False), ((3, 2), [-1], 1, True), ((2, 3, 2), [0, 1], 1, False), ((3, 1), [0], 2, False), ((2, 2, 2), [0, 1, 2], 1, True))] + [dict(sh=s, ball=None, ss=q, org=True, norm=n) for s in ((3, 4),) for q in (1, 2) for n in (1, np.inf)])
def circular(c, sh, ball, ss, org, norm=2):
    """Circular masks select exactly the (sub-)pixels whose distance from the origin along the chosen axes is within half of the smallest of their sizes plus the offset; super-sampled masks are the selected fraction; any offset and origin."""
    from corrct.processing import misc

    off = c.real("off", -0.9, 0.9)
    o = [c.real(f"o{i}", -0.4, 0.4) for i in range(len(sh))] if org else None
    got = misc.circular_mask(sh, radius_offset=off, coords_ball=ball, vol_origin_zxy=o, super_sampling=ss, squeeze=False, dtype=np.float64, ball_norm=norm)
    c.shape("shape", got, sh)
    ax = list(range(len(sh)))[-2:] if ball is None else [b % len(sh) for b in ball]
    R = min(sh[a] for a in ax) / 2 + off

    def inside(p):
        if norm == 1:
            return sum(abs(q) for q in p), R
        if norm == np.inf:
            d = abs(p[0])
            for q in p[1:]:
                d = c.ite(abs(q) > d, abs(q), d)
            return d, R
        d2 = sum(q * q for q in p)
        return d2, R * R

    for ix in np.ndindex(*sh):
        tot, near = 0.0, False
        for sub in np.ndindex(*([ss] * len(sh))):
            p = []
            for a in ax:
                pos = (ix[a] * ss + sub[a] - (sh[a] * ss - 1) / 2) / ss
                p.append(pos + (o[a] if org else 0.0))
            d2, r2 = inside(p)
            tot = tot + c.ite((d2 <= r2) & (R >= 0), 1.0, 0.0)
            near = near | (abs(d2 - r2) < 1e-4)
        c.check(f"mask_{ix}", near | (abs(got[ix] - tot / ss ** len(sh)) < 1e-6))
    c.raises("origin", ValueError, lambda: misc.circular_mask(sh, vol_origin_zxy=[0.0] * (len(sh) + 1)))


@case("P21", params=[dict(sh=s, tgt=t) for s in ((4, 4), (2, 3)) for t in ("edge", "diagonal", "value")])
def tapered(c, sh, tgt):
    """Tapered masks are one inside the radius, zero beyond the target and a decreasing half cosine between them, never NaN, for any offset (also without room for the taper)."""
    from corrct.processing import misc

    off = c.real("off", -1.0, 0.5)
    t = 0.5 if tgt == "value" else tgt
    got = misc.circular_mask(sh, radius_offset=off, taper_func="cos", taper_target=t, dtype=np.float64)
    c.shape("shape", got, sh)
    c.finite("finite", got)
    m = min(sh) / 2
    R = m + off
    E = dict(edge=m, diagonal=min(sh) / np.sqrt(2), value=m + 0.5)[tgt]
    ds = np.array([[np.hypot(i - (sh[0] - 1) / 2, j - (sh[1] - 1) / 2) for j in range(sh[1])] for i in range(sh[0])])
    for ix in np.ndindex(*sh):
        d, g = float(ds[ix]), got[ix]
        c.check(f"range_{ix}", (g >= -1e-6) & (g <= 1 + 1e-6))
        near = (abs(R - d) < 1e-3) | (abs(E - d) < 1e-3)
        c.check(f"one_{ix}", near | ~((d < R) & (d < E)) | (abs(g - 1) < 1e-5))
        c.check(f"zero_{ix}", near | ~(d > E) | (abs(g) < 1e-5))
    for a in np.ndindex(*sh):
        for b in np.ndindex(*sh):
            if ds[a] < ds[b] - 1e-6 and ds[b] < ds[a] + 0.8:
                c.check(f"decreasing_{a}_{b}", got[a] >= got[b] - 1e-5)


@case("P21")
def taper_half(c):
    """Half-way between the radius and the target a tapered mask is one half; unknown tapers and targets are refused."""
    from corrct.processing import misc

    off = c.real("off", -1.5, -0.5)
    got = misc.circular_mask((7,), coords_ball=[-1], radius_offset=off, taper_func="cos", taper_target=1.0, dtype=np.float64)
    # radius 3.5 + off, target 4.5: the pixel at distance 3 is half-way when off = -2 -> use the profile instead
    R, E = 3.5 + off, 4.5
    for i in range(7):
        d = abs(i - 3.0)
        x = (d - R) / (E - R)
        c.check(f"upper_{i}", ~((x > 0.01) & (x < 0.49)) | (got[i] > 0.5))
        c.check(f"lower_{i}", ~((x > 0.51) & (x < 0.99)) | (got[i] < 0.5))
    c.raises("func", ValueError, lambda: misc.circular_mask((3, 3), taper_func="lin"))
    c.raises("target", ValueError, lambda: misc.circular_mask((3, 3), taper_func="cos", taper_target="corner"))
    c.raises("type", ValueError, lambda: misc.circular_mask((3, 3), taper_func=3))


@case("P21", params=[dict(sh=s, ss=q, f=k) for s, q, k in (((4, 4), 3, False), ((3, 5), 1, True), ((5,), 5, False), ((4, 3), 3, True))])
def ball(c, sh, ss, f):
    """A ball holds, in each pixel, the fraction of sub-pixels closer to the central pixel than the radius, weighed by the given profile; any radius."""
    from corrct.processing import misc

    R = c.real("R", 0.1, 2.4)
    k = c.real("k", 0.5, 2)
    got = misc.ball(sh, R, super_sampling=ss, dtype=np.float64, func=(lambda r: k + r) if f else None)
    c.shape("shape", got, sh)
    for ix in np.ndindex(*sh):
        tot, near = 0.0, False
        wrap = False
        for sub in np.ndindex(*([ss] * len(sh))):
            p = [i - n // 2 + (s - ss // 2) / ss for i, n, s in zip(ix, sh, sub)]
            wrap = wrap or any(2 * q * ss < -(n * ss) or 2 * q * ss >= n * ss for q, n in zip(p, sh))
            r = float(np.sqrt(sum(q * q for q in p)))
            tot = tot + c.ite(r < R, (k + r) if f else 1.0, 0.0)
            near = near | (abs(r - R) < 1e-4)
        if not wrap:
            c.check(f"val_{ix}", near | (abs(got[ix] - tot / ss ** len(sh)) < 1e-5))


@case("P21", params=[dict(sh=s, ax=a, dom=d) for s, a, d in (((3, 4), (-2, -1), "direct"), ((4, 3), (-2, -1), "fourier"), ((2, 3, 3), (-2, -1), "direct"), ((3, 2, 3), (0, 2), "fourier"), ((2, 5), (-1,), "direct"), ((5,), (0,), "fourier"), ((2, 2, 2), (0, 1, 2), "direct"), ((3, 2), (1, 0), "direct"))])
def azimuthal(c, sh, ax, dom):
    """Azimuthal integration splits every pixel linearly between the two nearest radii, image by image: it preserves the sum, and each bin is the weighed sum of its pixels; any images."""
    from corrct.processing import misc

    x = c.array("x", sh, -2, 2)
    got = misc.azimuthal_integration(x, axes=ax, domain=dom)
    axs = [a % len(sh) for a in ax]
    rest = [i for i in range(len(sh)) if i not in axs]
    dims = [sh[a] for a in axs]
    y = np.transpose(x, rest + axs)
    g = got.reshape((-1, got.shape[-1]))
    y = y.reshape([-1, *dims])
    c.check("stack", tuple(got.shape[:-1]) == tuple(sh[i] for i in rest))
    for q in range(len(y)):
        c.close(f"sum_{q}", g[q].sum(), y[q].sum(), tol=1e-4)
        bins = [0.0] * g.shape[1]
        for ix in np.ndindex(*dims):
            if dom == "direct":
                p = [i - (n - 1) / 2 for i, n in zip(ix, dims)]
            else:
                p = [i if 2 * i < n else i - n for i, n in zip(ix, dims)]
            r = float(np.sqrt(sum(v * v for v in p)))
            lo = int(np.floor(r))
            bins[lo] = bins[lo] + (lo + 1 - r) * y[q][ix]
            if r > lo:
                bins[lo + 1] = bins[lo + 1] + (r - lo) * y[q][ix]
        c.close(f"bins_{q}", g[q], np.stack([b + 0.0 * y[q].reshape(-1)[0] for b in bins]), tol=1e-4)
    c.raises("dims", ValueError, lambda: misc.azimuthal_integration(x.reshape(-1), axes=(0, 1)))


@case("P21", params=[dict(n=n, pos=p, sc=s, lim=l) for n, p, s, l in ((4, "first", False, None), (4, "last", False, None), (4, "first", True, None), (4, "Last", True, None), (5, "first", False, (1, None)), (5, "last", True, (None, 3)), (5, "first", True, (1, 3)))])
def crossing(c, n, pos, sc, lim):
    """The reported crossing lies on both lines, inside the first (last) interval where one line passes the other within the limits, and none is reported only when there is none; any lines."""
    from corrct.processing import misc

    a = c.array("a", (n,), -2, 2)
    b = c.real("b", -2, 2) if sc else c.array("b", (n,), -2, 2)
    bb = np.stack([b] * n) if sc else b
    got = misc.lines_intersection(a, b, position=pos, x_lims=lim)
    lo, hi = (lim or (None, None))
    lo, hi = lo or 0, n - 1 if hi is None else hi
    above = [bb[i] > a[i] for i in range(n)]
    cross = [above[i] ^ above[i + 1] for i in range(lo, hi)]
    some = False
    for k in cross:
        some = some | k
    if got is None:
        c.check("none", ~some)
        return
    x, y = got
    c.check("some", some)
    i = int(np.floor(float(c.concretize(np.floor(x)))))
    i = min(max(i, lo), hi - 1)
    # points at the end of an interval also belong to the next one
    def on(l, i):
        return abs(l[i] + (l[i + 1] - l[i]) * (x - i) - y)
    c.check("on_a", on(a, i) < 1e-2)
    c.check("on_b", on(bb, i) < 1e-2)
    order = list(range(lo, hi))
    if pos.lower() == "last":
        order = order[::-1]
    ok, before = False, False
    for q in order:
        k = cross[q - lo]
        ok = ok | (k & ~before & (x >= q - 1e-3) & (x <= q + 1 + 1e-3))
        before = before | k
    c.check("interval", ok)


@case("P21")
def crossing_errors(c):
    """Unknown positions and empty limits are refused; a single crossing is both the first and the last."""
    from corrct.processing import misc

    a = c.real("a", 0.1, 2)
    l = np.stack([a, a, -a])
    c.raises("pos", ValueError, lambda: misc.lines_intersection(l, 0.0, position="middle"))
    c.raises("lims", ValueError, lambda: misc.lines_intersection(l, 0.0, x_lims=(None, None)))
    for p in ("first", "last"):
        c.close(p, np.stack(list(misc.lines_intersection(l, np.zeros(3), position=p))), np.array([1.5, 0.0]), tol=1e-4)


def corr(a, b):
    """Full cross-correlation: lag (i, j) from -(n - 1) to n - 1."""
    n, m = a.shape
    out = {}
    for i in range(-(n - 1), n):
        for j in range(-(m - 1), m):
            t = 0.0
            for y in range(n):
                for x in range(m):
                    if 0 <= y - i < n and 0 <= x - j < m:
                        t = t + a[y, x] * b[y - i, x - j]
            out[i, j] = t
    return out


@case("P21", params=[dict(sh=s, auto=a, full=f) for s, a, f in (((1, 3), False, True), ((2, 2), True, True), ((2, 2), False, True), ((1, 3), False, False), ((3, 1), True, False))])
def correlation(c, sh, auto, full):
    """Normalised correlations have at each lag the correlation divided by both norms, with the zero lag first: auto-correlations start with one; any images."""
    from corrct.processing import misc

    a = c.array("a", sh, 0.1, 2)
    b = a if auto else np.array([[1.0, 0.5], [0.25, 2.0]]) if sh == (2, 2) else c.array("b", sh, 0.1, 2)
    got = misc.norm_cross_corr(a, None if auto else b, mode_full=full, compute_profile=False, plot=False)
    nn = np.linalg.norm(a) * np.linalg.norm(b)
    ref = corr(a, b)
    size = [2 * n - 1 if full else n for n in sh]
    c.shape("shape", got, size)
    for (i, j), v in ref.items():
        ok = all(-(n // 2) <= q <= (n - 1) // 2 if not full else True for q, n in zip((i, j), sh))
        if ok:
            g = got[i % size[0], j % size[1]]
            c.close(f"lag_{i}_{j}", g * nn if auto else g, v if auto else v / nn, tol=1e-3)
    if auto:
        c.close("one", got[0, 0], 1.0, tol=1e-4)


@case("P21")
def correlation_profile(c):
    """The profile of a correlation is its mean over the rings, up to the image's size, and starts with the zero lag; correlation only acts along the chosen axes."""
    from corrct.processing import misc

    a, b = c.array("a", (2, 2), 0.1, 2), c.array("b", (2, 2), 0.1, 2)
    cc, prof = misc.norm_cross_corr(a, b, plot=False)
    w = misc.azimuthal_integration(cc, domain="fourier") / misc.azimuthal_integration(np.ones((3, 3)), domain="fourier")
    c.close("profile", prof, w[:2], tol=1e-4)
    rows = misc.norm_cross_corr(a, b, axes=(-1,), compute_profile=False, plot=False)
    nn = np.linalg.norm(a) * np.linalg.norm(b)
    for r in range(2):
        for j, v in ((0, a[r, 0] * b[r, 0] + a[r, 1] * b[r, 1]), (1, a[r, 1] * b[r, 0]), (-1, a[r, 0] * b[r, 1])):
            c.close(f"row_{r}_{j}", rows[r, j % 3], v / nn, tol=1e-3)


@case("P21", params=[dict(sh=s, ax=a) for s, a in (((2, 3), None), ((2, 2, 2), None), ((3, 2, 2), (0,)), ((2, 2, 2), [-1, 0]), ((4,), None), ((2, 2, 3), [-1, 0]))])
def centre_of_mass(c, sh, ax):
    """Centres of mass are the mean positions from the centre of the volume weighed by the absolute values, for the chosen axes and in their order; any volumes."""
    from corrct.processing import post

    x = c.array("x", sh, -2, 2)
    c.assume(abs(x).sum() > 0.5)
    got = post.com(x, ax)
    axs = list(range(len(sh))) if ax is None else [a % len(sh) for a in ax]
    c.shape("shape", got, (len(axs),))
    m = abs(x).sum()
    for k, a in enumerate(axs):
        t = sum(abs(x[ix]) * (ix[a] - (sh[a] - 1) / 2) for ix in np.ndindex(*sh))
        c.close(f"com_{k}", got[k] * m, t, tol=1e-3)


@case("P21", params=[dict(sh=s, ax=a) for s, a in (((4,), None), ((2, 3), None), ((4, 1), None), ((2, 4), (-1,)), ((4, 1, 2), (0, 2)))])
def spectrum(c, sh, ax):
    """The power spectrum is the ring average of the squared Fourier moduli over the normalisation, up to half of the smallest size: it scales with the square of the image, and its first value is the squared sum; any images."""
    from corrct.processing import post

    x, k = c.array("x", sh, -2, 2), c.real("k", 0.5, 2)
    got = post.power_spectrum(x, axes=ax, smooth=None, taper_ratio=None)
    axs = list(range(len(sh))) if ax is None else [a % len(sh) for a in ax]
    rest = [i for i in range(len(sh)) if i not in axs]
    m = min(sh[a] for a in axs)
    c.shape("shape", got, (*[sh[i] for i in rest], m // 2))
    c.close("scale", post.power_spectrum(x * k, axes=ax, smooth=None, taper_ratio=None), got * k * k, tol=1e-3)
    if m >= 2:
        s = x.sum(axis=tuple(axs))
        n1 = float(np.sum([max(0.0, 1 - np.sqrt(sum((i if 2 * i < n else i - n) ** 2 for i, n in zip(ix, [sh[a] for a in axs])))) for ix in np.ndindex(*[sh[a] for a in axs])]))
        c.close("zero", got[..., 0] * n1 * m ** len(axs), s * s, tol=1e-2)
    sm = post.power_spectrum(x, axes=ax, smooth=3, taper_ratio=None)
    c.shape("smooth", sm, got.shape)
    tp = post.power_spectrum(x, axes=ax, smooth=None, taper_ratio=0.1)
    c.shape("taper", tp, got.shape)


@case("P21", params=[dict(sh=s, ax=a, sm=q) for s, a, q in (((4,), None, None), ((2, 4), (-1,), None), ((4, 2), None, None), ((4,), None, 5))])
def ring_correlation(c, sh, ax, sm):
    """The Fourier ring correlation of an image with itself, or with a positive multiple, is one at every ring; of any two images it lies between zero and one and does not depend on their order or scale."""
    from corrct.processing import post

    a, b = c.array("a", sh, 0.5, 2), c.array("b", sh, 0.5, 2)
    k = c.real("k", 0.5, 2)
    if sm:  # no empty ring
        c.assume((a[0] - a[2] > 0.1) & (a[0] - a[1] + a[2] - a[3] > 0.1))
    kw = dict(axes=ax, smooth=sm, taper_ratio=None)
    f, t = post.compute_frc(a, a * k, **kw)
    axs = list(range(len(sh))) if ax is None else [q % len(sh) for q in ax]
    n = min(sh[q] for q in axs) // 2
    c.shape("shape", f, (n,))
    c.check("ring0", abs(f[0] - 1) < 1e-3)
    for i in range(n):
        c.check(f"range_{i}", (f[i] >= 0) & (f[i] <= 1 + 1e-3))
    if sm:
        return
    g, _ = post.compute_frc(a, b, **kw)
    h, _ = post.compute_frc(b, a, **kw)
    c.close("swap", g, h, tol=1e-4)
    c.check("threshold", np.all(np.asarray(t) > 0) & np.all(np.asarray(t) <= 1 + 1e-6) and t.shape == f.shape)


@case("P21", params=[dict(theo=t, nd=n) for t in (True, False) for n in (2, 3, 1)])
def threshold(c, theo, nd):
    """The threshold curve has the published form in the rings' sizes: one at the first ring and decreasing with their size."""
    from corrct.processing import post

    s = c.real("snr", 0.05, 0.9)
    a = (np.arange(8.0**nd) + 1.0).reshape([8] * nd)
    _, t = post.compute_frc(a, a, snrt=s, smooth=None, taper_ratio=None, theo_threshold=theo)
    from corrct.processing import misc

    surf = {1: lambda i: 2.0, 2: lambda i: 2 * np.pi * i, 3: lambda i: 4 * np.pi * i * i}[nd]
    n = [1.0] + [surf(i) for i in range(1, 4)] if theo else misc.azimuthal_integration(np.ones([8] * nd), axes=tuple(range(-nd, 0)), domain="fourier")[:4]
    q = np.sqrt(s)
    for i in range(4):
        r = float(np.sqrt(float(n[i])))
        c.close(f"t_{i}", t[i] * (s + 1 + 2 * q / r), s + (2 * q + 1) / r, tol=1e-3)
    c.raises("shape", ValueError, lambda: post.compute_frc(a, a[:4], snrt=s))
    if nd == 2:
        c.raises("odd", ValueError, lambda: post.compute_frc(np.ones((3, 3)), None, axes=[-1]))


@case("P21")
def resolution(c):
    """The resolution is where the correlation first falls below the threshold, ignoring the zero frequency; stacks of curves are averaged first; any curves."""
    from corrct.processing import misc, post

    f, t = c.array("f", (2, 4), 0, 1), c.array("t", (2, 4), 0.2, 0.8)
    got = post.estimate_resolution(f, t)
    want = misc.lines_intersection(f.sum(axis=0) / 2, t.sum(axis=0) / 2, x_lims=(1, None))
    c.check("same", (got is None) == (want is None))
    if got is not None:
        c.close("val", np.stack(list(got)), np.stack(list(want)), tol=1e-3)
        c.le("skips", 1.0 - 1e-6, got[0])


@case("P21", params=[dict(n=n, sh=s, ax=a) for n, s, a in ((2, (2,), 0), (3, (2, 1), 0), (3, (2,), 1), (2, (1, 2), -1), (4, (1,), 0))])
def bias_variance(c, n, sh, ax):
    """Error maps decompose exactly: the mean squared error is the squared bias plus the (population) variance, the bias is that of the mean and the variance the unbiased estimate, along any axis of realisations; any images."""
    import warnings

    from corrct.processing import post

    r, g = c.array("r", (n, *sh), -2, 2), c.array("g", sh, -2, 2)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mse, b2, var = post.compute_reconstruction_bias_variance_maps(g, np.moveaxis(r, 0, ax), realizations_axis=ax)
        if ax == 0:
            m2, _, _ = post.compute_reconstruction_bias_variance_maps(g, [r[i] for i in range(n)])
            c.close("list", m2, mse, tol=1e-6)
            c.raises("shape", ValueError, lambda: post.compute_reconstruction_bias_variance_maps(np.zeros((*sh[:-1], sh[-1] + 1)), r))
            c.raises("ndim", ValueError, lambda: post.compute_reconstruction_bias_variance_maps(g, r[0]))
    m = r.sum(axis=0) / n
    c.close("bias", b2, (m - g) * (m - g), tol=1e-4)
    c.close("var", var * (n - 1), ((r - m) * (r - m)).sum(axis=0), tol=1e-3)
    c.close("mse", mse * n, ((r - g) * (r - g)).sum(axis=0), tol=1e-3)
    c.close("decomposition", mse, b2 + var * (n - 1) / n, tol=1e-3)


@case("P21", params=[dict(op=False), dict(op=True), dict(op=False, sh=(2, 2)), dict(op=False, sh=(1, 2, 2)), dict(op=True, sh=(1, 2))])
def scale_bias(c, op, sh=(2,)):
    """The objective of the scale and bias fit is half of the squared distance of the projected, scaled and biased image from the data, its gradient is exact at every point, and the minimiser is returned as scale and bias; any image, data and projector."""
    from corrct.processing import post
    from corrct.projectors import ProjectorMatrix

    n = int(np.prod(sh))
    out = (3,) if len(sh) == 1 else (3, 1)
    x, M = c.array("x", sh, -2, 2), c.array("M", (3, n), -1, 1)
    y = c.array("y", out if op else sh, -2, 2)
    p, d = c.array("p", (2,), -2, 2), c.array("d", (2,), -1, 1)
    prj = ProjectorMatrix(M, sh, out) if op else None
    seen = []

    class Res:
        pass

    def minimize(f, x0, jac=None, **k):
        assert jac
        r = Res()
        r.x = p
        seen.append((f(p), f(p + d)))
        return r

    with patched(post, minimize=minimize):
        a, b = post.fit_scale_bias(x, y, prj)
    c.close("result", np.stack([a, b]), p, tol=1e-6)
    (f0, g0), (f1, _) = seen[0]
    P = M if op else np.eye(n)
    x, y = x.reshape(-1), y.reshape(-1)
    r = P @ (x * p[0] + p[1]) - y
    c.close("objective", f0, (r * r).sum() / 2, tol=1e-3)
    dr = P @ (x * d[0] + d[1])
    c.close("gradient", (g0 * d).sum(), (r * dr).sum(), tol=1e-3)


@case("P21", params=[dict(sh=s, full=f, at=k) for s, f, k in (((1, 3), True, 1), ((1, 3), False, 0), ((1, 4), False, 2), ((2, 2), False, 0), ((3, 1), True, 2), ((2, 3), True, 4), ((4, 2), False, 5))], budget=90)
def template_match(c, sh, full, at):
    """Template matching gives at each lag the correlation of the template with the deviations of the window under it from their mean, over both norms: within one in modulus, one where the window is a multiple of the template, zero where the window is flat; any value of one pixel (not negative)."""
    from corrct.processing import misc

    n = int(np.prod(sh))
    a = np.array([1.0, 0.25, 0.5, 0.0, 0.75, 0.1, 0.6, 0.3][:n]).reshape(sh)
    b = np.array([0.5, 1.5, 0.0, 1.0, 0.25, 0.5, 0.8, 0.4][:n]).reshape(sh) + c.real("b", 0, 2) * (np.arange(n) == at).reshape(sh)
    got = misc.norm_cross_corr(a, b, t_match=True, mode_full=full, compute_profile=False, plot=False)
    size = [2 * q - 1 if full else q for q in sh]
    c.shape("shape", got, size)
    A = (a - a.mean()) / np.sqrt(((a - a.mean()) ** 2).sum())
    big = float(n) * 4.0
    for i in range(-(sh[0] - 1), sh[0]):
        for j in range(-(sh[1] - 1), sh[1]):
            ok = all(-(k // 2) <= q <= (k - 1) // 2 if not full else True for q, k in zip((i, j), sh))
            if not ok:
                continue
            w = {ix: b[ix[0] - i, ix[1] - j] if 0 <= ix[0] - i < sh[0] and 0 <= ix[1] - j < sh[1] else 0.0 for ix in np.ndindex(*sh)}
            num = sum(A[ix] * w[ix] for ix in w)
            var = sum(q * q for q in w.values()) - sum(w.values()) * sum(w.values()) / n
            g = got[i % size[0], j % size[1]]
            c.check(f"flat_{i}_{j}", (var > 1e-5 * big) | ((g < 1.001) & (g > -1.001)))
            c.check(f"value_{i}_{j}", (var < 1e-2) | (abs(g * g * var - num * num) < 1e-3) & (g * num > -1e-3))
    c.close("self", misc.norm_cross_corr(a, a * c.real("k", 0.5, 2), t_match=True, mode_full=full, compute_profile=False, plot=False)[0, 0], 1.0, tol=1e-3)


@case("P21", params=[dict(n=n, full=f) for n in (4, 5) for f in (True, False)])
def template_borders(c, n, full):
    """Images with flat borders match too: all the values are within one in modulus."""
    from corrct.processing import misc

    x = c.real("x", 0.5, 2)
    a = np.zeros((n, n))
    a[1:3, 1:3] = np.array([[1.0, 0.5], [0.25, 0.75]])
    got = misc.norm_cross_corr(a * x, np.roll(a, 1, axis=0), t_match=True, mode_full=full, compute_profile=False, plot=False)
    c.le("hi", got, 1.0, tol=1e-3)
    c.le("lo", -1.0 * got, 1.0, tol=1e-3)
    c.finite("finite", got)
    c.close("peak", got[-1, 0], 1.0, tol=1e-3)


@case("P21", params=[dict(sh=s, ax=a, ss=q, tp=t) for s, a, q, t in (((4, 4), None, 2, None), ((4, 6), None, 1, 0.1), ((2, 4, 4), (-2, -1), 1, 0.05), ((6,), None, 2, 0.05), ((2, 4, 4), (-2, -1), 1, None), ((2, 1, 4, 4), (-2, -1), 1, None))], scaling=True)
def ring_correlation_options(c, sh, ax, ss, tp):
    """With supersampling and tapering too, the ring correlation of an image with any positive multiple of itself (of whatever type) is one at every ring, and the rings extend with the supersampling."""
    from corrct.processing import post

    a = np.array([(7 * i * i + 3 * i) % 11 + 1.0 for i in range(int(np.prod(sh)))], dtype=np.float32).reshape(sh)
    x = c.real("x", 0.5, 2)
    f, t = post.compute_frc(a, a * x, axes=ax, smooth=None, taper_ratio=tp, supersampling=ss, theo_threshold=ax is None)
    m = min(sh if ax is None else [sh[q] for q in ax]) * ss // 2
    c.check("rings", f.shape[-1] == m and t.shape[-1] == m)
    c.close("one", f, np.ones(m), tol=1e-3)
    got = post.estimate_resolution(f, t)
    c.check("resolved", got is None or got[0] >= m - 1.01)


@case("P21", params=[dict(ax=a) for a in ((-2, -1), (-1,), (0, 2))], scaling=True)
def template_stack(c, ax):
    """Template matching along some axes treats the images along the others separately; any intensity."""
    from corrct.processing import misc

    a = np.array([1.0, 0.25, 0.5, 0.0, 0.75, 0.1, 0.6, 0.3, 0.9, 0.2, 0.0, 0.35]).reshape(2, 2, 3)
    b = np.roll(a, 1, axis=1)[..., ::-1] * c.real("k", 0.5, 2)
    kw = dict(t_match=True, compute_profile=False, plot=False)
    got = misc.norm_cross_corr(a, b, axes=ax, **kw)
    rest = [i for i in range(3) if i - 3 not in ax and i not in ax]
    for ix in np.ndindex(*[a.shape[i] for i in rest]):
        sl = [slice(None)] * 3
        for i, q in zip(rest, ix):
            sl[i] = q
        sl = tuple(sl)
        one = misc.norm_cross_corr(a[sl], b[sl], axes=tuple(range(-len(ax), 0)), **kw)
        c.close(f"image_{ix}", got[sl], one, tol=1e-3)


@case("P21", params=[dict(dtype=d) for d in ("int64", "uint16")], paths=300)
def integer_images(c, dtype):
    """Curves and images of integers, signed or not, are analysed as the numbers they are: crossings, azimuthal sums, spectra, correlations; any numbers."""
    from corrct.processing import misc, post

    d = np.dtype(dtype)
    a, b = c.intarray("a", (3,), 0, 9, dtype=d), c.intarray("b", (3,), 0, 9, dtype=d)
    for i, q in enumerate((b, b[0])):
        u, v = misc.lines_intersection(a, q), misc.lines_intersection(a * 1.0, q * 1.0)
        c.check(f"crossing_{i}", (u is None) == (v is None))
        if u is not None:
            c.close(f"position_{i}", np.array(u), np.array(v), tol=1e-4)
    x, y = c.intarray("x", (2, 2), 0, 50, dtype=d), c.intarray("y", (2, 2), 0, 50, dtype=d)
    for dom in ("direct", "fourier"):
        c.close(f"azimuthal_{dom}", misc.azimuthal_integration(x, domain=dom), misc.azimuthal_integration(x * 1.0, domain=dom), tol=1e-3)
    c.close("spectrum", post.power_spectrum(x, axes=(-2, -1), smooth=None), post.power_spectrum(x * 1.0, axes=(-2, -1), smooth=None), tol=1e-2)


@case("P21", params=[dict(dtype=d, ss=s) for d in ("uint16", "int64") for s in (1, 2)], budget=60)
def integer_frc(c, dtype, ss):
    """The ring correlation of an image of counts and an image of fractional numbers is that of the numbers they hold, supersampled or not; any counts."""
    from corrct.processing import post

    x = c.intarray("x", (2, 2), 0, 20, dtype=np.dtype(dtype))
    y = np.array([[0.25, 0.75], [1.5, -0.5]])
    kw = dict(smooth=None, taper_ratio=None, supersampling=ss)
    seen = []
    with patched(post, azimuthal_integration=lambda v, **k: (seen.append(v), np.ones(2))[1]):
        post.compute_frc(x, y, **kw)
        n = len(seen)
        post.compute_frc(x * 1.0, y, **kw)
    for i in range(n):
        c.close(f"power_{i}", seen[i], seen[n + i], tol=1e-2)


@case("P21", params=[dict(dtype=d) for d in ("uint8", "int64")])
def integer_fit(c, dtype):
    """Scale and bias fits and error maps of images of counts are those of the numbers they hold; any counts."""
    import warnings

    from corrct.processing import post

    d = np.dtype(dtype)
    x, y = c.intarray("x", (2,), 0, 99, dtype=d), c.intarray("y", (2,), 0, 99, dtype=d)
    seen = []

    class Res:
        x = np.array([1.5, -0.5])

    def minimize(f, x0, jac=None, **k):
        seen.append(f(Res.x))
        return Res

    with patched(post, minimize=minimize):
        post.fit_scale_bias(x, y)
        post.fit_scale_bias(x * 1.0, y * 1.0)
    (f0, g0), (f1, g1) = seen
    c.close("objective", f0, f1, tol=1e-1)
    c.close("gradient", g0, g1, tol=1e-1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = c.intarray("r", (2, 1), 0, 9, dtype=d)
        got = post.compute_reconstruction_bias_variance_maps(x[:1], r)
        want = post.compute_reconstruction_bias_variance_maps(x[:1] * 1.0, r * 1.0)
    for n, u, v in zip(("mse", "bias", "var"), got, want):
        c.close(n, u, v, tol=1e-2)


@case("P21", params=[dict(dtype=d, ss=q) for d, q in (("bool", 1), ("int64", 1), ("uint8", 1))])
def mask_types(c, dtype, ss):
    """Masks of boolean or integer type select the same pixels as those of floating point type; any offset and origin."""
    from corrct.processing import misc

    kw = dict(radius_offset=c.real("off", -0.9, 0.9), vol_origin_zxy=[c.real("o", -0.4, 0.4), 0.25])
    got = misc.circular_mask((3, 4), dtype=np.dtype(dtype), **kw)
    want = misc.circular_mask((3, 4), dtype=np.float32, **kw)
    c.check("dtype", got.dtype == np.dtype(dtype))
    c.close("mask", got * 1.0, want, tol=1e-6)


@case("P21", params=[dict(power=p, sh=s) for p in (1, 2, 3) for s in ((4,), (4, 4))], scaling=True)
def spectrum_power(c, power, sh):
    """The spectrum scales with the requested power of the image, and starts with that power of its sum; any scale of an image."""
    from corrct.processing import post

    a = np.array([(7 * i * i + 3 * i) % 11 + 1.0 for i in range(int(np.prod(sh)))]).reshape(sh)
    k = c.real("k", 0.5, 1.5)
    kw = dict(smooth=None, taper_ratio=None, power=power)
    ref = post.power_spectrum(a, **kw)
    got = post.power_spectrum(a * k, **kw)
    kp = k
    for _ in range(power - 1):
        kp = kp * k
    c.close("scale", got, ref * kp, tol=1e-3 * float(np.max(ref)))
    if len(sh) == 1:
        c.close("zero", got[0] * 2.0**power, a.sum() ** power * kp, tol=1e-3 * a.sum() ** power)
    c.check("positive", np.all(np.asarray(ref) > 0))


@case("P21", scaling=True)
def stack_profile(c):
    """Profiles of the correlations of stacks of images are as long as the images, whatever the number of images; any scale."""
    from corrct.processing import misc

    a = (((np.arange(18) * 7) % 11) + 1.0).reshape(2, 3, 3)
    cc, prof = misc.norm_cross_corr(a, a[:, ::-1] * c.real("k", 0.5, 2), axes=(-2, -1), plot=False)
    w = misc.azimuthal_integration(cc, axes=(-2, -1), domain="fourier") / misc.azimuthal_integration(np.ones(cc.shape), axes=(-2, -1), domain="fourier")
    c.check("rings", len(prof) >= 3 or prof.shape[-1] >= 3)
    c.close("profile", prof.reshape(-1)[:2], w.reshape(-1)[:2], tol=1e-4)
