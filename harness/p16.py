"""P16: alignment finds the shifts, centres and trajectories that the data have."""

import contextlib

import numpy as np

from vf.ctx import case


@contextlib.contextmanager
def patched(obj, **kw):
    old = {k: getattr(obj, k) for k in kw}
    for k, v in kw.items():
        setattr(obj, k, v)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(obj, k, v)


def template(shape):
    """Irregular positive image: its circular shifts are all different."""
    n = int(np.prod(shape))
    return (((np.arange(n) * 7 + 3) % (n + 4)) + 0.25 * np.arange(n) ** 1.5 % 3).reshape(shape) / n


def xcorr(d, p, axes):
    """Circular cross-correlation sum_x d(x) p(x - s), for every shift."""
    out = {}
    for s in np.ndindex(*[d.shape[a] for a in axes]):
        out[s] = (d * np.roll(p, s, axis=axes)).sum()
    return out


def wrapped(s, n):
    return s if s < (n + 1) // 2 else s - n


@case("P16", params=[dict(n=n, rows=r, rfft=f, pad=q) for n, r, f, q in ((4, 1, True, False), (5, 1, True, False), (3, 2, True, False), (4, 1, False, False), (5, 1, False, False), (3, 1, True, True))],
      thorough_params=[dict(n=6, rows=1, rfft=True, pad=False), dict(n=7, rows=1, rfft=True, pad=False)], paths=400, bt=4)
def shift_1d(c, n, rows, rfft, pad):
    """Horizontal shifts of sinogram lines maximise their circular cross-correlation with the reference, for every line, even and odd widths."""
    from corrct.alignment import fitting

    p = template((rows, n)) + 0.1
    d = c.array("d", (rows, n), -2, 2)
    got = fitting.fit_shifts_vu_xc(d, p, use_rfft=rfft, pad_u=pad, decimals=0)
    c.shape("shape", got, (rows,))
    m = 2 * n if pad else n
    for i in range(rows):
        dp, pp = (np.concatenate([d[i], np.zeros(n)]), np.concatenate([p[i], np.zeros(n)])) if pad else (d[i], p[i])
        cc = xcorr(dp, pp, (0,))
        s = int(round(float(c.concretize(got[i]))))
        c.check(f"range_{i}", -(m // 2) <= s < (m + 1) // 2)
        for k in range(m):
            c.le(f"max_{i}_{k}", cc[(k,)], cc[(s % m,)], tol=1e-3)


@case("P16", params=[dict(shape=s, rfft=f, ax=a) for s, f, a in (((2, 3), True, -2), ((3, 2), True, -3), ((2, 3), False, -2), ((3, 2), True, -1))],
      thorough_params=[dict(shape=(3, 3), rfft=True, ax=-2)], paths=400, bt=4)
def shift_2d(c, shape, rfft, ax):
    """Shifts (v, u) of images maximise the circular cross-correlation of the two images, wherever the stacking axis."""
    from corrct.alignment import fitting

    p = template(shape) + 0.1
    d = c.array("d", shape, -2, 2)
    got = fitting.fit_shifts_vu_xc(np.expand_dims(d, ax), np.expand_dims(p, ax), use_rfft=rfft, stack_axis=ax, decimals=0)
    c.shape("shape", got, (2, 1))
    cc = xcorr(d, p, (0, 1))
    s = tuple(int(round(float(c.concretize(got[i, 0])))) % shape[i] for i in range(2))
    for k in cc:
        c.le(f"max_{k}", cc[k], cc[s], tol=1e-3)
    for i in range(2):
        c.check(f"range_{i}", wrapped(s[i], shape[i]) == int(round(float(c.concretize(got[i, 0])))))


@case("P16", params=[dict(shape=s) for s in ((2, 2, 2), (1, 2, 3), (2, 3))], thorough_params=[dict(shape=(3, 3))], paths=400, bt=4)
def shift_volume(c, shape):
    """Volume shifts maximise the circular cross-correlation with the reference volume."""
    from corrct.alignment import fitting

    p = template(shape) + 0.1
    d = c.array("d", shape, -2, 2)
    got = fitting.fit_shifts_zyx_xc(d, p, normalize_fourier=False, decimals=0)
    cc = xcorr(d, p, tuple(range(len(shape))))
    s = tuple(int(round(float(c.concretize(got[i])))) % shape[i] for i in range(len(shape)))
    for k in cc:
        c.le(f"max_{k}", cc[k], cc[s], tol=1e-3)


@case("P16", params=[dict(n=n, s=s, a=a) for n in (5, 6, 7) for s in (1, -2) for a in (False, True)], scaling=True)
def shifted_copy(c, n, s, a):
    """A copy of the profile, shifted and scaled by any positive factor, gives its shift, with sub-pixel refinement on and Fourier normalisation on or off."""
    from corrct.alignment import fitting

    p = np.exp(-((np.arange(n) - n // 2) ** 2) / 1.5)[None]
    x = c.real("x", 0.5, 2)
    got = fitting.fit_shifts_vu_xc(np.roll(p, s, axis=-1) * x, p, normalize_fourier=a)
    c.close("shift", got, np.array([float(s)]), tol=0.011)


@case("P16", params=[dict(n=n, rng=r, pad=q, norm=k) for n, r, q, k in ((5, 2, False, 1), (4, 1, True, 1), (5, 1, False, 1))], paths=400, bt=4)
def shift_sad(c, n, rng, pad, norm):
    """Sum-of-absolute-differences shifts minimise the difference over the search range."""
    from corrct.alignment import fitting

    p = template((1, n)) + 0.1
    d = c.array("d", (1, n), 0, 1)
    got = fitting.fit_shifts_u_sad(d, p, search_range=rng, pad_u=pad, decimals=0)
    s = int(round(float(c.concretize(got[0]))))
    c.check("range", -rng <= s <= rng)
    dd = np.stack([d[0, 0]] * rng + [d[0, i] for i in range(n)] + [d[0, n - 1]] * rng) if pad else d[0]
    pp = np.pad(p[0], rng) if pad else p[0]

    def err(k):
        return sum(abs(dd[i] - np.roll(pp, k)[i]) for i in range(len(pp)))

    for k in range(-rng, rng + 1):
        c.le(f"min_{k}", err(s), err(k), tol=1e-3)


@case("P16", params=[dict(n=n, ax=a, r=r) for n, a, r in ((4, -1, 1), (4, -2, 1), (5, -1, 2), (3, -1, 1))], paths=400)
def peak_region(c, n, ax, r):
    """The peak region is the maximum and its neighbours (wrapping around), with their coordinates; any values."""
    from corrct.alignment import fitting

    v = c.array("v", (2, n) if ax == -1 else (n, 2), -5, 5)
    xs = np.linspace(10, 20, n)
    f, x = fitting.extract_peak_regions_1d(v, axis=ax, peak_radius=r, cc_coords=xs)
    c.shape("shape", f, (2 * r + 1, 2))
    for i in range(2):
        row = v[i] if ax == -1 else v[:, i]
        k = int(np.argmin(np.abs(xs - float(c.concretize(x[r, i])))))
        for j in range(n):
            c.le(f"max_{i}_{j}", row[j], f[r, i], tol=1e-9)
        for q in range(-r, r + 1):
            c.close(f"val_{i}_{q}", f[r + q, i], row[(k + q) % n], tol=1e-9)
            c.close(f"pos_{i}_{q}", x[r + q, i], xs[(k + q) % n], tol=1e-9)


@case("P16", params=[dict(shape=(2, 3)), dict(shape=(3, 3)), dict(shape=(2, 2, 2))], paths=400)
def peak_region_nd(c, shape):
    """Multi-dimensional peak region: maximum in the middle, wrapped neighbours around; any values."""
    from corrct.alignment import fitting

    v = c.array("v", shape, -5, 5)
    xs = [np.arange(s) * 3.0 + 10 * i for i, s in enumerate(shape)]
    f, x = fitting.extract_peak_region_nd(v, cc_coords=xs)
    c.shape("shape", f, (3,) * len(shape))
    k = [int(np.argmin(np.abs(xs[i] - float(c.concretize(x[i][1]))))) for i in range(len(shape))]
    c.le("max", v, f[(1,) * len(shape)], tol=1e-9)
    for q in np.ndindex(*f.shape):
        c.close(f"val_{q}", f[q], v[tuple((a + b - 1) % s for a, b, s in zip(k, q, shape))], tol=1e-9)


@case("P16", params=[dict(n=n, many=m, own=o, dec=d) for n, m, o, d in ((3, False, False, 2), (3, True, False, 2), (5, False, False, 1), (5, True, False, 3), (3, False, True, 2))])
def subpixel_1d(c, n, many, own, dec):
    """The refined position of samples of any parabola is its vertex, within the asked decimals; outside of the samples it is refused."""
    from corrct.alignment import fitting

    h = (n - 1) / 2
    xs = np.linspace(4, 9, n) if own else np.linspace(-h, h, n)
    off, sc = (6.5, 2.5 / h) if own else (0.0, 1.0)
    w = c.array("w", (2,), -h + 0.2, h - 0.2)
    a = c.array("a", (2,), 0.5, 3)
    b = c.array("b", (2,), -5, 5)
    cols = [np.stack([b[i] - a[i] * (x - w[i]) * (x - w[i]) for x in (xs - off) / sc]) for i in range(2)]
    vals = np.stack(cols, axis=-1) if many else cols[0]
    got = fitting.refine_max_position_1d(vals, f_x=xs if own else None, decimals=dec)
    for i in range(2 if many else 1):
        g = got[i] if many else got
        c.close(f"vertex_{i}", g, w[i] * sc + off, tol=0.5 * 10.0**-dec + 1e-4)
    if not many:
        x, v = fitting.refine_max_position_1d(vals, f_x=xs if own else None, decimals=dec, return_vertex_val=True)
        c.close("val_x", x, got, tol=1e-6)
        far = np.stack([b[0] - a[0] * (x - h - 1.0 - a[1]) * (x - h - 1.0 - a[1]) for x in (xs - off) / sc])
        c.raises("outside", ValueError, lambda: fitting.refine_max_position_1d(far, f_x=xs if own else None, decimals=dec))


@case("P16", params=[dict(shape=s, own=o) for s, o in (((3, 3), False), ((5, 3), False), ((3, 5), True), ((5, 5), False))])
def subpixel_2d(c, shape, own):
    """The refined 2D position of samples of any paraboloid (axis-aligned or slanted) is its vertex, in pixels from the centre or in the given coordinates; any region size."""
    from corrct.alignment import fitting

    hy, hx = (shape[0] - 1) / 2, (shape[1] - 1) / 2
    y = np.linspace(-hy, hy, shape[0]) + (7.0 if own else 0.0)
    x = np.linspace(-hx, hx, shape[1]) - (3.0 if own else 0.0)
    vy, vx = c.real("vy", -0.9, 0.9), c.real("vx", -0.9, 0.9)
    b = c.real("b", -5, 5)
    Y, X = np.meshgrid(y, x, indexing="ij")
    oy, ox = (7.0, -3.0) if own else (0.0, 0.0)
    dy, dx = Y - (vy + oy), X - (vx + ox)
    for nm, (p, q, r) in dict(straight=(1.0, 2.0, 0.0), slanted=(1.5, 1.0, 0.7)).items():
        f = b - p * dy * dy - q * dx * dx - r * dx * dy
        got = fitting.refine_max_position_2d(f, y, x) if own else fitting.refine_max_position_2d(f)
        c.close(nm, got, np.stack([vy + oy, vx + ox]), tol=1e-4)


@case("P16", params=[dict(pos=k, scale=s, dec=d) for k in ("mid", "first", "last") for s in ("linear", "log") for d in (2, 4)])
def parabola_min(c, pos, scale, dec):
    """The fitted minimum of a convex parabola is its vertex, rounded to the decimals, when inside the range, and the smallest sample otherwise; its value is the parabola's."""
    from corrct.alignment import fitting

    xs = np.array([-2.0, -1.0, 0.0, 1.0, 2.0])
    lo, hi = dict(mid=(-1.4, 1.4), first=(-3.5, -1.6), last=(1.6, 3.5))[pos]
    w = c.real("w", lo, hi)
    b = c.real("b", -5, 5)
    f = np.stack([b + 1.5 * (x - w) * (x - w) for x in xs])
    fx = 10.0**xs if scale == "log" else xs
    if scale == "log":
        c.exp_anchors(xs * np.log(10.0))
    x, v, fit = fitting.fit_parabola_min(fx, f, scale=scale, decimals=dec)
    if fit is None:
        k = int(np.argmin(np.abs(fx - float(c.concretize(x)))))
        c.close("sample", v, f[k], tol=1e-9)
        for i in range(5):
            c.le(f"smallest_{i}", v, f[i], tol=1e-9)
        c.check("outside", (w < -2 + 0.01) | (w > 2 - 0.01))
    else:
        if scale == "linear":
            c.close("vertex", x, w, tol=0.5 * 10.0**-dec + 1e-5)
        else:
            c.close("vertex", c.log(x), w * float(np.log(10.0)), tol=2.4 * 0.5 * 10.0**-dec + 1e-4)
        c.close("value", v, b, tol=0.5 * 10.0**-dec + 1e-4)
        c.check("inside", (w > -2.01) & (w < 2.01))


@case("P16", params=[dict(n=n) for n in (3, 4)])
def parabola_any(c, n):
    """For any function values the reported minimum lies inside the sampled range; constant and concave functions report the smallest sample."""
    from corrct.alignment import fitting

    xs = np.arange(n) * 1.0
    f = c.array("f", (n,), -2, 2)
    x, v, fit = fitting.fit_parabola_min(xs, f)
    c.le("lo", 0.0, x, tol=1e-6)
    c.le("hi", x, n - 1.0, tol=1e-6)
    if fit is None:
        for i in range(n):
            c.le(f"smallest_{i}", v, f[i], tol=1e-9)
    k = c.real("k", -2, 2)
    x, v, fit = fitting.fit_parabola_min(xs, np.stack([k] * n))
    c.close("const", v, k, tol=1e-6)
    c.le("const_x", x, n - 1.0, tol=1e-6)


class Conic:
    """u = u0 + p cos t, v = v0 + k p cos t + m p sin t: every ellipse, with its conic coefficients."""

    def __init__(self, c, lo=0.5):
        self.p, self.k, self.m = c.real("p", 0.5, 4), c.real("k", -1, 1), c.real("m", lo, 2)
        self.u0, self.v0 = c.real("u0", -5, 5), c.real("v0", -5, 5)

    def points(self, t):
        u = np.stack([self.u0 + self.p * x for x in np.cos(t)])
        v = np.stack([self.v0 + self.k * self.p * x + self.m * self.p * y for x, y in zip(np.cos(t), np.sin(t))])
        return np.stack([v, u])

    def coeffs(self, su=1.0, sv=1.0, u0=None, v0=None):
        """A0 u^2 - 2 A1 u - 2 A2 v + 2 A3 u v + A4 = - v^2"""
        u0, v0 = (self.u0, self.v0) if u0 is None else (u0, v0)
        k, m, p = self.k, self.m, self.p
        A0, A3 = k * k + m * m, -1.0 * k
        A1, A2 = A0 * u0 + A3 * v0, A3 * u0 + v0
        A4 = A0 * u0 * u0 + v0 * v0 + 2.0 * A3 * u0 * v0 - m * m * p * p
        return A0, A1, A2, A3, A4


def fit_stub(c, e, real, **kw):
    """Least squares of a consistent system: the exact coefficients (checked to be consistent)."""

    def lstsq(A, b, rcond=None):
        x = np.stack(e.coeffs(**kw))
        c.close("consistent", (A * x).sum(-1), b, tol=1e-3)
        if real is not None:
            return real(A, b, rcond=rcond)
        return x, None, None, None

    return lstsq


@case("P16", params=[dict(n=5), dict(n=6), dict(n=5, l1=True)])
def ellipse_parameters(c, n, l1=False):
    """Ellipse parameters from points of any (tilted) ellipse: a (u - u0)^2 + b (v - v0)^2 + 2 c (u - u0)(v - v0) = 1. The least-squares solution of a consistent system is its solution, and it is the start of the l1 fit."""
    from corrct.alignment import fitting

    e = Conic(c)
    pts = e.points(np.linspace(0.3, 2 * np.pi, n, endpoint=False))
    mini = minimum(c, c.array("wrong", (5,), -2, 2)) if l1 else None
    with patched(np.linalg, lstsq=fit_stub(c, e, None if c.sym else np.linalg.lstsq)), patched(fitting.spopt, minimize=mini):
        a, b, cc, u, v = fitting.fit_ellipse_parameters(pts, rescale=False, use_l1_norm=l1)
    c.close("u", u, e.u0, tol=1e-3)
    c.close("v", v, e.v0, tol=1e-3)
    K = e.m * e.m * e.p * e.p
    c.close("a", a * K, e.k * e.k + e.m * e.m, tol=1e-2)
    c.close("b", b * K, 1.0, tol=1e-2)
    c.close("c", cc * K, -1.0 * e.k, tol=1e-2)


@case("P16", params=[dict(n=6), dict(n=8)])
def ellipse_rescaled(c, n):
    """The same with rescaled points, for untilted ellipses of any size and centre."""
    from corrct.alignment import fitting

    e = Conic(c)
    c.assume(e.k == 0.0)
    t = np.linspace(0.3, 2 * np.pi + 0.3, n, endpoint=False)
    pts = e.points(t)
    su, sv = float(np.abs(np.cos(t)).max()), float(np.abs(np.sin(t)).max())
    # unit ellipse in the scaled coordinates: u'^2 su^2 + v'^2 sv^2 = 1
    sc = np.array([su**2 / sv**2, 0.0, 0.0, 0.0, -1 / sv**2])

    def lstsq(A, b, rcond=None):
        c.close("consistent", (A * sc).sum(-1), b, tol=1e-3)
        if not c.sym:
            return real(A, b, rcond=rcond)
        return c.array("zero", (5,), 0, 0) + sc, None, None, None

    real = np.linalg.lstsq
    with patched(np.linalg, lstsq=lstsq):
        a, b, cc, u, v = fitting.fit_ellipse_parameters(pts, rescale=True)
    c.close("u", u, e.u0, tol=1e-2)
    c.close("v", v, e.v0, tol=1e-2)
    c.close("a", a * e.p * e.p, 1.0, tol=1e-2)
    c.close("b", b * e.m * e.m * e.p * e.p, 1.0, tol=1e-2)
    c.close("c", cc, 0.0, tol=1e-2)


@case("P16")
def ellipse_curve(c):
    """The ellipse's V coordinates at a given U lie on the ellipse (both branches), and its extremes bound it; every tilted ellipse."""
    from corrct.alignment import fitting

    e = Conic(c)
    K = e.m * e.m * e.p * e.p
    k2 = e.k * e.k + e.m * e.m
    el = fitting.Ellipse(k2 / K, 1.0 / K, -1.0 * e.k / K, e.u0, e.v0, np.zeros(2))
    lo, hi = el.extremes_u
    c.close("lo", lo, e.u0 - e.p, tol=1e-3)
    c.close("hi", hi, e.u0 + e.p, tol=1e-3)
    f = 0.6
    v1, v2 = el(np.stack([e.u0 + f * e.p, e.u0 - 0.0 * e.p]))
    c.close("top", v1, np.stack([e.v0 + e.k * e.p * f + e.m * e.p * 0.8, e.v0 + e.m * e.p]), tol=1e-2)
    c.close("bottom", v2, np.stack([e.v0 + e.k * e.p * f - e.m * e.p * 0.8, e.v0 - e.m * e.p]), tol=1e-2)
    c.close("pars", np.stack(el.parameters), np.stack([1.0 / K, k2 / K, -1.0 * e.k / K, e.v0, e.u0]), tol=1e-9)


@case("P16", params=[dict(n=4, scale=False), dict(n=5, scale=False), dict(n=4, scale=False, l1=True), dict(n=4, scale=True), dict(n=5, scale=True, l1=True)])
def ellipse_centre(c, n, scale, l1=False):
    """The centre from pairs of opposite points (angles half a turn apart) of any ellipse is the point where their lines cross, for any number of points (untilted ellipses where the points are rescaled); it is also the start of the l1 fit."""
    from corrct.alignment import fitting

    e = Conic(c, lo=1.0)
    if scale:
        c.assume(e.k == 0.0)
    t = np.linspace(0.3, np.pi, n // 2, endpoint=False)
    t = np.concatenate([t, t + np.pi, [5.0] * (n % 2)])

    pts = e.points(t)

    def lstsq(A, b, rcond=None):
        x = np.stack([e.v0 - np.mean(pts[0]), e.u0 - np.mean(pts[1])])
        if scale:
            co = np.sin(t), np.cos(t)
            x = np.stack([0.0 * e.p - q.mean() / (q.max() - q.min()) for q in co])
        c.close("consistent", (A * x).sum(-1), b, tol=1e-3)
        if not c.sym:
            return real(A, b, rcond=rcond)
        return x, None, None, None

    real = np.linalg.lstsq
    mini = minimum(c, c.array("wrong", (2,), -2, 2)) if l1 else None
    with patched(np.linalg, lstsq=lstsq), patched(fitting.spopt, minimize=mini):
        got = fitting.fit_ellipse_center(pts, rescale=scale, use_l1_norm=l1, decimals=None)
    c.close("centre", got, np.stack([e.v0, e.u0]), tol=1e-3)
    with patched(np.linalg, lstsq=lstsq), patched(fitting.spopt, minimize=mini):
        got = fitting.fit_ellipse_center(pts, rescale=scale, use_l1_norm=l1, decimals=1)
    c.close("rounded", got, np.stack([e.v0, e.u0]), tol=0.051)


# pre-alignment of data sets


def shifts_obj(kind, data, angles, **kw):
    from corrct.alignment import shifts

    return getattr(shifts, kind)(data, angles, verbose=False, **kw)


@case("P16", params=[dict(order=o, nd=d) for o in ((0, 1, 2, 3), (2, 0, 3, 1), (1, 2, 3, 0), (3, 2, 1, 0)) for d in (2, 3)])
def xc_angles_order(c, order, nd):
    """Drifts accumulate along the sorted angles; the shifts come out in the order of the given angles, as deviations from the fitted sinusoid; for every pairwise shift, sinusoid, and listed order of the angles."""
    from corrct.alignment import fitting

    n = 4
    ang = np.array([0.1, 0.6, 1.3, 2.9])[list(order)]
    data = np.zeros((n, 3) if nd == 2 else (4, n, 3))
    data[..., :, 0] = np.arange(n)
    rel = c.array("rel", (2, n, n), -0.5, 0.5)
    a, p, b = c.real("a", -1, 1), 0.4, c.real("b", -1, 1)
    s = shifts_obj("DetectorShiftsXC", data, ang, max_shifts=50.0, precision_decimals=2)

    def find(d1, d2, *args, **kw):
        i, j = int(d1.flat[0]), int(d2.flat[0])
        return np.stack([np.stack([rel[k, i, j]]) for k in range(2)]) if nd == 3 else np.stack([rel[1, i, j]])

    s.find_shifts_vu = find
    with patched(fitting, fit_sinusoid=lambda *args, **kw: (a, p, b)):
        got = s.fit_vu()
    c.shape("shape", got, (nd - 1, n))
    srt = np.argsort(ang)
    acc = {k: [0.0 * a] for k in range(2)}
    for q in range(1, n):
        for k in range(2):
            acc[k].append(acc[k][-1] + rel[k, srt[q - 1], srt[q]])
    for q, i in enumerate(srt):
        c.close(f"u_{i}", got[-1, i], acc[1][q] - (a * float(np.sin(np.float32(ang[i]) + p)) + b), tol=0.00501)
        if nd == 3:
            c.close(f"v_{i}", got[0, i], acc[0][q] - sum(acc[0]) / n, tol=0.00501)


@case("P16", params=[dict(nd=d, bg=g, nb=k) for d, g, k in ((2, False, 0), (2, False, 1), (2, True, 0), (2, True, 1), (3, False, 0), (3, False, 1))])
def pre_u(c, nd, bg, nb):
    """Horizontal pre-alignment: deviations of each line's centre of mass (background removed, borders cut, mean over the rows) from the fitted sinusoid, whose bias is the centre of rotation."""
    from corrct.alignment import fitting

    n, u = 2, 3 + 2 * nb
    ang = np.array([0.2, 1.5])
    d = c.array("d", (n, u) if nd == 2 else (2, n, u), 1, 3)
    a, p, b = c.real("a", -1, 1), 0.4, c.real("b", -1, 1)
    g = c.real("bg", 0, 0.5) if bg else None
    s = shifts_obj("DetectorShiftsPRE", d, ang, max_shifts=50.0, borders_dvwu={"d": None, "v": None, "w": None, "u": nb or None})
    with patched(fitting, fit_sinusoid=lambda *args, **kw: (a, p, b)):
        sh, cor = s.fit_u(background=g)
    c.close("cor", cor, b, tol=0.00501)
    x = np.arange(3) - 1.0
    for i in range(n):
        line = d[i] if nd == 2 else (d[0, i] + d[1, i]) / 2
        line = line[nb : u - nb] - (g if bg else 0.0)
        com = -1.0 * (line * x).sum()
        c.close(f"shift_{i}", sh[i] * line.sum(), com - (a * float(np.sin(np.float32(ang[i]) + p)) + b) * line.sum(), tol=0.00501 * 9)


@case("P16", params=[dict(nd=2), dict(nd=3)])
def pre_u_max(c, nd):
    """The same for the position of the maximum."""
    from corrct.alignment import fitting

    ang = np.array([0.2, 1.5])
    d = c.array("d", (2, 3) if nd == 2 else (2, 2, 3), 1, 3)
    a, p, b = c.real("a", -1, 1), 0.4, c.real("b", -1, 1)
    s = shifts_obj("DetectorShiftsPRE", d, ang, max_shifts=50.0, precision_decimals=3)
    with patched(fitting, fit_sinusoid=lambda *args, **kw: (a, p, b)):
        sh, cor = s.fit_u(method="max")
    for i in range(2):
        line = d[i] if nd == 2 else (d[0, i] + d[1, i]) / 2
        pos = 1.0 - (sh[i] + a * float(np.sin(np.float32(ang[i]) + p)) + b)
        k = int(round(float(c.concretize(np.around(pos)))))
        c.check(f"pixel_{i}", 0 <= k <= 2)
        c.close(f"at_{i}", pos, float(k), tol=0.01)
        for j in range(3):
            c.le(f"max_{i}_{j}", line[j], line[min(max(k, 0), 2)], tol=1e-6)


@case("P16", params=[dict(nd=2, n=1), dict(nd=3, n=2), dict(nd=2, n=3)])
def max_shifts(c, nd, n):
    """Shifts beyond the maximum are set to zero, the others are kept; mean over the detectors; every shift."""
    from corrct.alignment import fitting

    sh = c.array("s", (2, n), -9, 9)
    lim = c.real("lim", 1, 5)
    s = shifts_obj("DetectorShiftsXC", np.zeros((n, 6) if nd == 2 else (4, n, 6)), np.linspace(0, 1, n), max_shifts=lim if nd == 2 else np.stack([lim, 2.0 * lim]))
    with patched(fitting, fit_shifts_vu_xc=lambda *a, **k: sh[1] if nd == 2 else sh):
        got = s.find_shifts_vu(s.data_vwu, s.data_vwu)

    def filt(x, m):
        return c.ite((x <= m) & (-1.0 * x <= m), x, 0.0 * x)

    if nd == 2:
        c.close("shifts", got, np.stack([filt(sh[1, i], lim) for i in range(n)]), tol=1e-9)
    else:
        c.close("shifts", got, np.stack([np.stack([filt(sh[k, i], lim * (k + 1)) for i in range(n)]) for k in range(2)]), tol=1e-9)


@case("P16", params=[dict(n=n, cor=k) for n, k in ((7, 1.0), (7, -0.5), (8, 0.5), (8, -1.0))])
def cor_180(c, n, cor):
    """The centre of rotation from opposite projections is where one mirrors the other, for 180 and 360 degree scans and any intensity of the images."""
    u = np.arange(n) - (n - 1) / 2
    x = c.real("x", 0.5, 2)

    def f(w):
        return np.exp(-((w - 0.3) ** 2) / 1.1) + 0.3 * np.exp(-((w + 1.0) ** 2))

    ang = np.array([0.2, 1.0, 0.2 + np.pi, 1.0 + np.pi])
    # a point at w from the axis is seen at cor + w, and at cor - w half a turn later
    img = np.stack([f(u - cor), f(u - cor), f(cor - u), f(cor - u)]) * x
    s = shifts_obj("DetectorShiftsXC", img, ang)
    c180, c360 = np.array(s.fit_u_180(), ndmin=1), s.fit_u_360()
    # the sub-pixel position of the peak depends on rounding: compare the bounds only
    c.check("c180", (c180 > -cor - 0.1) & (c180 < -cor + 0.1))
    c.check("c360", (c360 > -cor - 0.1) and (c360 < -cor + 0.1))


@case("P16", params=[dict(n=n, dv=d, der=r, mask=m) for n, d, r, m in ((6, 1, True, False), (7, -1, True, False), (6, -1, False, False), (6, 1, True, True))], scaling=True)
def pre_v(c, n, dv, der, mask):
    """Vertical pre-alignment recovers the vertical shifts (zero-mean) of shifted copies, for even and odd heights, whatever the intensity of each image."""
    v = np.arange(n) - (n - 1) / 2
    prof = [np.exp(-((v - q) ** 2) / 0.8) for q in (0, dv, 0)]
    x = c.array("x", (3,), 0.5, 2)
    img = np.stack([np.stack([prof[a] * x[a], prof[a] * (x[a] * 0.5)], axis=-1) for a in range(3)], axis=1)
    kw = dict(data_mask_dvwu=np.ones(img.shape)) if mask else {}
    s = shifts_obj("DetectorShiftsPRE", img, np.array([0.0, 0.5, 1.0]), **kw)
    got = s.fit_v(use_derivative=der)
    want = np.array([dv, 0.0, dv])
    c.close("shifts", got, want - want.mean(), tol=0.25)
    c.close("mean", got.sum(), 0.0, tol=0.02)


def minimum(c, wrong):
    """A minimizer: the start must be at least as good as any other point (it is the exact solution here)."""
    import types

    def minimize(f, x0, *args, **kw):
        x0 = np.array(x0)
        f0 = f(x0)
        c.close(f"l1_start_{len(x0)}", f0, 0.0, tol=1e-3)
        c.le(f"l1_{len(x0)}", f0, f(x0 + wrong[: len(x0)]), tol=1e-3)
        return types.SimpleNamespace(x=x0)

    return minimize


@case("P16", params=[dict(n=n, l1=l) for n in (2, 5) for l in (False, True)])
def camera_tilt(c, n, l1):
    """The camera tilt is minus the slope of the centres of rotation of the lines (half of the shift between the projection and the mirrored opposite one), and the offset is their value at half height; any offset and (small) slope."""
    from corrct.alignment import fitting

    a, b = c.real("a", -0.1, 0.1), c.real("b", -5, 5)
    wrong = c.array("wrong", (2,), -1, 1)
    v = np.arange(n) - (n - 1) / 2
    sh = 2 * (a * v + b)
    seen = []

    def xc(i1, i2, pad_u=False, **kw):
        seen.append((i1, i2, pad_u))
        return sh

    i1, i2 = np.ones((n, 3)), np.zeros((n, 3))
    with patched(fitting, fit_shifts_vu_xc=xc, minimize=minimum(c, wrong)):
        cor, tilt = fitting.fit_camera_tilt_angle(i1, i2, pad_u=True, fit_l1=l1)
    c.close("cor", cor, b, tol=1e-3)
    c.close("tilt", tilt * np.pi / 180, -a, tol=1e-3)
    c.check("images", all(np.array_equal(q[0], i1) and np.array_equal(q[1], i2) and q[2] is True for q in seen))


@case("P16", params=[dict(l1=l) for l in (False, True)])
def sinusoid(c, l1):
    """The fitted sinusoid is the one of the data: the model fitted is a sin(x + p) + b, started from half of the range and the middle of the values; any amplitude and bias (the curve fit is replaced by the exact solution)."""
    from corrct.alignment import fitting

    a, b = c.real("a", 0.5, 3), c.real("b", -3, 3)
    x = np.array([0.0, 0.5, 1.5, 3.0])
    p = 0.4
    vals = a * np.sin(x + p) + b
    wrong = c.array("wrong", (3,), -0.5, 0.5) * np.array([1.0, 0.0, 1.0])
    seen = []

    def curve_fit(f, xs, ys, p0=None, **kw):
        c.close("model", f(xs, a, p, b), vals, tol=1e-4)
        c.close("angles", xs, x, tol=1e-9)
        c.close("values", ys, vals, tol=1e-9)
        seen.append(p0)
        return np.array([a, p, b]), None

    with patched(fitting.spopt, curve_fit=curve_fit, minimize=minimum(c, wrong)):
        got = fitting.fit_sinusoid(x, vals, fit_l1=l1)
    c.close("fit", np.array(got), np.array([a, p, b]), tol=1e-4)
    hi, lo = np.sin(x + p).max(), np.sin(x + p).min()
    for p0 in seen:
        c.close("start", np.array(p0), np.array([a * (hi - lo) / 2, 0.0, a * (hi + lo) / 2 + b]), tol=1e-4)


@case("P16", params=[dict(nd=d, ref=r) for d in (2, 3) for r in (None, 1, 3)])
def drifts(c, nd, ref):
    """Drifts are the shifts of each image from its reference (the first image, the given one, or one for each image), in order; other numbers of references are refused; any shifts."""
    n = 3
    data = np.zeros((n, 4) if nd == 2 else (3, n, 4)) + np.arange(n)[:, None]
    s = shifts_obj("DetectorShiftsXC", data, np.linspace(0, 1, n), max_shifts=50.0)
    rel = c.array("rel", (2, 10, n), -3, 3)

    def find(d1, d2, *args, **kw):
        i, j = int(d1.flat[0]), int(d2.flat[0])
        return np.stack([np.stack([rel[k, i, j]]) for k in range(2)][3 - nd :])

    s.find_shifts_vu = find
    r = None if ref is None else np.zeros((ref, 4) if nd == 2 else (3, ref, 4)) + 5 + np.arange(ref)[:, None]
    got = s.fit_vu_accum_drifts(r)
    want = np.stack([np.stack([rel[k, 0 if ref is None else (5 if ref == 1 else 5 + i), i] for i in range(n)]) for k in range(3 - nd, 2)])
    c.shape("shape", got, (nd - 1, n))
    c.close("drifts", got, want, tol=0)
    c.raises("refused", ValueError, lambda: s.fit_vu_accum_drifts(np.zeros((2, 4) if nd == 2 else (3, 2, 4))))


@case("P16", params=[dict(l1=l) for l in (False, True)])
def ellipse(c, l1):
    """The ellipse of a fit has the fitted parameters and centre, both fitted on the given points with the same options."""
    from corrct.alignment import fitting

    q = c.array("q", (7,), 0.5, 2)
    pts = c.array("pts", (2, 4), -1, 1)
    seen = []

    def pars(p, rescale, use_l1_norm=False, **kw):
        seen.append((p, rescale, use_l1_norm))
        return tuple(q[:5])

    def center(p, rescale, use_l1_norm=False, **kw):
        seen.append((p, rescale, use_l1_norm))
        return q[5:]

    with patched(fitting, fit_ellipse_parameters=pars, fit_ellipse_center=center):
        for rs in (True, False):
            e = fitting.fit_ellipse(pts, rs, l1)
    c.close("pars", np.stack([e.a, e.b, e.c, e.u, e.v]), q[:5], tol=0)
    c.close("center", e.c_vu, q[5:], tol=0)
    c.check("options", [s[1:] for s in seen] == [(True, l1)] * 2 + [(False, l1)] * 2)
    for s in seen:
        c.close("points", s[0], pts, tol=0)


@case("P16", params=[dict(sh=s, ss=q) for s, q in (((5, 4), 1), ((3, 4), 3), ((4, 5), 2))])
def marker_disk(c, sh, ss):
    """Disk markers hold in each pixel the fraction of its sub-pixels within the radius from the centre of the central pixel (at half of the size, rounded down), for any radius; unconvolved."""
    from corrct.alignment import markers

    r = c.real("r", 0.2, 2.2)
    got = markers.create_marker_disk(sh, r, super_sampling=ss, conv=False)
    c.shape("shape", got, sh)
    off = ss // 2  # the sub-pixel in the middle (just after it for even numbers)
    for ix in np.ndindex(*sh):
        tot = 0.0
        near = False
        for sub in np.ndindex(ss, ss):
            d = [(i - s // 2) * ss + q - off for i, s, q in zip(ix, sh, sub)]
            # wrap-around of the coordinates
            d = [(x + s * ss // 2) % (s * ss) - s * ss // 2 for x, s in zip(d, sh)]
            rr = float(np.sqrt(d[0] ** 2 + d[1] ** 2)) / ss
            near = near | (np.abs(r - rr) < 1e-4)
            tot = tot + c.ite(rr < r, 1.0, 0.0)
        c.check(f"pix_{ix}", near | (np.abs(got[ix] - tot / ss**2) < 1e-4))


@case("P16", params=[dict(sh=s) for s in ((4, 6), (5, 7), (4, 5))])
def marker_track(c, sh):
    """Tracked positions are the pixel of the centred marker's centre (half of the size, rounded down) moved by the shift of each image from the marker; any shifts."""
    from corrct.alignment import fitting, markers

    n = 3
    rel = c.array("rel", (2, n), -3, 3)
    data = np.zeros((sh[0], n, sh[1]))
    m = np.ones(sh)
    seen = []

    def xc(d1, d2, stack_axis=-2, **kw):
        seen.append((d1, d2.shape, stack_axis))
        return rel.copy()

    with patched(fitting, fit_shifts_vu_xc=xc):
        got = markers.track_marker(data, m)
    want = np.stack([rel[k] + float(sh[k] // 2) for k in range(2)])
    c.close("pos", got, want, tol=1e-6)
    c.check("args", all(np.array_equal(q[0], data) and q[1] == (sh[0], 1, sh[1]) and q[2] == -2 for q in seen))


@case("P16", params=[dict(shape=s, ax=a, rfft=f) for s, a, f in (((3, 4), -2, True), ((3, 3), -3, True), ((4, 3), -1, False), ((4,), -2, True))], paths=400, bt=4)
def shift_margin(c, shape, ax, rfft):
    """With a margin, only the inner part of the second image is compared, wherever the stacking axis."""
    from corrct.alignment import fitting

    p = template(shape) + 0.1
    d = c.array("d", shape[-1:], -2, 2)
    if len(shape) > 1:  # the first row is any, the others are known
        d = np.stack([d] + [template(shape)[i] for i in range(1, shape[0])])
    got = fitting.fit_shifts_vu_xc(np.expand_dims(d, ax), np.expand_dims(p, ax), use_rfft=rfft, stack_axis=ax, margin=1, decimals=0)
    got = got.reshape((len(shape),))
    m = np.zeros(shape)
    m[tuple(slice(1, -1) for _ in shape)] = 1.0
    cc = xcorr(d, p * m, tuple(range(len(shape))))
    s = tuple(int(round(float(c.concretize(got[i])))) % shape[i] for i in range(len(shape)))
    for k in cc:
        c.le(f"max_{k}", cc[k], cc[s], tol=1e-3)


@case("P16", params=[dict(ax=a, one=o) for a in (-2, -3) for o in (False, True)], paths=400, bt=4)
def shift_stack(c, ax, one):
    """Each image of a stack is compared to its own projection (or all of them to the only one)."""
    from corrct.alignment import fitting

    shape = (2, 3)
    p = [template(shape) + 0.1, np.flip(template(shape), 0) * 0.7 + 0.2]
    d = [c.array("d", shape, -2, 2), np.roll(p[1], 1, axis=1)]
    pp = np.stack(p[:1] if one else p, axis=ax)
    got = fitting.fit_shifts_vu_xc(np.stack([d[0], d[1]], axis=ax), pp, stack_axis=ax, decimals=0)
    c.shape("shape", got, (2, 2))
    for i in range(2):
        cc = xcorr(d[i], p[0 if one else i], (0, 1))
        s = tuple(int(round(float(c.concretize(got[k, i])))) % shape[k] for k in range(2))
        for k in cc:
            c.le(f"max_{i}_{k}", cc[k], cc[s], tol=1e-3)


def bump(shape, width=1.2):
    r2 = sum((x - n // 2) ** 2 for x, n in zip(np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"), shape))
    return np.exp(-r2 / width)


def any_shift(c, sh, lim=1):
    return tuple(int(c.concretize(c.integer(f"d{i}", -min(lim, (n - 1) // 2), min(lim, (n - 1) // 2)))) for i, n in enumerate(sh))


def any_factor(c, norm):
    """Any factor (one of a few where the Fourier transform is normalised)."""
    return 0.5 * int(c.concretize(c.integer("x", 1, 4))) if norm else c.real("x", 0.5, 2)


@case("P16", params=[dict(sh=s, norm=k) for s in ((5, 6), (6, 5), (4, 7)) for k in (False, True)], scaling=True, paths=200)
def shifted_image(c, sh, norm):
    """A copy of an image, shifted by any numbers of pixels and scaled by any positive factor, gives its shifts, with sub-pixel refinement on and Fourier normalisation on or off."""
    from corrct.alignment import fitting

    p = bump(sh)
    d = any_shift(c, sh, 2)
    got = fitting.fit_shifts_vu_xc((np.roll(p, d, axis=(0, 1)) * any_factor(c, norm))[:, None, :], p[:, None, :], normalize_fourier=norm)
    c.close("shift", got, np.array(d, dtype=float)[:, None], tol=0.011)


@case("P16", params=[dict(sh=s, norm=k, rfft=r, pad=q) for s in ((5, 4, 4), (5, 6)) for k, r, q in ((True, True, False), (False, False, False), (True, False, False), (False, True, True))], scaling=True, paths=200)
def shifted_volume(c, sh, norm, rfft, pad):
    """A copy of a volume, shifted by any numbers of pixels and scaled by any positive factor, gives its shifts, with sub-pixel refinement, padding and Fourier normalisation on or off."""
    from corrct.alignment import fitting

    p = bump(sh, 0.6)
    d = any_shift(c, sh)
    got = fitting.fit_shifts_zyx_xc(np.roll(p, d, axis=tuple(range(len(sh)))) * any_factor(c, norm or pad or len(sh) == 3), p, pad_zyx=pad, normalize_fourier=norm, use_rfft=rfft)
    c.shape("shape", got, (len(sh),))
    # padded, the part that goes over the edge is no longer there
    c.close("shift", got, np.array(d, dtype=float), tol=0.2 if pad else 0.011)


@case("P16", params=[dict(n=n, s=s, norm=k, pad=q) for n, s in ((7, 1), (8, -2), (9, 0)) for k, q in ((1, False), (2, False), (1, True))], scaling=True)
def shifted_sad(c, n, s, norm, pad):
    """Sum-of-absolute-differences shifts of a shifted copy, with sub-pixel refinement; any common intensity."""
    from corrct.alignment import fitting

    p = np.exp(-((np.arange(n) - n // 2) ** 2) / 0.8)[None]
    x = c.real("x", 0.5, 2)
    got = fitting.fit_shifts_u_sad(np.roll(p, s, axis=-1) * x, p * x, search_range=3, error_norm=norm, pad_u=pad)
    # the profiles are not exactly symmetric around their shifts
    c.close("shift", got, np.array([float(s)]), tol=0.1)


@case("P16", params=[dict(n=n, s=s, dets=k, nd=e) for n, s in ((8, 1), (9, -2)) for k in (1, 2) for e in (2, 3)], scaling=True)
def derivative_shifts(c, n, s, dets, nd):
    """Shifts between images from their horizontal derivatives, for any intensity and offset of them, averaged over the detectors; in 2D and 3D."""
    u = np.exp(-((np.arange(n) - n // 2) ** 2) / 1.1)
    v = np.exp(-((np.arange(5) - 2) ** 2) / 1.1)
    x = c.real("x", 0.5, 2)
    o = 4.0
    p = u[None] if nd == 2 else v[:, None, None] * u
    p = p if dets == 1 else np.stack([p] * dets)
    kw = dict(data_format="wu" if nd == 2 else "vwu") if dets == 1 else dict(data_format="dwu" if nd == 2 else "dvwu")
    one = shifts_obj("DetectorShiftsXC", p, np.array([0.3]), max_shifts=50.0, **kw)
    got = one.find_shifts_vu((np.roll(p, s, axis=-1) + o) * x, p, use_derivative=True)
    c.shape("shape", got, (nd - 1, 1) if nd == 3 else (1,))
    # sub-pixel positions of the peaks of discrete derivatives
    c.close("shift_u", got[-1] if nd == 3 else got, np.array([float(s)]), tol=0.05)
    if nd == 3:
        c.close("shift_v", got[0], np.array([0.0]), tol=0.05)


@case("P16", params=[dict(rfft=r, mask=m, norm=k) for r, m, k in ((True, False, True), (False, False, True), (False, True, False), (True, True, True))], scaling=True)
def pre_v_detectors(c, rfft, mask, norm):
    """Vertical pre-alignment with several detectors uses the mean of their profiles, with either Fourier transform."""
    n = 6
    v = np.arange(n) - (n - 1) / 2
    prof = [np.exp(-((v - q) ** 2) / 0.8) for q in (0, 1, 0)]
    x = c.array("x", (3,), 0.5, 2)
    img = np.stack([np.stack([prof[a] * x[a], prof[a] * (x[a] * 0.5)], axis=-1) for a in range(3)], axis=1)
    img = np.stack([img * 0.5, img * 2.0])
    kw = dict(data_mask_dvwu=np.ones(img.shape)) if mask else {}
    s = shifts_obj("DetectorShiftsPRE", img, np.array([0.0, 0.5, 1.0]), max_shifts=np.array([3.0, 3.0]), **kw)
    got = s.fit_v(use_rfft=rfft, normalize_fourier=norm)
    want = np.array([1.0, 0.0, 1.0])
    c.close("shifts", got, want - want.mean(), tol=0.25)
    c.close("mean", got.sum(), 0.0, tol=0.02)
    two = shifts_obj("DetectorShiftsPRE", img[0, 0], np.array([0.0, 0.5, 1.0]), max_shifts=3.0)
    c.raises("flat", ValueError, lambda: two.fit_v())


@case("P16", params=[dict(dt="uint8"), dict(dt="int16")])
def integer_detectors(c, dt):
    """Alignment of integer data (raw counts): the background is subtracted, and derivatives are taken, as for the same real values."""
    from corrct.alignment import fitting

    ang = np.array([0.2, 1.5])
    d = c.intarray("d", (2, 3), 0, 120, dtype=np.dtype(dt))
    c.assume((d[:, 1] > 50).all())
    a, p, b = c.real("a", -1, 1), 0.4, c.real("b", -1, 1)
    s = shifts_obj("DetectorShiftsPRE", d, ang, max_shifts=50.0)
    with patched(fitting, fit_sinusoid=lambda *args, **kw: (a, p, b)):
        sh, cor = s.fit_u(background=40)
    for i in range(2):
        line = np.stack([np.maximum(d[i, j] * 1.0 - 40.0, 0.0) for j in range(3)])
        c.close(f"shift_{i}", sh[i] * line.sum(), (line[0] - line[2]) - (a * float(np.sin(np.float32(ang[i]) + p)) + b) * line.sum(), tol=0.00501 * 360)
    u = np.around(120 * np.exp(-((np.arange(9) - 4.0) ** 2) / 1.1)).astype(dt)[None]
    one = shifts_obj("DetectorShiftsXC", u, np.array([0.3]), max_shifts=50.0, data_format="wu")
    c.close("derivative", one.find_shifts_vu(np.roll(u, 2, axis=-1), u, use_derivative=True), np.array([2.0]), tol=0.05)


@case("P16", params=[dict(nd=3), dict(nd=4)])
def pre_u_detectors(c, nd):
    """Horizontal pre-alignment with several detectors uses the mean of them, any data."""
    from corrct.alignment import fitting

    ang = np.array([0.2, 1.5])
    d = c.array("d", (2, 2, 3) if nd == 3 else (2, 2, 2, 3), 1, 3)
    a, p, b = c.real("a", -1, 1), 0.4, c.real("b", -1, 1)
    kw = dict(data_format="dwu") if nd == 3 else {}
    s = shifts_obj("DetectorShiftsPRE", d, ang, max_shifts=50.0, **kw)
    with patched(fitting, fit_sinusoid=lambda *args, **kw: (a, p, b)):
        sh, cor = s.fit_u()
    c.close("cor", cor, b, tol=0.00501)
    for i in range(2):
        line = (d[0, i] + d[1, i]) / 2 if nd == 3 else (d[0, 0, i] + d[0, 1, i] + d[1, 0, i] + d[1, 1, i]) / 4
        com = line[0] - line[2]
        c.close(f"shift_{i}", sh[i] * line.sum(), com - (a * float(np.sin(np.float32(ang[i]) + p)) + b) * line.sum(), tol=0.00501 * 9)
    c.raises("unknown", ValueError, lambda: s.fit_u(method="middle"))


@case("P16", params=[dict(sh=s, pad=p) for s, p in (((32, 32), None), ((33, 33), None), ((31, 31), None), ((17, 17), "constant"), ((16, 16), "edge"))])
def image_rotation(c, sh, pad):
    """Rotation and scale of images: the spectra are taken around their centre (those of round images do not depend on the angle; even and odd sizes), and shifts of the polar spectra become degrees and logarithmic scales."""
    from corrct.alignment import fitting

    t, s = c.real("t", -89, 89), c.real("s", -4, 4)
    seen = []

    def xc(a, b, **kw):
        seen.append((a, b))
        return np.stack([np.stack([t]), np.stack([s])])

    n = sh[0]
    ax = np.arange(n) - (n - 1) / 2
    img = np.exp(-(ax[:, None] ** 2 + ax**2) / 3.0)
    with patched(fitting, fit_shifts_vu_xc=xc):
        tilt, scale = fitting.fit_image_rotation_and_scale(img, img * 2.0, pad_mode=pad)
    c.close("tilt", tilt, t, tol=1e-3)
    m = n * 2 if pad == "edge" else (n + 2 * (n // 2) if pad else n)
    a, b = seen[0][0][:, 0, :], seen[0][1][:, 0, :]
    c.check("half", a.shape[0] == 180)
    # the columns are equally spaced in the logarithm of the distance, up to the radius
    width = a.shape[1] + 1
    c.exp_anchors(np.linspace(-4, 4, 9) * np.log(m // 2) / width)
    c.close("scale", c.log(scale), s * float(np.log(m // 2)) / width, tol=1e-3)
    for nm, q, k in (("first", a, 1.0), ("second", b, 2.0)):
        spread = float(np.abs(q - q.mean(axis=0)).max())
        c.check(f"round_{nm}", spread < 0.03 * float(q.max()))
    c.close("same", b, a * 2.0, tol=1e-3)
    c.raises("shapes", ValueError, lambda: fitting.fit_image_rotation_and_scale(img, img[1:]))
