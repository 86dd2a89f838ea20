"""P20: pre-processing: flat fields, shifts, binning, backgrounds, destriping."""

import numpy as np

from harness.p16 import patched
from vf.ctx import case


def fmin(c, a, b):
    return c.ite(a < b, a, b)


@case("P20", params=[dict(dark=d, crop=k, cap=q, nf=f) for d, k, q, f in ((0, False, False, 0), (2, True, False, 2), (3, False, True, 0), (3, True, True, 3), (2, False, True, 1), (0, True, True, 2), (2, False, False, 0), (2, False, False, 2))])
def flat_field(c, dark, crop, cap, nf):
    """Flat-field correction is (projections - dark) / (flat - dark), averaging stacks of flats and darks, cropped and capped as requested, and leaves its inputs alone; any intensities."""
    from corrct.processing import pre

    sh = (2, 3)
    p = c.array("p", (2, *sh), 0, 4)
    f = c.array("f", (nf, *sh) if nf else sh, 2, 3)
    d = None if dark == 0 else c.array("d", sh if dark == 2 else (3, *sh), 0, 1)
    k = c.real("cap", 0.5, 2) if cap else None
    p0, f0, d0 = p.copy(), f.copy(), None if d is None else d.copy()
    got = pre.apply_flat_field(p, f, d, crop=(0, 1, 2, 3) if crop else None, cap_intensity=k)
    fm = f.sum(axis=0) / nf if nf else f
    dm = np.zeros(sh) if d is None else (d if dark == 2 else d.sum(axis=0) / 3)
    sel = (slice(0, 2), slice(1, 3)) if crop else (slice(None), slice(None))
    c.shape("shape", got, (2, 2, 2) if crop else p.shape)
    for w in range(2):
        for ix in np.ndindex(*got.shape[1:]):
            want = (p[w][sel][ix] - dm[sel][ix]) / (fm[sel][ix] - dm[sel][ix])
            c.close(f"val_{w}_{ix}", got[w][ix], fmin(c, want, k) if cap else want, tol=1e-4)
    c.close("p", p, p0, tol=0)
    c.close("f", f, f0, tol=0)
    if d is not None:
        c.close("d", d, d0, tol=0)


@case("P20", params=[dict(lim=q) for q in (False, True)])
def minus_log(c, lim):
    """Linearisation is minus the logarithm, no lower than the limit; any transmissions."""
    from corrct.processing import pre

    p = c.array("p", (3,), 0.05, 3)
    q = c.real("q", -0.5, 0.5)
    got = pre.apply_minus_log(p, lower_limit=q) if lim else pre.apply_minus_log(p)
    for i in range(3):
        v = -c.log(p[i])
        if lim:
            v = c.ite(v > q, v, q)
        c.close(f"val_{i}", got[i], v, tol=1e-5)


@case("P20", params=[dict(width=w, ax=a, mode=m) for w, a, m in ((1, -1, "edge"), ((1, 2), -1, "edge"), ((2, 0), -2, "edge"), (2, 0, "Constant"), ([2, 1], -1, "reflect"))])
def padding(c, width, ax, mode):
    """Padding extends the chosen axis only, by the requested samples on each side, with the sinogram in the middle."""
    from corrct.processing import pre

    x = c.array("x", (2, 3), -2, 2)
    got = pre.pad_sinogram(x, width, pad_axis=ax, mode=mode)
    a, b = (width, width) if isinstance(width, int) else tuple(width)
    sh = list(x.shape)
    sh[ax] += a + b
    c.shape("shape", got, tuple(sh))
    g, y = np.moveaxis(got, ax, 0), np.moveaxis(x, ax, 0)
    n = len(y)
    c.close("middle", g[a : a + n], y, tol=1e-9)
    pick = dict(edge=lambda i: y[min(max(i, 0), n - 1)], constant=lambda i: y[0] * 0, reflect=lambda i: y[-i if i < 0 else 2 * (n - 1) - i])[mode.lower()]
    for i in [*range(-a, 0), *range(n, n + b)]:
        c.close(f"pad_{i}", g[a + i], pick(i), tol=1e-9)


@case("P20", params=[dict(sh=s, fft=f) for f in (False, True) for s in ((2, 2, 3), (3, 2, 4), (2, 3))])
def shifts(c, sh, fft):
    """Each projection is shifted by its own shifts: whole pixels roll around (Fourier) or repeat the border pixels (direct), half pixels of direct shifts average the neighbours; any projections, even and odd sizes."""
    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    nd = len(sh) - 1
    sft = np.array([[1.0, -1.0], [-1.0, 2.0]]) if nd == 2 else np.array([[1.0, -2.0]])
    x0 = x.copy()
    got = pre.shift_proj_stack(x, sft[:, : sh[-2]] if nd == 2 else sft[0], use_fft=fft)
    c.shape("shape", got, sh)
    for w in range(2):
        img, s = x[..., w, :], sft[:, w].astype(int)
        for ix in np.ndindex(*img.shape):
            src = [i - k for i, k in zip(ix, s)]
            src = [q % n if fft else min(max(q, 0), n - 1) for q, n in zip(src, img.shape)]
            c.close(f"{w}_{ix}", got[..., w, :][ix], img[tuple(src)], tol=1e-4)
    if not fft:
        h = np.array([[0.0] * 2, [0.5, -0.5]]) if nd == 2 else np.array([[0.5, -0.5]])
        got = pre.shift_proj_stack(x, h if nd == 2 else h[0], use_fft=False)
        for w in range(2):
            img, s = x[..., w, :], 1 if w == 0 else -1
            n = img.shape[-1]
            for j in range(n):
                q = min(max(j - s, 0), n - 1)
                c.close(f"half_{w}_{j}", got[..., w, j], (img[..., j] + img[..., q]) / 2, tol=1e-4)
    c.close("input", x, x0, tol=0)


@case("P20")
def rotations(c):
    """Rotating a stack of projections rotates every projection by itself: quarter and half turns permute the pixels, opposite turns undo each other; any projections."""
    from corrct.processing import pre

    x = c.array("x", (3, 2, 3), -2, 2)
    r = lambda y, a: pre.rotate_proj_stack(y, a)
    c.close("zero", r(x, 0.0), x, tol=1e-4)
    q, h = r(x, 90.0), r(x, 180.0)
    for w in range(2):
        c.close(f"quarter_{w}", q[:, w], x[:, w][::-1].T, tol=1e-4)
        c.close(f"half_{w}", h[:, w], x[::-1, w, ::-1], tol=1e-4)
    c.close("undo", r(q, -90.0), x, tol=1e-4)
    y = r(x, 30.0)
    c.close("centre", y[1, :, 1], x[1, :, 1], tol=1e-4)
    z = x.copy()
    z[:, 0] = 0.0
    c.close("independent", r(z, 30.0)[:, 1], y[:, 1], tol=1e-4)


@case("P20", params=[dict(sh=s, b=b, axes=a) for s, b, a in (((4, 6), 2, (-2, -1)), ((5, 7), 2, (-2, -1)), ((2, 3, 4), 3, (-1,)), ((3, 2, 5), 2, (0, 2)), ((1, 7), 4, (-1,)), ((2, 8), 3, (1,)))])
def binning(c, sh, b, axes):
    """Binned pixels are the means of their blocks, along the chosen axes only, after cropping the excess evenly from both ends; any images."""
    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    got = pre.bin_imgs(x, b, axes=axes, auto_crop=True, verbose=False)
    ax = [a % len(sh) for a in axes]
    out = tuple(n // b if i in ax else n for i, n in enumerate(sh))
    c.shape("shape", got, out)

    def block(front):
        y = x
        for a in ax:
            e = sh[a] % b
            lo = e - e // 2 if front else e // 2
            y = np.moveaxis(np.moveaxis(y, a, 0)[lo : lo + sh[a] - e], 0, a)
        r = np.stack([y[tuple(slice(q * b, q * b + b) if i in ax else slice(q, q + 1) for i, q in enumerate(ix))].sum() / b ** len(ax) for ix in np.ndindex(*out)])
        return r.reshape(out)

    d1, d2 = abs(got - block(True)), abs(got - block(False))
    c.check("means", np.all(d1 < 1e-4) | np.all(d2 < 1e-4))
    if all(n % b == 0 for i, n in enumerate(sh) if i in ax):
        c.close("no_crop", pre.bin_imgs(x, b, axes=axes, verbose=False), got, tol=1e-6)


@case("P20", params=[dict(sh=s, m=m) for s in ((2, 5), (2, 2, 5)) for m in (1, (2, 1), (2, 0), (0, 2), (3, 2), 2)])
def margins(c, sh, m):
    """The background of each line is the mean of its margins (a margin may be empty), averaged over the rows of each angle; any data."""
    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    got = pre.background_from_margin(x, m)
    a, b = (m, m) if isinstance(m, int) else m
    s = x[..., :a].sum(axis=-1) + x[..., 5 - b :].sum(axis=-1) if b else x[..., :a].sum(axis=-1)
    want = s / (a + b)
    if len(sh) == 3:
        want = want.sum(axis=0) / sh[0]
    c.check("width", got.shape[-1] == 5 and got.shape[-2] == 2)
    for w in range(2):
        for u in range(5):
            c.close(f"bg_{w}_{u}", got[..., w, u] + np.zeros(got.shape[:-2]), want[w] + np.zeros(got.shape[:-2]), tol=1e-4)
    c.raises("large", ValueError, lambda: pre.background_from_margin(x, 3))


@case("P20", params=[dict(sh=s, m=m, o=o) for s in ((2, 7), (2, 2, 7)) for m, o in ((2, 1), ((1, 2), 1), (3, 2), ((2, 0), 1))])
def margin_poly(c, sh, m, o):
    """A background that is polynomial in the margins is continued exactly under the object, whatever the object; without one of the margins the background is constant."""
    from corrct.processing import pre

    n = sh[-1]
    x = c.array("x", sh, -2, 2)
    k = c.array("k", (*sh[:-1], 3), -1, 1)
    a, b = (m, m) if isinstance(m, int) else m
    u = np.arange(n) / n
    line = k[..., 0:1] + k[..., 1:2] * u + (k[..., 2:3] * u * u if o > 1 else 0.0)
    y = x.copy()
    y[..., :a] = line[..., :a]
    if b:
        y[..., n - b :] = line[..., n - b :]
    got = pre.background_from_margin(y, m, poly_order=o)
    want = line if b else (line[..., :a].sum(axis=-1) / a)[..., None] + np.zeros(n)
    if len(sh) == 3:
        want = want.sum(axis=0) / 2
    for w in range(2):
        g = got[..., w, :]
        for q in (g if g.ndim > 1 else [g]):
            c.close(f"line_{w}", q, want[w], tol=1e-3)


@case("P20", params=[dict(sh=s, dims=d, it=i) for s, d, i in (((4,), None, 1), ((4,), None, 2), ((2, 3), 1, 1), ((2, 2), None, 1))] + [dict(sh=(5,), dims=None, it=1, win=5)], budget=90)
def snip(c, sh, dims, it, win=3):
    """SNIP backgrounds replace pixels by the mean of the border of the window around them when that is smaller: never above the image nor below its minimum, along the chosen dimensions only; any image."""
    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    x0 = x.copy()
    got = pre.snip(x, kernel_dims=dims, iterations=it, window=win)
    c.shape("shape", got, sh)
    nd = dims or len(sh)
    cur = x
    for _ in range(it):
        new = cur.copy()
        for ix in np.ndindex(*sh):
            nb = []
            for o in np.ndindex(*([win] * nd)):
                if all(0 < q < win - 1 for q in o):  # the border of the window only
                    continue
                off = [0] * (len(sh) - nd) + [q - win // 2 for q in o]
                nb.append(cur[tuple(min(max(i + q, 0), n - 1) for i, q, n in zip(ix, off, sh))])
            new[ix] = fmin(c, cur[ix], sum(nb) / len(nb))
        cur = new
    c.close("value", got, cur, tol=1e-4)
    for ix in np.ndindex(*sh):
        c.le(f"below_{ix}", got[ix], x[ix], tol=1e-6)
    c.close("input", x, x0, tol=0)
    c.raises("dims", ValueError, lambda: pre.snip(x, kernel_dims=len(sh) + 1))


@case("P20", params=[dict(sh=s, sm=q) for s, q in (((2, 3), None), ((2, 2, 3), None), ((2, 1, 2, 3), None), ((2, 3), 0.7), ((2, 2, 2), 0.5))])
def snip_stack(c, sh, sm):
    """Backgrounds of stacks are the SNIP backgrounds of each projection (and slice), smoothed first when asked for; the data are left alone."""
    from scipy.ndimage import gaussian_filter

    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    x0 = x.copy()
    got = pre.background_from_snip(x, snip_iterations=1, smooth_std=sm)
    c.close("input", x, x0, tol=0)
    for w in range(2):
        img = x[..., w, :]
        img = gaussian_filter(img, sigma=sm) if sm else img
        if img.ndim > 2:
            want = np.stack([pre.snip(img[i], iterations=1) for i in range(len(img))])
        else:
            want = pre.snip(img, iterations=1)
        c.close(f"prj_{w}", got[..., w, :], want, tol=1e-6)


@case("P20", params=[dict(sh=s, ang=a, lev=l, oth=o, wl=w) for s, a, l, o, w in (
    ((4, 4), -2, 1, None, "bior2.2"), ((4, 4), -1, 1, None, "bior2.2"), ((4, 3), -2, 1, None, "db2"), ((2, 4, 3), -2, 1, [-2, -1], "bior2.2"),
    ((4, 2, 2), 0, 1, None, "db1"), ((2, 4, 2), -2, 1, [-1], "bior2.2"), ((4, 5), -2, 2, None, "db1"), ((2, 2, 4), 2, 1, [1, 2], "db1"), ((8, 1), -2, 3, None, "db1"))])
def destripe(c, sh, ang, lev, oth, wl):
    """Destriping changes nothing but the mean over the angles (the changes are constant along the angle axis), keeps the shape and leaves constant images and inputs alone; any data."""
    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    k = c.real("k", -2, 2)
    x0 = x.copy()
    kw = dict(level=lev, wavelet=wl, angle_axis=ang, other_axes=oth)
    got = pre.destripe_wlf_vwu(x, **kw)
    c.shape("shape", got, sh)
    d = np.moveaxis(got - x, ang, 0)
    for i in range(1, len(d)):
        c.close(f"constant_{i}", d[i], d[0], tol=1e-3)
    c.close("input", x, x0, tol=0)
    flat = np.zeros(sh) + k
    c.close("flat", pre.destripe_wlf_vwu(flat, **kw), flat, tol=1e-4)


@case("P20")
def destripe_removes(c):
    """With one wavelet level a detector-to-detector alternation is removed entirely."""
    from corrct.processing import pre

    a, m = c.real("a", -2, 2), c.real("m", -2, 2)
    x = np.zeros((4, 4)) + m + a * np.array([1.0, -1.0, 1.0, -1.0])
    c.close("removed", pre.destripe_wlf_vwu(x, wavelet="db1"), np.zeros((4, 4)) + m, tol=1e-4)


@case("P20", params=[dict(nf=n, dark=d) for n, d in ((0, 0), (1, 0), (1, 2), (1, 1))] + [dict(nf=1, dark=k, nd=1) for k in (0, 1, 2)], budget=90)
def eigen_flats(c, nf, dark, nd=2):
    """Eigen flats factor the transmissions: flat times projection parts give back the (dark-corrected) images, for any singular value decomposition of their logarithms; shapes are those of the transmissions."""
    from corrct.processing import pre

    nt = 2
    n = nt + nf
    U, s, V = c.array("U", (2, 2), -1, 1), c.array("s", (2,), 0, 1), c.array("V", (2, n), -1, 1)
    z = (U * s) @ V
    sh = (1, 2)[2 - nd :]
    imgs = np.exp(z).T.reshape((n,) + sh)
    d = c.array("d", sh if dark == 2 else (n,) + sh, 0, 1) if dark else None
    raw = imgs if d is None else imgs + (d if dark == 2 else d.sum(axis=0) / n)
    with patched(np.linalg, svd=lambda m, full_matrices=True: (U, s, V)):
        prj, flat = pre.compute_eigen_flats(raw[:nt], raw[nt:] if nf else None, d, **(dict(ndim=1) if nd == 1 else {}))
    c.shape("prj", prj, (nt,) + sh)
    c.shape("flat", flat, (nt,) + sh)
    prj, flat = prj.reshape(nt, 1, 2), flat.reshape(nt, 1, 2)
    for i in range(nt):
        for j in range(2):
            c.close(f"flat_{i}_{j}", c.log(flat[i, 0, j]), U[j, 0] * s[0] * V[0, i], tol=1e-4)
            c.close(f"prj_{i}_{j}", c.log(prj[i, 0, j]), U[j, 1] * s[1] * V[1, i], tol=1e-4)


@case("P20", params=[dict(sh=s, b=b, axes=a) for s, b, a in (((5,), 1.5, (-1,)), ((4, 6), 1.6, (-2, -1)), ((2, 5, 5), 2.5, (-2, -1)), ((5, 2, 6), 1.5, (0, 2)), ((2, 5), 2.5, (-1,)), ((2, 1, 2, 5), 1.6, (-1,)))])
def binning_fractional(c, sh, b, axes):
    """Fractional binning only changes the sizes of the chosen axes (to the closest integers); the images along the others stay separate, flat images keep their value (stored as floats or integers), and no value leaves the image's range; any images."""
    from corrct.processing import pre

    x = c.array("x", sh, -2, 2)
    kw = dict(axes=axes, verbose=False)
    got = pre.bin_imgs(x, b, **kw)
    ax = [a % len(sh) for a in axes]
    c.shape("shape", got, tuple(int(np.round(n / b)) if i in ax else n for i, n in enumerate(sh)))
    v = c.real("v", 1, 9)
    c.close("flat", pre.bin_imgs(np.stack([v] * int(np.prod(sh))).reshape(sh), b, **kw), np.stack([v] * got.size).reshape(got.shape), tol=1e-4)
    c.close("counts", pre.bin_imgs(np.full(sh, 300, dtype=np.uint16), b, **kw), np.full(got.shape, 300.0), tol=1e-2)
    other = [i for i in range(len(sh)) if i not in ax and sh[i] > 1]
    if other:
        y = np.moveaxis(x, other[0], 0).copy()
        y[0] = 0.0
        y = np.moveaxis(pre.bin_imgs(np.moveaxis(y, 0, other[0]), b, **kw), other[0], 0)
        c.close("separate", y[1:], np.moveaxis(got, other[0], 0)[1:], tol=1e-4)
    c.le("max", got, 2.0, tol=1e-4)
    c.le("min", -1.0 * got, 2.0, tol=1e-4)


INT = dict(
    flat=lambda p, x, y: p.apply_flat_field(x, y[0] + y[0].dtype.type(60), y[1]),
    flats=lambda p, x, y: p.apply_flat_field(x, y + y.dtype.type(60), cap_intensity=0.4),
    shift=lambda p, x, y: p.shift_proj_stack(x, np.array([[0.5, -1.25], [0.25, 0.0]])),
    shift_fft=lambda p, x, y: p.shift_proj_stack(x, np.array([[0.5, -1.25], [0.25, 0.0]]), use_fft=True),
    rotate=lambda p, x, y: p.rotate_proj_stack(x, 30.0),
    bin=lambda p, x, y: p.bin_imgs(x, 2, axes=(0, 1), verbose=False),
    binf=lambda p, x, y: p.bin_imgs(x, 1.5, verbose=False),
    margin=lambda p, x, y: p.background_from_margin(x, 1),
    poly=lambda p, x, y: p.background_from_margin(x, 1, poly_order=1),
    snip=lambda p, x, y: p.snip(x[0], iterations=1),
    snips=lambda p, x, y: p.background_from_snip(x, snip_iterations=1, smooth_std=0.7),
    pad=lambda p, x, y: p.pad_sinogram(x, 1),
    destripe=lambda p, x, y: p.destripe_wlf_vwu(x[0], sigma=0.1, level=1),
)


@case("P20", params=[dict(op=o, dtype=d) for o in INT for d in ("uint16", "int64")], budget=60)
def integer_images(c, op, dtype):
    """Camera images of integers, signed or not, are processed as the numbers they are; any counts."""
    from corrct.processing import pre

    x = c.intarray("x", (2, 2, 3), 0, 50, dtype=np.dtype(dtype))
    y = c.intarray("y", (2, 2, 3), 0, 50, dtype=np.dtype(dtype))
    x0 = x * 1.0
    got = INT[op](pre, x, y)
    want = INT[op](pre, x0, y * 1.0)
    c.shape("shape", got, want.shape)
    c.close("same", got, want, tol=2e-3)
    c.close("input", x, x0, tol=0)


@case("P20", params=[dict(dtype=d) for d in ("uint16", "int64")], budget=60)
def integer_flats(c, dtype):
    """Eigen flats of integer camera images decompose the logarithms of the images minus the (mean) darks, however large the darks are; any counts."""
    from corrct.processing import pre

    d = np.dtype(dtype)
    x, f, k = c.intarray("x", (2, 1, 2), 0, 50, dtype=d), c.intarray("f", (1, 1, 2), 0, 50, dtype=d), c.intarray("k", (1, 2), 0, 50, dtype=d)
    seen = []

    def svd(m, full_matrices=True):
        seen.append(m)
        return np.ones((2, 2)), np.ones(2), np.ones((2, 3))

    with patched(np.linalg, svd=svd):
        pre.compute_eigen_flats(x, f, k)
    img = np.concatenate((x * 1.0, f * 1.0)).reshape(3, 2).T
    c.close("decomposed", np.exp(seen[0]), np.fmax(img - (k * 1.0).reshape(2, 1), np.finfo(np.float32).eps), tol=1e-3)
