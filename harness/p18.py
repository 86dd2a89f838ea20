"""P18: structured illumination: masks, their collections, and ghost imaging / tomography projectors."""

import numpy as np

from harness.p16 import patched
from harness.solverlib import order
from vf.ctx import case


def inner(a, b):
    return (np.asarray(a) * np.asarray(b)).sum()


@case("P18", params=[dict(fov=f, n=n, st=s, dec=d) for f, n, s, d in (((2, 2), 3, 0, False), ((2, 3), 2, 0, True), ((2, 2), 3, 2, True), ((4,), 3, 0, False), ((3,), 2, 2, True), ((2, 2), 1, 2, False), ((1, 2), 2, 1, True))])
def ghost_imaging(c, fov, n, st, dec):
    """Each bucket value is the scalar product of the image with its encoding mask, and the back-projection sums the decoding masks weighed by the buckets, for one image or a stack; any masks, images and buckets."""
    from corrct import struct_illum as si

    enc = c.array("enc", (n, *fov), -2, 2)
    d = c.array("dec", (n, *fov), -2, 2) if dec else None
    p = si.ProjectorGhostImaging(si.MaskCollection(enc, d, mask_dims=len(fov)))
    d = enc if d is None else d
    lead = (st,) if st else ()
    x, b = c.array("x", (*lead, *fov), -2, 2), c.array("b", (*lead, n), -2, 2)
    got = p.fp(x)
    want = np.stack([np.stack([inner(e, xx) for e in enc]) for xx in (x if st else [x])])
    c.close("fp", got.reshape(want.shape), want, tol=1e-5)
    got = p.bp(b)
    c.shape("shape", got, (*lead, *fov))
    want = np.stack([sum(bb[i] * d[i] for i in range(n)) for bb in (b if st else [b])])
    c.close("bp", got.reshape(want.shape), want, tol=1e-5)
    c.check("shapes", tuple(p.vol_shape) == tuple(fov) and tuple(p.prj_shape) == (n,))
    if not st:
        c.close("T", p.T(b), p.bp(b), tol=1e-6)
        c.close("call", p(x), p.fp(x), tol=1e-6)
        a = p.absolute()
        c.close("absolute", a.fp(x), np.stack([inner(abs(e), x) for e in enc]), tol=1e-5)
        c.close("absolute_bp", a.bp(b), sum(b[i] * abs(d[i]) for i in range(n)), tol=1e-5)
        c.close("masks_kept", np.stack([np.array(p.mc.masks_enc), np.array(p.mc.masks_dec)]), np.stack([enc, d]), tol=1e-9)
        c.close("untouched", p.fp(x), np.stack([inner(e, x) for e in enc]), tol=1e-5)


class Tomo:
    """Tomographic projector given by a matrix."""

    def __new__(cls, vol, prj, W):
        from corrct.operators import ProjectorOperator

        class Op(ProjectorOperator):
            def __init__(self):
                self.vol_shape, self.prj_shape = vol, prj
                super().__init__()

            def fp(self, x):
                return (W @ x.reshape(-1)).reshape(prj)

            def bp(self, y):
                assert tuple(y.shape) == tuple(prj), f"wrong shape of the projections: {y.shape}"
                return (W.T @ y.reshape(-1)).reshape(vol)

        return Op()


@case("P18", params=[dict(nv=v, nw=w, n=n) for v, w, n in ((0, 2, 2), (0, 1, 2), (2, 2, 1), (2, 1, 2), (1, 2, 2))])
def ghost_tomography(c, nv, nw, n):
    """Ghost tomography illuminates the projection of every angle with all masks: buckets are [angle, mask], back-projection is the adjoint, volume and buckets have the operator's shapes; any line integrals, masks and volumes; one or many angles."""
    from corrct import struct_illum as si

    nu = 2
    fov = (nv, nu) if nv else (nu,)
    prj = (nv, nw, nu) if nv else (nw, nu)
    vol = (nv, 1, nu + 1) if nv else (1, nu + 1)
    nvx = int(np.prod(vol))
    W = c.array("W", (int(np.prod(prj)), nvx), 0, 2)
    enc = c.array("enc", (n, *fov), 0, 2)
    p = si.ProjectorGhostTomography(si.MaskCollection(enc, mask_dims=len(fov)), Tomo(vol, prj, W))
    x, b = c.array("x", vol, -2, 2), c.array("b", (nw, n), -2, 2)
    got = p.fp(x)
    c.shape("fp_shape", got, (nw, n))
    line = (W @ x.reshape(-1)).reshape(prj)
    for i in range(nw):
        for k in range(n):
            c.close(f"fp_{i}_{k}", got[i, k], inner(enc[k], line[..., i, :]), tol=1e-4)
    c.shape("bp_shape", p.bp(b), vol)
    img = [sum(b[i, k] * enc[k] for k in range(n)) for i in range(nw)]
    y = np.stack(img, axis=-2)
    c.close("bp", p.bp(b), (W.T @ y.reshape(-1)).reshape(vol), tol=1e-4)
    c.check("shapes", tuple(int(s) for s in p.vol_shape) == vol and tuple(int(s) for s in p.prj_shape) == (nw, n))
    c.check("operator", tuple(int(s) for s in p.shape) == (nw * n, nvx))
    c.close("T", p.T(b), p.bp(b), tol=1e-6)
    c.close("call", p(x), p.fp(x), tol=1e-6)


@case("P18")
def ghost_tomography_mismatch(c):
    """Masks that do not have the size of the projections are refused, for every detector size."""
    from corrct import struct_illum as si

    nu = int(c.concretize(c.integer("nu", 1, 4)))
    mc = si.MaskCollection(np.ones((2, 3)), mask_dims=1)
    tomo = Tomo((2, nu + 1), (2, nu), np.zeros((2 * nu, 2 * (nu + 1))))
    if nu == 3:
        p = si.ProjectorGhostTomography(mc, tomo)
        c.check("accepted", tuple(int(s) for s in p.prj_shape) == (2, 2))
    else:
        c.raises("refused", ValueError, lambda: si.ProjectorGhostTomography(mc, tomo))


@case("P18", params=[dict(fov=f, lst=k) for f in ((2, 2), (3,)) for k in (True, False)] + [dict(fov=f, lst=True, dec=True) for f in ((2, 2), (3,))])
def inversion(c, fov, lst, dec=False):
    """Least-squares inversion of the buckets of full collections returns the image, also when the decoding masks differ; every image."""
    from corrct import struct_illum as si

    npix = int(np.prod(fov))
    m = ((np.arange(npix * (npix + 1)) * 7 + 1) % 11).reshape(npix + 1, *fov) / 5.0
    p = si.ProjectorGhostImaging(si.MaskCollection(m, m[::-1] - 1.0 if dec else None, mask_dims=len(fov)))
    x = c.array("x", fov, -2, 2)
    c.close("image", p.fbp(p.fp(x), use_lstsq=lst), x, tol=1e-3)


@case("P18", params=[dict(nv=v, nw=w, dec=d, adj=a) for v, w, d, a in ((0, 2, False, False), (0, 3, True, False), (2, 2, False, False), (2, 1, True, True), (0, 2, True, True))], budget=60)
def ghost_tomography_fbp(c, nv, nw, dec, adj):
    """Filtered back-projection of ghost tomography data: that of the projections that ghost imaging gives (least squares, or back-projection when decoding masks differ), rescaled when asked; a volume; any volumes."""
    from corrct import solvers
    from corrct import struct_illum as si

    nu = 2
    fov = (nv, nu) if nv else (nu,)
    prj = (nv, nw, nu) if nv else (nw, nu)
    vol = (nv, 1, nu + 1) if nv else (1, nu + 1)
    nvx, npix = int(np.prod(vol)), int(np.prod(fov))
    W = ((np.arange(int(np.prod(prj)) * nvx) * 5 + 2) % 7).reshape(-1, nvx) / 4.0
    n = npix + 1
    enc = ((np.arange(npix * n) * 7 + 1) % 11).reshape(n, *fov) / 5.0
    mc = si.MaskCollection(enc, enc * 2.0 - 0.5, mask_dims=len(fov)) if dec else si.MaskCollection(enc, mask_dims=len(fov))
    tomo = Tomo(vol, prj, W)
    p = si.ProjectorGhostTomography(mc, tomo)
    g = si.ProjectorGhostImaging(mc)
    b = c.array("b", (nw, n), -2, 2) if dec else p.fp(c.array("x", vol, -2, 2))
    got = p.fbp(b, use_lstsq=not dec, adjust_scaling=adj)
    imgs = np.stack([g.fbp(b[i], use_lstsq=not dec, adjust_scaling=adj) for i in range(nw)], axis=-2)
    c.shape("shape", got, vol)
    c.close("fbp", got, solvers.FBP()(tomo, imgs, 0)[0], tol=1e-3)


@case("P18", params=[dict(shape=s, n=n) for s, n in (((2, 2), 2), ((2, 3), 3), ((3,), 2), ((1, 3), 4))] + [dict(shape=s, n=n, st=2) for s, n in (((2, 2), 3), ((3,), 2))])
def sampling_scale(c, shape, n, st=0):
    """Undersampling correction keeps the mean and scales the deviations by pixels / masks, of each image of a stack; every image."""
    from corrct import struct_illum as si

    p = si.ProjectorGhostImaging(si.MaskCollection(np.ones((n, *shape)), mask_dims=len(shape)))
    x = c.array("x", (st, *shape) if st else shape, -2, 2)
    npix = int(np.prod(shape))
    mean = np.stack([q.sum() / npix + 0 * q for q in x]) if st else x.sum() / npix
    c.close("image", p.adjust_sampling_scaling(x), mean + (x - mean) * (npix / n), tol=1e-4)


@case("P18", params=[dict(dec=d) for d in (True, False)], budget=60)
def mura(c, dec):
    """Correlating all shifted MURA encoding masks with the decoding masks gives the image back, scaled, plus a constant: every image."""
    from corrct import struct_illum as si

    p = si.ProjectorGhostImaging(si.MaskGeneratorMURA(5.0).generate_collection())
    x = c.array("x", (5, 5), -1, 1)
    y = p.fbp(p.fp(x), use_lstsq=False) if dec else p.bp(p.fp(x))
    # 12 of the 25 elements are open; any two different masks share 6 of them
    c.close("image", y - y.sum() / 25, (x - x.sum() / 25) * 6, tol=1e-3)


@case("P18")
def mura_masks(c):
    """MURA masks are the shifts of the base mask: the element at (i, j) of the mask shifted by (v, u) is the element (i - v, j - u) of the base mask."""
    from corrct import struct_illum as si

    g = si.MaskGeneratorMURA(5.0)
    v, u = int(c.concretize(c.integer("v", 0, 4))), int(c.concretize(c.integer("u", 0, 4)))
    base = np.array(g.generate_shifted_mask([0, 0]))
    quad = {(i * i) % 5 for i in range(1, 5)}
    for i in range(5):
        for j in range(5):
            w = 0 if i == 0 else (1 if j == 0 else int((i in quad) == (j in quad)))
            c.check(f"base_{i}_{j}", base[i, j] == w)
    m = g.generate_shifted_mask([v, u])
    d = g.generate_shifted_mask([v, u], mask_encoding=False)
    for i in range(5):
        for j in range(5):
            w = base[(i - v) % 5, (j - u) % 5]
            c.check(f"enc_{i}_{j}", m[i, j] == w)
            c.check(f"dec_{i}_{j}", d[i, j] == (1 if (i, j) == (v, u) else w))


@case("P18")
def mura_sizes(c):
    """The listed MURA sizes are the primes of the form 4l+1 up to the field of view."""
    from corrct import struct_illum as si

    n = int(c.concretize(c.integer("n", 1, 60)))
    want = [q for q in range(5, n + 1, 4) if all(q % k for k in range(2, q))]
    c.check("sizes", list(si.MaskGeneratorMURA.compute_possible_mask_sizes(n)) == want)


def gen(kind, shape):
    from corrct import struct_illum as si

    g = object.__new__(getattr(si, kind))
    si.MaskGenerator.__init__(g, shape, [1] * len(shape), shape)
    return g


@case("P18", params=[dict(shape=s, num=n) for s, n in (((2, 2), 4), ((2, 2), 3), ((1, 3), 2), ((3,), 3), ((2, 1), 9))], paths=200)
def random_shifts(c, shape, num):
    """Random collections use distinct shifts of the grid, the asked number of them (at most all), whatever the permutation drawn."""
    g = gen("MaskGeneratorPoint", shape)
    tot = int(np.prod(shape))
    p = order(c, tot)
    with patched(np.random, permutation=lambda n: np.array(p) if int(n) == tot else np.zeros(0, dtype=int)):
        d = g.get_random_shifts(num)
    c.check("axes", len(d) == len(shape))
    pts = list(zip(*[[int(v) for v in x] for x in d]))
    c.check("number", len(pts) == min(num, tot))
    c.check("distinct", len(set(pts)) == len(pts))
    c.check("range", all(0 <= v < s for q in pts for v, s in zip(q, shape)))


@case("P18", params=[dict(ndim=d) for d in (1, 2)], paths=400)
def sequential_and_interval(c, ndim):
    """Sequential shifts run over the grid in order (last axis fastest), interval shifts over every n-th position of each axis; every grid size, number and interval."""
    shape = tuple(int(c.concretize(c.integer(f"s{i}", 1, 3))) for i in range(ndim))
    num = int(c.concretize(c.integer("num", 1, 9)))
    k = int(c.concretize(c.integer("k", 1, 3)))
    g = gen("MaskGeneratorPoint", shape)
    grid = list(np.ndindex(*shape))
    got = list(zip(*[[int(v) for v in x] for x in g.get_sequential_shifts(num)]))
    c.check("sequential", got == grid[:num])
    got = list(zip(*[[int(v) for v in x] for x in g.get_sequential_shifts()]))
    c.check("all", got == grid)
    got = list(zip(*[[int(v) for v in x] for x in g.get_interval_shifts(k)]))
    c.check("interval", got == [q for q in grid if all(v % k == 0 for v in q)])
    if ndim == 2:
        got = list(zip(*[[int(v) for v in x] for x in g.get_interval_shifts([1, k], axes_order=(-1, -2))]))
        c.check("order", got == [(u, v) for u in range(shape[1]) for v in range(0, shape[0], k)])


@case("P18", params=[dict(kind=k) for k in ("sequential", "interval", "random")], paths=200)
def pencil_collection(c, kind):
    """Pencil-beam collections open one different pixel per mask; the number of masks is the asked fraction; the image is read back pixel by pixel."""
    from corrct import struct_illum as si

    nu = 2 if kind == "random" else 3
    g = si.MaskGeneratorPoint([2.0, float(nu)], 1.0)
    p = order(c, 4) if kind == "random" else None
    frac = dict(sequential=0.5, interval=0.5, random=0.45)[kind]
    with patched(np.random, permutation=lambda n: np.array(p)):
        mc = g.generate_collection(frac, kind)
    m = np.array(mc.masks_enc)
    pts = [tuple(int(v) for v in np.argwhere(x > 0)[0]) for x in m]
    c.check("one", all(x.sum() == 1 for x in m) and len(set(pts)) == len(pts))
    want = dict(sequential=[(0, 0), (0, 1), (0, 2)], interval=[(0, 0), (0, 2)], random=[divmod(q, 2) for q in (p or [])[:2]])[kind]
    c.check("pixels", pts == want)
    x = c.array("x", (2, nu), -2, 2)
    c.close("buckets", si.ProjectorGhostImaging(mc).fp(x), np.stack([x[q] for q in pts]), tol=1e-6)


@case("P18", paths=200)
def mura_resolution(c):
    """MURA masks cover the field of view with the fewest elements (of the allowed numbers 4 l + 1) that are as small as asked for; any field of view and resolution."""
    from corrct import struct_illum as si

    fov, res = c.real("fov", 3, 12), c.real("res", 0.75, 2)
    c.assume(fov > res * 1.01)
    for q in (5, 9, 13, 17):
        c.assume(abs(fov - q * res) > 1e-3)
    g = si.MaskGeneratorMURA(fov, res)
    n = g.generate_collection().masks_enc.shape[-1]
    c.check("allowed", n % 4 == 1)
    c.check("resolution", n * res >= fov)
    c.check("fewest", (n - 4) * res < fov)
    c.close("size", np.stack([*g.feature_size_mm]) * n, np.stack([fov, fov]), tol=1e-4)


@case("P18", params=[dict(n=n) for n in (1, 2, 3)])
def resolution_estimate(c, n):
    """The resolution of a collection is the mean and the smallest half-width of the auto-correlations of its masks, each taken without its own mean; any auto-correlation curves and masks."""
    from corrct import struct_illum as si

    m = c.array("m", (n, 2, 2), 0, 1)
    cur = c.array("cur", (n, 2), 0, 0.4)
    seen = []

    def corr(mask, *a, **k):
        seen.append(np.array(mask))
        i = len(seen) - 1
        return None, np.stack([1.0, 0.75, cur[i, 0], cur[i, 1]])

    with patched(si, norm_cross_corr=corr):
        mean, least = si.estimate_resolution(m, verbose=False, plot_result=False)
    c.check("all", len(seen) == n)
    c.close("centred", np.stack(seen), np.stack([q - q.mean() for q in m]), tol=1e-6)
    w = [1 + 0.25 / (0.75 - cur[i, 0]) for i in range(n)]
    c.close("mean", mean, sum(w) / n, tol=1e-3)
    least_w = w[0]
    for q in w[1:]:
        least_w = c.ite(q < least_w, q, least_w)
    c.close("min", least, least_w, tol=1e-3)


@case("P18")
def mismatched_collections(c):
    """Decoding masks of another shape or number than the encoding ones are refused, and so are missing stacks; any masks."""
    from corrct import struct_illum as si

    a = c.array("a", (2, 2, 3), -1, 1)
    for nm, b in (("rows", a[:, :1]), ("cols", a[:, :, :2]), ("number", a[:1]), ("stack", a[0])):
        c.raises(nm, ValueError, lambda b=b: si.MaskCollection(a, b))
    c.raises("single", ValueError, lambda: si.MaskCollection(a[0]))


@case("P18", params=[dict(st=s, shift=k) for s in (0, 2) for k in (0, 1, 2, -1)])
def qr(c, st, shift):
    """Orthogonalised masks are orthonormal, each made from the masks up to its own, starting from the first mask asked for, and the buckets transform with them: they are what the new masks measure of the same image; any images, one or many, any first mask."""
    from corrct import struct_illum as si

    m = np.array([[[1.0, 0.5], [0.0, 2.0]], [[0.0, 1.0], [1.5, 0.0]], [[1.0, 1.0], [0.0, 1.0]]])
    mc = si.MaskCollection(m)
    p = si.ProjectorGhostImaging(mc)
    x = c.array("x", (st, 2, 2) if st else (2, 2), -2, 2)
    b = p.fp(x)
    mc2, b2 = mc.get_qr_decomposition(b, shift=shift)
    q = np.array(mc2.masks_enc).reshape(3, 4)
    c.close("orthonormal", q @ q.T, np.eye(3), tol=1e-5)
    c.close("decoding", np.array(mc2.masks_dec).reshape(3, 4), q, tol=1e-9)
    c.close("buckets", b2, si.ProjectorGhostImaging(mc2).fp(x), tol=1e-3)
    g = q @ m.reshape(3, 4)[[(i + shift) % 3 for i in range(3)]].T
    c.close("order", np.tril(g, -1), np.zeros((3, 3)), tol=1e-5)
    c.close("span", (q.T @ q) @ m.reshape(3, 4).T, m.reshape(3, 4).T, tol=1e-4)
    c.close("original", p.fp(x), b, tol=1e-9)
    mc3 = si.MaskCollection(m, masks_dec=m + 1.0)
    c.raises("encdec", ValueError, lambda: mc3.get_qr_decomposition(b))


@case("P18", params=[dict(shape=s, st=k, sh=h) for s, k, h in (((3, 1, 2), 0, 1), ((3, 1, 2), 2, 2), ((2, 2, 1, 2), 0, 3))])
def reorder(c, shape, st, sh):
    """Reordering moves masks and buckets together, for every image."""
    from corrct import struct_illum as si

    m = c.array("m", shape, -1, 1)
    n = int(np.prod(shape[:-2]))
    b = c.array("b", (st, n) if st else (n,), -1, 1)
    m2, b2 = si.reorder_masks(m, b, sh)
    c.shape("shape", m2, shape)
    f, f2 = m.reshape(n, *shape[-2:]), m2.reshape(n, *shape[-2:])
    for i in range(n):
        c.close(f"mask_{i}", f2[i], f[(i + sh) % n], tol=1e-9)
        c.close(f"bucket_{i}", b2[..., i], b[..., (i + sh) % n], tol=1e-9)


@case("P18", params=[dict(bin=b) for b in (1, 2)])
def collection(c, bin):
    """Collections report their sizes, hand out the requested mask, and bin encoding and decoding masks (means of the blocks) into a new collection."""
    from corrct import struct_illum as si

    enc, dec = c.array("enc", (2, 1, 2, 4), 0, 2), c.array("dec", (2, 1, 2, 4), 0, 2)
    mc = si.MaskCollection(enc, dec)
    c.check("sizes", (tuple(mc.shape_fov), tuple(mc.shape_shifts), mc.num_buckets, mc.num_pixels) == ((2, 4), (2, 1), 2, 8))
    c.close("enc", mc.get_mask([1, 0]), enc[1, 0], tol=1e-9)
    c.close("dec", mc.get_mask([0, 0], mask_encoding=False), dec[0, 0], tol=1e-9)
    b = mc.bin_masks(bin)
    for nm, m, o in (("enc", b.masks_enc, enc), ("dec", b.masks_dec, dec)):
        c.shape(f"bin_shape_{nm}", m, (2, 1, 2 // bin, 4 // bin))
        for i in np.ndindex(2, 1, 2 // bin, 4 // bin):
            blk = o[i[0], i[1], i[2] * bin : (i[2] + 1) * bin, i[3] * bin : (i[3] + 1) * bin]
            c.close(f"bin_{nm}_{i}", m[i], blk.sum() / bin**2, tol=1e-5)
    c.close("original", mc.masks_enc, enc, tol=1e-9)


@case("P18", params=[dict(kind=k, nd=d) for k in ("MaskGeneratorBernoulli", "MaskGeneratorHalfGaussian") for d in (1, 2)])
def random_masks(c, kind, nd):
    """Random masks have the field of view's size and the drawn values (absolute values of the Gaussian ones), dimmed by the transmittance; every draw."""
    from corrct import struct_illum as si

    shape = (2, 2)[:nd]
    g = getattr(si, kind)([2.0] * nd)
    g.transmittance = c.real("t", 0, 1)
    n = 2
    if kind.endswith("Bernoulli"):
        d = c.intarray("d", (n, *shape), 0, 1)
    else:
        d = c.array("d", (n, *shape), -3, 3)
    draws = iter([d[i] for i in range(n)])
    with patched(np.random, randint=lambda lo, hi, size=None: next(draws), randn=lambda *s: next(draws)):
        mc = g.generate_collection(n / 2**nd)
    c.shape("shape", mc.masks_enc, (n, *shape))
    c.close("masks", mc.masks_enc, 1.0 - (1.0 - abs(d)) * g.transmittance, tol=1e-5)
    c.check("support", tuple(int(s) for s in mc.mask_support) == shape and mc.mask_dims == nd)


@case("P18", params=[dict(kind=k) for k in ("MaskGeneratorPoint", "MaskGeneratorBernoulli", "MaskGeneratorHalfGaussian")], paths=200)
def mask_sizes(c, kind):
    """Fields of view have the fewest pixels that give the requested resolution, and the reported pixel size covers them exactly; random masks have the requested excess of positions; every field of view and resolution."""
    from corrct import struct_illum as si

    fov = [c.real("v", 1, 3), c.real("u", 1, 3)]
    res, ratio = c.real("res", 0.8, 2), c.real("ratio", 1, 2)
    if kind == "MaskGeneratorPoint":
        g = si.MaskGeneratorPoint(np.array(fov), res)
    else:
        g = getattr(si, kind)(np.array(fov), res, ratio)
    for i in range(2):
        n = g.shape_fov[i]
        c.check(f"resolution_{i}", n * res >= fov[i] - 1e-6)
        c.check(f"fewest_{i}", (n - 1) * res <= fov[i] + 1e-6)
        c.close(f"pixel_{i}", g.feature_size_mm[i] * n, fov[i], tol=1e-5)
        if kind != "MaskGeneratorPoint":
            c.check(f"enough_{i}", g.shape_shifts[i] >= n * ratio - 1e-6)
            c.check(f"excess_{i}", g.shape_shifts[i] <= n * ratio + 1 + 1e-6)


@case("P18", params=[dict(kind=k) for k in ("sequential", "interval", "random")], paths=200)
def buckets_fraction(c, kind):
    """Collections have at least the asked fraction of the pixels (sequential and random: by less than one mask too many; interval: one every 1 / fraction positions of each axis, never denser than asked); every fraction."""
    from corrct import struct_illum as si

    g = si.MaskGeneratorPoint([6.0], 1.0)
    f = c.real("f", 0.2, 1)
    p = [3, 0, 5, 1, 4, 2]
    with patched(np.random, permutation=lambda n: np.array(p)):
        mc = g.generate_collection(f, kind)
    n = len(mc.masks_enc)
    pts = [int(np.argwhere(x > 0)[0][0]) for x in np.array(mc.masks_enc)]
    if kind == "interval":
        k = pts[1] if n > 1 else 6
        c.check("positions", pts == list(range(0, 6, k)))
        c.check("interval", k * f >= 1 - 1e-6)
        c.check("fewest", (k - 1) * f <= 1 + 1e-6)
    else:
        c.check("enough", n >= 6 * f - 1e-6)
        c.check("excess", n <= 6 * f + 1 + 1e-6)
        c.check("positions", pts == (p[:n] if kind == "random" else list(range(n))))


@case("P18", params=[dict(dt="uint8", st=0), dict(dt="int16", st=2), dict(dt="bool", st=0)])
def integer_images(c, dt, st):
    """Buckets and back-projections of integer images and buckets with integer or boolean masks are those of the same real values; every value of the type."""
    from corrct import struct_illum as si

    lo, hi = {"uint8": (0, 255), "int16": (-32768, 32767), "bool": (0, 1)}[dt]
    m = np.array([[[0, hi], [3 % (hi + 1), 1]], [[hi, hi], [1, 0]], [[1, 0], [hi, hi]]])
    p = si.ProjectorGhostImaging(si.MaskCollection(m.astype(dt)))
    lead = (st,) if st else ()
    xt = "uint8" if dt == "bool" else dt
    xl, xh = (0, 255) if dt == "bool" else (lo, hi)
    x, b = c.intarray("x", (*lead, 2, 2), xl, xh, dtype=xt), c.intarray("b", (*lead, 3), xl, xh, dtype=xt)
    want = np.stack([np.stack([sum((v * 1.0) * float(w) for v, w in zip(xx.reshape(-1), mm.reshape(-1))) for mm in m]) for xx in (x if st else [x])])
    c.close("fp", p.fp(x).reshape(want.shape), want, tol=1e-2, rtol=1e-5)
    want = np.stack([np.stack([sum((v * 1.0) * float(w) for v, w in zip(bb, m[:, i, j])) for i in range(2) for j in range(2)]) for bb in (b if st else [b])])
    c.close("bp", p.bp(b).reshape(want.shape), want, tol=1e-2, rtol=1e-5)
