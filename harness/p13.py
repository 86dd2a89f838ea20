"""P13: projectors apply intensities, PSF, attenuation and detector weights to the geometry's line integrals, and back-project with the adjoint."""

import numpy as np

from harness import sched
from vf.ctx import case


def backend(c, nz, n, na, M=None):
    """A projector backend whose projections are given by one matrix per angle (all coefficients are inputs)."""
    from corrct import _projector_backends as pb

    class Mat(pb.ProjectorBackend):
        def fp(self, vol, angle_ind=None):
            if angle_ind is None:
                return np.stack([self.fp(vol, ii) for ii in range(na)], axis=-2)
            if nz:
                return np.stack([M[angle_ind] @ v.reshape(-1) for v in vol], axis=0)
            return M[angle_ind] @ vol.reshape(-1)

        def bp(self, prj, angle_ind=None):
            if angle_ind is None:
                return sum(self.bp(prj[..., ii, :], ii) for ii in range(na))
            if nz:
                return np.stack([(M[angle_ind].T @ p).reshape(n, n) for p in prj], axis=0)
            return (M[angle_ind].T @ prj).reshape(n, n)

    if M is None:
        M = [c.array(f"M{a}", (n, n * n), 0, 2) for a in range(na)]
    return Mat(), M


def base(M, vol, n):
    """Reference line integrals (..., angle, u)."""
    v = vol.reshape((-1, n * n))
    out = np.stack([np.stack([M[a] @ x for a in range(len(M))], axis=0) for x in v], axis=0)
    return out if vol.ndim == 3 else out[0]


def inner(a, b):
    return (np.asarray(a) * np.asarray(b)).sum()


def shapes(nz, n, na):
    return ((n, n, nz) if nz else (n, n)), ((nz, n, n) if nz else (n, n)), ((nz, na, n) if nz else (na, n))


def psf_ref(k, prj):
    """Convolution along u (and v) with the edge rule."""
    k2 = k if k.ndim == 2 else k[None, :]
    p = prj if prj.ndim == 3 else prj[None]
    V, _, U = p.shape
    hv, hu = k2.shape[0] // 2, k2.shape[1] // 2
    out = [[0.0 for _ in range(U)] for _ in range(V)]
    res = []
    for v in range(V):
        row = []
        for u in range(U):
            acc = 0.0
            for i in range(k2.shape[0]):
                for j in range(k2.shape[1]):
                    vv, uu = min(max(v + hv - i, 0), V - 1), min(max(u + hu - j, 0), U - 1)
                    acc = acc + k2[i, j] * p[vv, :, uu]
            row.append(acc)
        res.append(np.stack(row, axis=-1))
    res = np.stack(res, axis=0)
    return res if prj.ndim == 3 else res[0]


CONF = [dict(nz=0, n=2, na=3, inten=True, psf=0), dict(nz=0, n=2, na=2, inten=False, psf=0), dict(nz=2, n=2, na=3, inten=True, psf=0),
        dict(nz=0, n=3, na=2, inten=True, psf=3), dict(nz=2, n=3, na=2, inten=False, psf=3), dict(nz=3, n=3, na=2, inten=True, psf=(3, 3)), dict(nz=0, n=2, na=1, inten=True, psf=0)]
TCONF = [dict(nz=3, n=3, na=3, inten=True, psf=(3, 3)), dict(nz=0, n=4, na=4, inten=True, psf=3), dict(nz=2, n=4, na=3, inten=True, psf=0)]


def make(c, nz, n, na, inten, psf, conc=False):
    from corrct import projectors

    vg, vs, ps = shapes(nz, n, na)
    M = None
    if conc:
        M = [np.arange(n**3).reshape(n, n * n) % (3 + a) / 2.0 for a in range(na)]
    be, M = backend(c, nz, n, na, M)
    w = c.array("w", (na,), 0, 3) if inten else None
    k = c.array("k", psf if isinstance(psf, tuple) else (psf,), 0, 1) if psf else None
    p = projectors.ProjectorUncorrected(vg, np.linspace(0, 1, na), prj_intensities=w, psf=k, backend=be)
    return p, M, w, k, vs, ps


@case("P13", params=CONF, thorough_params=TCONF)
def forward(c, nz, n, na, inten, psf):
    """Projection = PSF(intensity x line integrals), all at once and angle by angle; transposition and shapes; any matrix, image."""
    big = nz * n * n > 12
    p, M, w, k, vs, ps = make(c, nz, n, na, inten, psf, conc=big)
    c.check("shapes", tuple(p.vol_shape) == vs and tuple(p.prj_shape) == ps)
    x = c.array("x", vs, -1, 1)
    with p:
        y = p(x)
        rows = [p.fp_angle(x, ii) for ii in range(na)]
        again = p.fp(x)
    want = base(M, x, n)
    if w is not None:
        want = want * w[:, None]
    if k is not None:
        want = psf_ref(k, want)
    c.shape("fp_shape", y, ps)
    c.close("fp", y, want, tol=1e-4)
    c.close("fp_again", again, want, tol=1e-4)
    c.close("fp_angle", np.stack(rows, axis=-2), want, tol=1e-4)


@case("P13", params=CONF, thorough_params=TCONF)
def backward(c, nz, n, na, inten, psf):
    """Back-projection = sum of the single-angle ones = the adjoint of the projection (the default PSF has no part in it)."""
    p, M, w, k, vs, ps = make(c, nz, n, na, inten, psf, conc=nz * n * n > 12)
    x = c.array("x", vs, -1, 1)
    y = c.array("y", ps, -1, 1)
    y0 = y.copy()
    with p:
        b = p.T(y)
        parts = [p.bp_angle(y[..., ii, :], ii) for ii in range(na)]
    c.shape("bp_shape", b, vs)
    c.close("untouched", y, y0, tol=0)
    c.close("bp_angles", sum(parts), b, tol=1e-4)
    s = base(M, x, n)
    if w is not None:
        s = s * w[:, None]
    c.close("adjoint", inner(s, y), inner(x, b), tol=1e-4)


@case("P13", params=[dict(nz=0, n=3, na=2, psf=3), dict(nz=3, n=3, na=2, psf=3), dict(nz=3, n=3, na=1, psf=(3, 3))])
def psf_symmetric(c, nz, n, na, psf):
    """With a symmetric PSF declared as such the back-projection is the exact adjoint, for 3-pixel kernels."""
    from corrct import projectors

    vg, vs, ps = shapes(nz, n, na)
    be, M = backend(c, nz, n, na, [np.arange(n**3).reshape(n, n * n) % (3 + a) / 2.0 for a in range(na)])
    p = projectors.ProjectorUncorrected(vg, np.linspace(0, 1, na), backend=be)
    h = c.array("k", (2,), -2, 2)
    k = np.stack([h[1], h[0], h[1]])
    p._set_psf(k if psf == 3 else k[:, None] * k[None, :], is_conv_symm=True)
    x = c.array("x", vs, -1, 1)
    y = c.array("y", ps, -1, 1)
    with p:
        Ax, b = p(x), p.T(y)
        parts = [p.bp_angle(y[..., ii, :], ii) for ii in range(na)]
    c.close("fp", Ax, psf_ref(k if psf == 3 else k[:, None] * k[None, :], base(M, x, n)), tol=1e-4)
    c.close("adjoint", inner(Ax, y), inner(x, b), tol=1e-4)
    c.close("bp_angles", sum(parts), b, tol=1e-4)


XR = [dict(n=2, na=2, nd=1, sym=True), dict(n=2, na=2, nd=2, sym=True), dict(n=2, na=3, nd=2, sym=False), dict(n=2, na=2, nd=1, sym=False), dict(n=3, na=2, nd=3, sym=True)]


def xrf(c, n, na, nd, sym, wsum=False, **k):
    from corrct import projectors

    conc = n > 2
    M = [np.arange(n**3).reshape(n, n * n) % (3 + a) / 2.0 for a in range(na)] if conc else None
    be, M = backend(c, 0, n, na, M)
    att = c.array("att", (na, nd, n, n), 0, 1)
    wd = c.array("wd", (nd,), 0.25, 2)
    wa = np.ones((na, nd)) if wsum else c.array("wa", (na, nd), 0, 2)
    inten = c.array("I", (na,), 0.25, 2)
    p = projectors.ProjectorAttenuationXRF((n, n), np.linspace(0, 1, na), backend=be, att_maps=att.copy(), angles_detectors_rad=np.linspace(0.5, 1.5, nd),
                                           weights_detectors=wd, weights_angles=wa, is_symmetric=sym, prj_intensities=inten, verbose=False, **k)
    return p, M, att, wd, wa, inten


@case("P13", params=XR, thorough_params=[dict(n=3, na=3, nd=2, sym=True), dict(n=3, na=3, nd=3, sym=False)])
def xrf_forward(c, n, na, nd, sym):
    """Attenuated projection of detector d at angle a: weight_d x weight_{a,d} x line integrals of (image x attenuation_{a,d}); every weight, map, matrix and image."""
    p, M, att, wd, wa, inten = xrf(c, n, na, nd, sym)
    x = c.array("x", (n, n), -1, 1)
    with p:
        y = p(x)
        rows = [p.fp_angle(x, a) for a in range(na)]
    want = np.stack([np.stack([inten[a] * wd[d] * wa[a, d] * (M[a] @ (x * att[a, d]).reshape(-1)) for a in range(na)], axis=0) for d in range(nd)], axis=0)
    if nd == 1:
        want = want[0]
    c.shape("shape", y, want.shape)
    c.close("fp", y, want, tol=1e-4)
    c.close("rows", np.stack(rows, axis=-2), want, tol=1e-4)


@case("P13", params=XR, thorough_params=[dict(n=3, na=3, nd=2, sym=True)])
def xrf_backward(c, n, na, nd, sym):
    """Symmetric projector: exact adjoint of the attenuated projection, all detectors. Otherwise: back-projection without attenuation. Sum of the angle-wise ones."""
    p, M, att, wd, wa, inten = xrf(c, n, na, nd, sym, wsum=not sym)
    if not sym:
        for d in range(nd):
            c.assume(wd[d] == 1)
    y = c.array("y", (nd, na, n) if nd > 1 else (na, n), -1, 1)
    with p:
        b = p.T(y)
        parts = [p.bp_angle(y, a) for a in range(na)]
        single = [p.bp_angle(y[..., a, :], a, single_line=True) for a in range(na)]
    Y = y if nd > 1 else y[None]
    want = 0.0
    for d in range(nd):
        for a in range(na):
            t = inten[a] * wd[d] * wa[a, d] * (M[a].T @ Y[d, a]).reshape(n, n)
            want = want + (t * att[a, d] if sym else t)
    c.close("bp", b, want, tol=1e-4)
    c.close("bp_angles", sum(parts), want, tol=1e-4)
    c.close("bp_single", sum(single), want, tol=1e-4)


@case("P13", params=[dict(n=2, na=2, nd=d, ones=o) for d in (1, 2, 3) for o in (True, False)])
def collapse(c, n, na, nd, ones):
    """Collapsing the detectors gives the sum of the detectors' projections, also when the weights change with the angle."""
    p, M, att, wd, wa, inten = xrf(c, n, na, nd, True, wsum=ones)
    x = c.array("x", (n, n), -1, 1)
    y = c.array("y", (na, n), -1, 1)
    p.collapse_detectors()
    with p:
        got = p(x)
        b = p.T(y)
    want = np.stack([sum(inten[a] * wd[d] * wa[a, d] * (M[a] @ (x * att[a, d]).reshape(-1)) for d in range(nd)) for a in range(na)], axis=0)
    tot = sum(wd[d] for d in range(nd))
    c.close("fp", got, want, tol=1e-4)
    c.close("adjoint", inner(got, y), inner(x, b), tol=1e-4)
    c.close("weight", p.weights_det, np.array([1.0]) * tot, tol=1e-5)


@case("P13", params=[dict(nd=1), dict(nd=2)])
def xrf_single_angle(c, nd):
    """One projection angle only."""
    p, M, att, wd, wa, inten = xrf(c, 2, 1, nd, True)
    x = c.array("x", (2, 2), -1, 1)
    with p:
        y = p(x)
    want = np.stack([np.stack([inten[0] * wd[d] * wa[0, d] * (M[0] @ (x * att[0, d]).reshape(-1))], axis=0) for d in range(nd)], axis=0)
    if nd == 1:
        want = want[0]
    c.shape("shape", y, want.shape)
    c.close("fp", y, want, tol=1e-4)


@case("P13", params=[dict(nz=z, nd=d, sym=q) for z, d, q in ((2, 1, True), (2, 2, True), (2, 2, False), (1, 2, True), (0, 3, True), (0, 2, False))])
def xrf_slices(c, nz, nd, sym):
    """Attenuated projections of stacks of slices (with attenuation maps for every slice), and the same weight for every detector given once: projections, back-projections and the collapse of the detectors; any matrices, maps, weights, images."""
    from corrct import projectors

    n, na = 2, 2
    M = [np.array([[1.0, 2.0, 0.0, 1.0], [0.0, 1.0, 3.0, 0.5]]), np.array([[0.5, 0.0, 1.0, 1.0], [2.0, 1.0, 1.0, 0.0]])]
    be, M = backend(c, nz, n, na, M)
    vs = (nz, n, n) if nz else (n, n)
    att = c.array("att", (na, nd, *vs), 0, 1)
    w = c.real("w", 0.25, 2)
    if not sym:
        c.assume(w == 1)
    p = projectors.ProjectorAttenuationXRF((n, n, nz) if nz else (n, n), np.linspace(0, 1, na), backend=be, att_maps=att.copy(), angles_detectors_rad=np.linspace(0.5, 1.5, nd),
                                           weights_detectors=w if nd > 1 else np.stack([w]), is_symmetric=sym, verbose=False)
    x = c.array("x", vs, -1, 1)
    ps = (nz, na, n) if nz else (na, n)
    y = c.array("y", (nd, *ps) if nd > 1 else ps, -1, 1)
    with p:
        Ax, b = p(x), p.T(y)
        parts = [p.bp_angle(y, a) for a in range(na)]
    want = np.stack([np.stack([w * base([M[a]], x * att[a, d], n)[..., 0, :] for a in range(na)], axis=-2) for d in range(nd)], axis=0)
    c.shape("shape", Ax, (nd, *ps) if nd > 1 else ps)
    c.close("fp", Ax, want if nd > 1 else want[0], tol=1e-4)
    c.close("bp_angles", sum(parts), b, tol=1e-4)
    Y = y if nd > 1 else y[None]
    wb = 0.0
    for d in range(nd):
        for a in range(na):
            q = Y[d][..., a, :]
            t = np.stack([(M[a].T @ r).reshape(n, n) for r in q], axis=0) if nz else (M[a].T @ q).reshape(n, n)
            wb = wb + w * (t * att[a, d] if sym else t)
    c.close("bp", b, wb, tol=1e-4)
    p.collapse_detectors()
    with p:
        c.close("collapsed", p(x), sum(want[d] for d in range(nd)), tol=1e-4)


ANG = (0.1, 0.4, 1.3)


@case("P13", params=[dict(n=3), dict(n=4)])
def skimage(c, n):
    """scikit-image backend: projections and back-projections of all angles are those of the single angles, with and without intensities."""
    from corrct import projectors

    x = c.array("x", (n, n), 0, 1)
    y = c.array("y", (len(ANG), n), -1, 1)
    w = c.array("w", (len(ANG),), 0.5, 2)
    p = projectors.ProjectorUncorrected((n, n), ANG, prj_intensities=w, backend="skimage", create_single_projs=True)
    q = projectors.ProjectorUncorrected((n, n), ANG, backend="skimage", create_single_projs=True)
    with p, q:
        c.close("fp", p(x), np.stack([p.fp_angle(x, i) for i in range(3)], axis=0), tol=1e-4)
        c.close("bp", p.T(y), sum(p.bp_angle(y[i], i) for i in range(3)), tol=1e-4)
        c.close("fp_w", p(x), q(x) * w[:, None], tol=1e-4)
        c.close("bp_w", p.T(y), q.T(y * w[:, None]), tol=1e-4)
        one = np.stack([projectors.ProjectorUncorrected((n, n), (a,), backend="skimage")(x)[0] for a in ANG], axis=0)
        c.close("independent", q(x), one, tol=1e-4)


@case("P13", params=[dict(n=5), dict(n=7)])
def skimage_scale(c, n):
    """scikit-image backend: along the axes of the image (zero on the border), projections are its sums (columns first, also angle by angle) and back-projections their adjoint; constant lines back-project to their sum at any angle; any images and lines."""
    from corrct import projectors

    x, y, k = np.pad(c.array("x", (n - 2, n - 2), 0, 1), 1), c.array("y", (2, n), -1, 1), c.real("k", -2, 2)
    with projectors.ProjectorUncorrected((n, n), (0.0, np.pi / 2), backend="skimage", create_single_projs=True) as p:
        f, b = p(x), p.T(y)
        c.close("columns", f[0], x.sum(axis=0), tol=1e-4)
        c.close("total", f[1].sum(), x.sum(), tol=1e-4)
        c.close("adjoint", inner(f, y), inner(x, b), tol=1e-3)
        for i in range(2):
            c.close(f"adjoint_{i}", inner(p.fp_angle(x, i), y[i]), inner(x, p.bp_angle(y[i], i)), tol=1e-3)
            c.close(f"fp_{i}", p.fp_angle(x, i), f[i], tol=1e-5)
    with projectors.ProjectorUncorrected((n, n), ANG, backend="skimage") as p:
        o = np.ones((len(ANG), n)) * k
        c.close("constant", p.T(o)[n // 2, n // 2], 3 * k, tol=1e-4)


@case("P13")
def refused(c):
    """scikit-image refuses volumes in 3D, axis shifts, and projection geometries; unknown backends and PSFs with too many dimensions are refused; any shifts and PSFs."""
    from corrct import models, projectors

    h, k = c.real("h", -1, 1), c.array("k", (3, 3), 0, 1)
    P = projectors.ProjectorUncorrected
    g = models.get_prj_geom_parallel(geom_type="2d")
    c.raises("volume", ValueError, lambda: P((3, 3, 2), ANG, backend="skimage"))
    c.raises("shift", ValueError, lambda: P((3, 3), ANG, rot_axis_shift_pix=h, backend="skimage"))
    c.raises("geometry", ValueError, lambda: P((3, 3), ANG, prj_geom=g, backend="skimage"))
    c.raises("backend", ValueError, lambda: P((3, 3), ANG, backend="other"))
    c.raises("psf", ValueError, lambda: P((3, 3), ANG, psf=k, backend="skimage"))


@case("P13")
def skimage_xrf(c):
    """Attenuation-corrected projector on the scikit-image backend, with its thread pool (any completion order): same as without threads and as the uncorrected one on the attenuated image."""
    from corrct import projectors

    n = 3
    x = c.array("x", (n, n), 0, 1)
    y = c.array("y", (2, len(ANG), n), -1, 1)
    att = c.array("att", (len(ANG), 2, n, n), 0, 1)
    wd = np.array([0.5, 2.0])
    q = projectors.ProjectorUncorrected((n, n), ANG, backend="skimage", create_single_projs=True)
    r = []
    order = sched.order(c, len(ANG))
    with sched.scheduled(order):
        for mt in (True, False):
            p = projectors.ProjectorAttenuationXRF((n, n), ANG, backend="skimage", att_maps=att, angles_detectors_rad=(0.5, 1.0), weights_detectors=wd,
                                                   is_symmetric=True, use_multithreading=mt, verbose=False)
            with p:
                r.append((p(x), p.T(y)))
    c.close("fp_threads", r[0][0], r[1][0], tol=1e-6)
    c.close("bp_threads", r[0][1], r[1][1], tol=1e-6)
    want = np.stack([np.stack([wd[d] * q.fp_angle(x * att[a, d], a) for a in range(3)], axis=0) for d in range(2)], axis=0)
    c.close("fp", r[0][0], want, tol=1e-4)
    wb = sum(wd[d] * att[a, d] * q.bp_angle(y[d, a], a) for a in range(3) for d in range(2))
    c.close("bp", r[0][1], wb, tol=1e-4)


@case("P13", params=[dict(size=s) for s in (2, 3)])
def inconsistent(c, size):
    """Detector weights that do not match the detectors, and maps of the wrong size, are refused."""
    from corrct import projectors

    be, M = backend(c, 0, 2, 1)
    c.raises("weights", ValueError, lambda: projectors.ProjectorAttenuationXRF((2, 2), (0.0,), backend=be, att_maps=np.ones((1, 5 - size, 2, 2)), angles_detectors_rad=np.ones(5 - size),
                                                                               weights_detectors=np.ones(size), verbose=False))
    c.raises("maps", ValueError, lambda: projectors.ProjectorAttenuationXRF((2, 2), (0.0,), backend=be, att_maps=np.ones((1, size + 1, 2, 2)), angles_detectors_rad=np.ones(size), verbose=False))
    c.raises("vol", ValueError, lambda: projectors.ProjectorAttenuationXRF((2, 2), (0.0,), backend=be, att_maps=np.ones((1, size, 3, 3)), angles_detectors_rad=np.ones(size), verbose=False))


@case("P13", params=[dict(dtype=d) for d in ("int64", "uint16")])
def integer_images(c, dtype):
    """scikit-image backend: volumes and sinograms of integers (masks, label phantoms, counts) are projected as the numbers they are, all angles or one by one, with intensities and PSF; any numbers."""
    from corrct import projectors

    x = c.intarray("x", (3, 3), 0, 5, dtype=np.dtype(dtype))
    y = c.intarray("y", (3, 3), 0, 5, dtype=np.dtype(dtype))
    k = dict(backend="skimage", create_single_projs=True, prj_intensities=np.array([0.5, 1.0, 2.0]), psf=np.array([0.25, 0.5, 0.25]))
    with projectors.ProjectorUncorrected((3, 3), ANG, **k) as p:
        c.close("fp", p(x), p(x * 1.0), tol=1e-4)
        c.close("bp", p.T(y), p.T(y * 1.0), tol=1e-4)
        c.close("fp_angle", p.fp_angle(x, 1), p.fp_angle(x * 1.0, 1), tol=1e-4)
        c.close("bp_angle", p.bp_angle(y[1], 1), p.bp_angle(y[1] * 1.0, 1), tol=1e-4)
    with projectors.ProjectorUncorrected((3, 3), ANG, backend="skimage") as p:
        c.close("fp_plain", p(x), p(x * 1.0), tol=1e-4)
        c.close("bp_plain", p.T(y), p.T(y * 1.0), tol=1e-4)
