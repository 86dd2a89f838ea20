"""P14: attenuation maps are Beer-Lambert factors of the traversed material."""

import numpy as np

from harness import sched
from harness.p16 import patched
from vf.ctx import case


def exponent(att):
    return -np.log(att)


def half_cumsum(v, axis, rev):
    """Material traversed before the centre of each voxel."""
    v = np.moveaxis(v, axis, 0)
    n = v.shape[0]
    idx = range(n)
    out = []
    for i in idx:
        up = [v[k] for k in idx if (k > i if rev else k < i)]
        out.append(sum(up, v[i] / 2) if up else v[i] / 2)
    return np.moveaxis(np.stack(out, axis=0), 0, axis)


def axis_ref(v, quarter):
    """Quarter turns of the beam: 0 travels along increasing rows, 1 along increasing columns, ..."""
    return [half_cumsum(v, -2, False), half_cumsum(v, -1, False), half_cumsum(v, -2, True), half_cumsum(v, -1, True)][quarter % 4]


@case("P14", params=[dict(shape=s, quarter=q, inv=i) for s in ((3, 3), (2, 2), (2, 3, 3), (1, 3)) for q in range(4) for i in (False, True)], thorough_params=[dict(shape=(5, 5), quarter=q, inv=False) for q in range(4)])
def axis_aligned(c, shape, quarter, inv):
    """Beams along the grid: exponent = material in front of the voxel plus half of its own; every volume."""
    from corrct._projector_backends import compute_attenuation

    v = c.array("v", shape, 0, 2)
    v0 = v.copy()
    att = compute_attenuation(v, quarter * np.pi / 2, invert=inv)
    c.shape("shape", att, shape)
    c.close("exponent", exponent(att), axis_ref(v, quarter + (2 if inv else 0)), tol=1e-4)
    c.close("untouched", v, v0, tol=0)


def padded(v):
    n = np.array(v.shape)
    size = int(np.ceil(np.sqrt((n**2).sum())))
    e = [int(np.ceil((size - k) / 2)) for k in n]
    return np.pad(v, ((e[0], e[0]), (e[1], e[1]))), e


ANG = (0.3, np.pi / 4, 1.2, 2.5, -0.7)


@case("P14", params=[dict(shape=s, ang=a, inv=i) for s, a, i in [((3, 3), a, False) for a in ANG] + [((2, 2), np.pi / 4, True), ((4, 4), 0.9, False), ((2, 3), 0.6, True), ((1, 3), 0.4, False), ((1, 4), 0.4, False)]],
      thorough_params=[dict(shape=(5, 5), ang=a, inv=True) for a in ANG])
def oblique(c, shape, ang, inv):
    """Any other direction: rotate the grid to the beam (bilinear), accumulate the material in front, rotate back. Non-negative, and nothing is attenuated by nothing."""
    import skimage.transform as skt
    from corrct._projector_backends import compute_attenuation

    v = c.array("v", shape, 0, 2)
    att = compute_attenuation(v, ang, invert=inv)
    e = exponent(att)
    a = np.rad2deg(ang + (np.pi if inv else 0))
    p, ed = padded(v)
    r = skt.rotate(p, -a, order=1, clip=False)
    b = skt.rotate(half_cumsum(r, 0, False), a, order=1, clip=False)
    want = b[ed[0] : ed[0] + shape[0], ed[1] : ed[1] + shape[1]]
    c.close("exponent", e, want, tol=1e-4)
    c.le("nonneg", np.zeros(shape), e, tol=1e-9)
    c.le("at_most_one", att, np.ones(shape), tol=1e-9)
    one = compute_attenuation(np.zeros(shape), ang, invert=inv)
    c.close("vacuum", one, np.ones(shape), tol=1e-9)


@case("P14", params=[dict(n=2, ang=a) for a in (0.3, np.pi / 4, 2.0, 1.1)], thorough_params=[dict(n=3, ang=a) for a in (0.3, np.pi / 4, 2.0)])
def symmetry(c, n, ang):
    """Turning the sample and the beam together turns the map; mirroring mirrors it; additive exponents."""
    from corrct._projector_backends import compute_attenuation

    v = c.array("v", (n, n), 0, 2)
    w = c.array("w", (n, n), 0, 2)
    e = exponent(compute_attenuation(v, ang))
    c.close("turned", exponent(compute_attenuation(v[::-1, ::-1], ang + np.pi)), e[::-1, ::-1], tol=1e-4)
    c.close("mirrored", exponent(compute_attenuation(v[:, ::-1], -ang)), e[:, ::-1], tol=1e-4)
    t = np.stack([np.stack([v[j, n - 1 - i] for j in range(n)], axis=0) for i in range(n)], axis=0)  # quarter turn
    te = np.stack([np.stack([e[j, n - 1 - i] for j in range(n)], axis=0) for i in range(n)], axis=0)
    c.close("quarter", exponent(compute_attenuation(t, ang + np.pi / 2)), te, tol=1e-4)
    c.close("additive", exponent(compute_attenuation(v + w, ang)), e + exponent(compute_attenuation(w, ang)), tol=1e-4)


@case("P14", params=[dict(kind=k, mt=m) for k in ("in", "out", "both") for m in (True, False)])
def maps(c, kind, mt):
    """maps[angle, detector] = incoming factor at the angle x outgoing factor at angle + detector angle, whichever order the threads complete in."""
    from corrct._projector_backends import compute_attenuation
    from corrct.physics.attenuation import AttenuationVolume

    n, rot, det = 2, (0.0, 0.7), (np.pi / 2, 0.4)
    vi = c.array("vi", (n, n), 0, 2) if kind != "out" else None
    vo = c.array("vo", (n, n), 0, 2) if kind != "in" else None
    m = AttenuationVolume(vi, vo, rot, det)
    with sched.scheduled(sched.order(c, len(rot)) if mt else None):
        m.compute_maps(use_multithreading=mt, verbose=False)
    got = m.get_maps()
    c.shape("shape", got, (len(rot), len(det), n, n))
    for a, r in enumerate(rot):
        for d, t in enumerate(det):
            want = 0.0
            if vi is not None:
                want = want + exponent(compute_attenuation(vi, r))
            if vo is not None:
                want = want + exponent(compute_attenuation(vo, r + t, invert=True))
            c.close(f"map_{a}_{d}", exponent(got[a, d]), want, tol=1e-4)


@case("P14", params=[dict(sub=s, nd=d) for s, d in ((1, 1), (1, 2), (2, 1))] + [dict(sub=2, nd=2, point=i) for i in (0, 1)])
def sub_sampling(c, sub, nd, point=None):
    """Detectors with a surface: average over the centres of equal angular sub-ranges of the detector; point detectors among them: only their direction."""
    from corrct._projector_backends import compute_attenuation
    from corrct.physics.attenuation import AttenuationVolume
    from corrct.physics.xrf import DetectorXRF

    n, rot, base = 2, (0.2, 1.1), 1.3 if point is None else 0.9
    vo = c.array("vo", (n, n), 0, 2)
    dets = [DetectorXRF(surface_mm2=0.0 if d == point else 4.0 + d, distance_mm=5.0, angle_rad=base + d) for d in range(nd)]
    m = AttenuationVolume(None, vo, rot, dets, emitted_sub_sampling=sub)
    m.compute_maps(use_multithreading=False, verbose=False)
    got = m.get_maps()
    for a, r in enumerate(rot):
        for d in range(nd):
            half = np.arctan2(np.sqrt(4.0 + d) / 2, 5.0)
            cen = [-half + (2 * half) * (k + 0.5) / sub for k in range(sub)] if d != point else [0.0] * sub
            want = sum(compute_attenuation(vo, r + base + d + s, invert=True) for s in cen) / sub
            c.close(f"map_{a}_{d}", got[a, d], want, tol=1e-4)


@case("P14", params=[dict(rot=r, det=d) for r, d in ((None, None), (1, None), (None, 1), (1, 0), ("slice", "slice"), ("list", "list"), (None, "array"), ("int64", 0), (0, "int64"), ("int64", "int64"), ("int64", None))])
def selection(c, rot, det):
    """Selected maps are those of the selected rotations and detectors; the projector arguments have the matching detector angles."""
    from corrct.physics.attenuation import AttenuationVolume

    sel = {"slice": slice(1, 3), "list": [0, 2], "array": np.array([2, 1]), "int64": np.int64(1)}
    m = AttenuationVolume(np.zeros((2, 2)), None, (0.0, 0.5, 1.0), (0.1, 0.2, 0.3))
    m.maps = c.array("maps", (3, 3, 2, 2), 0, 1)
    r, d = sel.get(rot, rot), sel.get(det, det)
    ri = [0, 1, 2] if r is None else ([int(r)] if isinstance(r, (int, np.integer)) else list(np.arange(3)[r]))
    di = [0, 1, 2] if d is None else ([int(d)] if isinstance(d, (int, np.integer)) else list(np.arange(3)[d]))
    want = np.stack([np.stack([m.maps[a, b] for b in di], axis=0) for a in ri], axis=0)
    c.close("maps", m.get_maps(rot_ind=r, det_ind=d), want, tol=1e-9)
    args = m.get_projector_args(rot_ind=r, det_ind=d)
    c.close("arg_maps", args["att_maps"], want, tol=1e-9)
    c.close("angles", np.array(args["angles_detectors_rad"], ndmin=1), np.array([0.1, 0.2, 0.3])[di], tol=1e-9)


@case("P14", params=[dict(shape=(4, 4), b=2), dict(shape=(2, 4, 4), b=2), dict(shape=(5, 5), b=2)])
def binned(c, shape, b):
    """Binned maps are block averages over the volume axes only (whole blocks, centred crop)."""
    from corrct.physics.attenuation import AttenuationVolume

    m = AttenuationVolume(np.zeros(shape), None, (0.0, 0.5), (0.1, 0.2))
    m.maps = c.array("maps", (2, 2, *shape), 0, 1)
    got = m.get_maps(binning=b)
    n = [s // b for s in shape]
    off = [(s - k * b) // 2 for s, k in zip(shape, n)]
    c.shape("shape", got, (2, 2, *n))
    if any(s % b for s in shape):
        return
    for ix in np.ndindex(2, 2, *n):
        blk = m.maps[ix[:2]][tuple(slice(o + k * b, o + (k + 1) * b) for o, k in zip(off, ix[2:]))]
        c.close("bin" + "_".join(map(str, ix)), got[ix], blk.sum() / b ** len(n), tol=1e-5)


@case("P14", params=[dict(kind=k) for k in ("in", "both")])
def projector(c, kind):
    """The attenuated projector computes its maps from the attenuation volumes given."""
    from corrct import projectors
    from corrct.physics.attenuation import AttenuationVolume
    from harness.p13 import backend

    rot, det, n = (0.0, 0.7), (np.pi / 2, 0.4), 2
    be, M = backend(c, 0, n, len(rot), [np.arange(n**3).reshape(n, n * n) % (3 + a) / 2.0 for a in range(len(rot))])
    vi = c.array("vi", (n, n), 0, 2)
    vo = c.array("vo", (n, n), 0, 2) if kind == "both" else None
    p = projectors.ProjectorAttenuationXRF((n, n), rot, backend=be, att_in=vi, att_out=vo, angles_detectors_rad=det, use_multithreading=False, verbose=False)
    m = AttenuationVolume(vi, vo, np.array(rot, dtype=np.float32), det)
    m.compute_maps(use_multithreading=False, verbose=False)
    c.close("maps", p.att_vol_angles, m.get_maps(), tol=1e-6)


@case("P14", params=[dict(t=t) for t in ("float", "array", "float32", "int", "ints")])
def detector_angles(c, t):
    """Detector angles can be given as numbers or arrays of any real type."""
    from corrct.physics.attenuation import AttenuationVolume

    a = {"float": 0.5, "array": np.array([0.5, 1.0]), "float32": np.array([0.5, 1.0], dtype=np.float32), "int": 1, "ints": (0, 1)}[t]
    m = AttenuationVolume(np.zeros((2, 2)), None, (0.0,), a)
    c.close("angles", m.get_projector_args()["angles_detectors_rad"] if hasattr(m, "maps") else m._get_detector_angles(), np.array(a, ndmin=1, dtype=float), tol=1e-6)


@case("P14", params=[dict(name=n) for n in ("H2O", "Fe")])
def linear_coefficient(c, name):
    """Linear attenuation coefficient per pixel: pixel size (um, in cm) x density x mass cross-section; asking leaves the compound as it was."""
    import xraylib

    from corrct.physics import attenuation

    px = c.real("px", 0.1, 100.0)
    rho = c.real("rho", 0.1, 20.0)
    nrg = 20.0
    cs = xraylib.CS_Total_CP(name, nrg)
    cmp = {"name": name, **xraylib.CompoundParser(name), "density": 3.0}
    got = attenuation.get_linear_attenuation_coefficient(dict(cmp), nrg, px, rho)
    c.close("given", got, px * 1e-4 * rho * cs, tol=1e-4, rtol=1e-4)
    c.close("own", attenuation.get_linear_attenuation_coefficient(cmp, nrg, px), px * 1e-4 * 3.0 * cs, tol=1e-4, rtol=1e-4)
    attenuation.get_linear_attenuation_coefficient(cmp, nrg, px, rho)
    c.close("untouched", cmp["density"], 3.0, tol=1e-9)


@case("P14", params=[dict(dtype=d, nd=n) for d in ("int64", "uint16") for n in (2, 3)])
def integer_maps(c, dtype, nd):
    """Local attenuations given as integers count as the numbers they are, in any direction; any maps."""
    from corrct._projector_backends import compute_attenuation

    v = c.intarray("v", (1, 3, 3)[-nd:], 0, 2, dtype=np.dtype(dtype))
    for i, a in enumerate((0.0, 0.3, np.pi / 2)):
        c.close(f"angle_{i}", exponent(compute_attenuation(v, a)), exponent(compute_attenuation(v * 1.0, a)), tol=1e-4)


@case("P14")
def mismatched_maps(c):
    """Incoming and outgoing attenuation volumes that differ in any one dimension are refused, and so are missing ones; any volumes."""
    from corrct.physics.attenuation import AttenuationVolume

    a = c.array("a", (2, 3), 0, 1)
    for nm, b in (("cols", a[:, :2]), ("rows", a[:1]), ("both", a[:1, :2])):
        c.raises(nm, ValueError, lambda b=b: AttenuationVolume(a, b, (0.0,), (1.0,)))
    c.raises("none", ValueError, lambda: AttenuationVolume(None, None, (0.0,), (1.0,)))


@case("P14", params=[dict(kind=k, mt=m, exc=e) for k in ("in", "out") for m in (True, False) for e in (ValueError, TypeError)])
def failing_angles(c, kind, mt, exc):
    """When the attenuation of any angle cannot be computed, the caller gets an error instead of wrong maps, in whichever order the threads complete."""
    from corrct import _projector_backends as be
    from corrct.physics.attenuation import AttenuationVolume

    v = c.array("v", (2, 2), 0, 1)
    bad = int(c.concretize(c.integer("bad", 0, 2)))
    rot = (0.0, 0.7, 1.1)
    calls = []

    def att(vol, a, invert=False):
        calls.append(a)
        if abs(a - rot[bad] - (0.4 if kind == "out" else 0.0)) < 1e-6:
            raise exc("broken")
        return vol

    m = AttenuationVolume(v if kind == "in" else None, v if kind == "out" else None, rot, (0.4,))
    with sched.scheduled(sched.order(c, len(rot)) if mt else None), patched(be, compute_attenuation=att):
        c.raises("reported", Exception, lambda: m.compute_maps(use_multithreading=mt, verbose=False))
