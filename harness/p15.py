"""P15: projection and volume geometries are rigid, broadcastable and self-consistent."""

import numpy as np

from vf.ctx import case


def rot_z(c, th, x, clockwise=True):
    """Rotation of the (x, y, z) rows around z."""
    s, k = np.sin(th), np.cos(th)
    if clockwise:
        s = -s
    return np.stack([k * x[..., 0] - s * x[..., 1], s * x[..., 0] + k * x[..., 1], x[..., 2]], axis=-1)


def geom(c, kind, n=1, rot="clockwise"):
    from corrct import models

    if kind == "cone":
        return models.get_prj_geom_cone(src_to_sam_dist=10.0, rot_axis_dir=rot)
    return models.get_prj_geom_parallel(geom_type=kind, rot_axis_dir=rot)


KINDS = ("2d", "3d", "cone")


@case("P15", params=[dict(kind=k, rot=r) for k in KINDS for r in ("clockwise", "counter-clockwise")])
def defaults(c, kind, rot):
    """Source on -y, detector on the axis, u along x and v along z, rotation around z in the given direction."""
    g = geom(c, kind, rot=rot)
    d = 10.0 if kind == "cone" else 1.0
    c.close("src", g.src_pos_xyz, np.array([[0.0, -d, 0.0]]), tol=1e-9)
    c.close("det", g.det_pos_xyz, np.zeros((1, 3)), tol=0)
    c.close("u", g.det_u_xyz, np.array([[1.0, 0, 0]]), tol=0)
    c.close("v", g.det_v_xyz, np.array([[0.0, 0, 1]]), tol=0)
    c.close("axis", g.rot_dir_xyz, np.array([[0.0, 0, -1 if rot == "clockwise" else 1]]), tol=0)
    c.close("x", c.real("x", 0, 1) * g.src_pos_xyz[0, 0], 0.0, tol=0)
    c.check("ndim", g.ndim == (2 if kind == "2d" else 3))


@case("P15", params=[dict(kind=k, n=n, v=v) for k in KINDS for n in (0, 1, 3) for v in (False, True)])
def axis_shift(c, kind, n, v):
    """Rotation axis shifts (scalar, one per angle, or vertical and horizontal) place the detector at v * V + u * U."""
    from corrct import models

    if v and (n == 0 or kind == "2d"):
        sh = c.real("s0", -9, 9)
        want = np.stack([np.stack([sh, 0 * sh, 0 * sh])])
        arg = np.array([sh])
    elif n == 0:
        arg = c.real("s0", -9, 9)
        want = np.stack([np.stack([arg, 0.0 * arg, 0.0 * arg])])
    else:
        a = c.array("s", (2 if v else 1, n), -9, 9)
        arg = a if v else a[0]
        want = np.stack([np.stack([a[-1, i], 0.0 * a[0, i], a[0, i] if v else 0.0 * a[0, i]]) for i in range(n)])
    if kind == "cone":
        g = models.get_prj_geom_cone(src_to_sam_dist=10.0, rot_axis_shift_pix=arg)
    else:
        g = models.get_prj_geom_parallel(geom_type=kind, rot_axis_shift_pix=arg)
    c.close("det", g.det_pos_xyz, want, tol=1e-6)


@case("P15", params=[dict(kind=k, n=n, nd=d, rows=r, cor=q) for k in KINDS for n, d, r, q in ((1, 1, 1, True), (3, 1, 1, False), (3, 3, 1, True), (1, 3, 1, False), (1, 1, 3, True), (3, 3, 3, True), (3, 1, 3, False))])
def detector_shifts(c, kind, n, nd, rows, cor):
    """Detector positions from (v, u) positions, centre of rotation, distances and detector axes, each given once or per angle."""
    g = geom(c, kind)
    if rows > 1:
        g.det_u_xyz = c.array("U", (rows, 3), -2, 2)
        g.det_v_xyz = c.array("V", (rows, 3), -2, 2)
        g.src_pos_xyz = c.array("S", (rows, 3), -2, 2)
    vu = c.array("vu", (2, n), -9, 9)
    y = c.array("y", (nd,), 0, 50)
    q = c.real("cor", -9, 9) if cor else None
    vu0, y0 = vu.copy(), y.copy()
    g.set_detector_shifts_vu(vu if kind != "2d" else vu[-1:], q, y if nd > 1 else y[0])
    m = max(n, nd, rows)
    want = []
    for i in range(m):
        U, V = g.det_u_xyz[min(i, rows - 1)], g.det_v_xyz[min(i, rows - 1)]
        p = U * (vu[1, min(i, n - 1)] + (q if cor else 0.0))
        if kind != "2d":
            p = p + V * vu[0, min(i, n - 1)]
        want.append(p + np.stack([0.0 * y[0], y[min(i, nd - 1)], 0.0 * y[0]]))
    c.close("det", g.det_pos_xyz, np.stack(want), tol=1e-6)
    c.close("arg_vu", vu, vu0, tol=0)
    c.close("arg_y", y, y0, tol=0)


@case("P15", params=[dict(kind=k, n=n, rows=r) for k in KINDS for n, r in ((1, 1), (3, 1), (3, 3), (1, 3))])
def source_shifts(c, kind, n, rows):
    """Source positions from (v, u): x and z are replaced, the distance along y is kept."""
    g = geom(c, kind)
    if rows > 1:
        g.src_pos_xyz = c.array("S", (rows, 3), -9, 9)
    S = g.src_pos_xyz.copy()
    vu = c.array("vu", (2, n), -9, 9)
    g.set_source_shifts_vu(vu)  # two-dimensional geometries have no vertical position
    want = np.stack([np.stack([vu[1, min(i, n - 1)], S[min(i, rows - 1), 1], vu[0, min(i, n - 1)] if kind != "2d" else 0.0 * vu[0, 0]]) for i in range(max(n, rows))])
    c.close("src", g.src_pos_xyz, want, tol=1e-6)
    old = g.src_pos_xyz.copy()
    g.set_source_shifts_vu(None)
    c.close("none", g.src_pos_xyz, old, tol=0)


def random_geom(c, kind="3d", n=1, axis=(0, 0, -1.0)):
    from corrct import models

    return models.ProjectionGeometry(
        "cone" if kind == "cone" else "parallel" + kind, c.array("S", (n, 3), -9, 9), c.array("D", (n, 3), -9, 9), c.array("U", (n, 3), -2, 2), c.array("V", (n, 3), -2, 2), np.array(axis),
    )


FIELDS = ("src_pos_xyz", "det_pos_xyz", "det_u_xyz", "det_v_xyz")


@case("P15", params=[dict(kind=k, n=n, na=a, cw=d) for k in ("2d", "3d") for n, a, d in ((1, 1, True), (1, 2, False), (2, 2, True), (2, 1, False))])
def rotate(c, kind, n, na, cw):
    """All vectors turn rigidly around the rotation axis, one angle for all or one per row, for every angle; the original stays."""
    g = random_geom(c, kind, n, (0, 0, -1.0 if cw else 1.0))
    th = c.array("th", (na,), -7, 7)
    before = {f: getattr(g, f).copy() for f in FIELDS}
    r = g.rotate(th if na > 1 else th[0])
    for f in FIELDS:
        o = before[f]
        want = np.stack([rot_z(c, th[min(i, na - 1)], o[min(i, n - 1)], cw) for i in range(max(n, na))])
        c.close(f, getattr(r, f), want, tol=1e-5)
        c.close("kept_" + f, getattr(g, f), o, tol=0)
    if kind == "2d":
        p = g.rotate(th if na > 1 else th[0], patch_astra_2d=True)
        for f in FIELDS:
            want = np.stack([rot_z(c, th[min(i, na - 1)], before[f][min(i, n - 1)], not cw) for i in range(max(n, na))])
            c.close("astra_" + f, getattr(p, f), want, tol=1e-5)
    else:
        p = g.rotate(th if na > 1 else th[0], patch_astra_2d=True)
        for f in FIELDS:
            c.close("astra_" + f, getattr(p, f), getattr(r, f), tol=1e-6)


@case("P15", params=[dict(a=a, b=b, ax=ax) for a, b in ((0.3, 1.9), (-2.0, 0.7)) for ax in ((0, 0, -1.0), (0.6, 0.0, 0.8), (0.0, 1.0, 0.0))])
def rotate_compose(c, a, b, ax):
    """Rotations about any axis add up, keep lengths and angles, and a full turn changes nothing."""
    g = random_geom(c, "3d", 1, ax)
    r = g.rotate(a).rotate(b)
    s = g.rotate(a + b)
    full = g.rotate(2 * np.pi)
    for f in FIELDS:
        c.close(f, getattr(r, f), getattr(s, f), tol=1e-6)
        c.close("full_" + f, getattr(full, f), getattr(g, f), tol=1e-6)
    c.close("len", (s.det_u_xyz**2).sum(-1), (g.det_u_xyz**2).sum(-1), tol=1e-3)
    c.close("dot", (s.det_u_xyz * s.det_v_xyz).sum(-1), (g.det_u_xyz * g.det_v_xyz).sum(-1), tol=1e-3)
    c.close("pos_dot", (s.det_pos_xyz * s.src_pos_xyz).sum(-1), (g.det_pos_xyz * g.src_pos_xyz).sum(-1), tol=1e-3)


@case("P15", params=[dict(ix=i, n=n) for i, n in ((1, 4), (slice(1, 3), 4), (slice(None, None, 2), 4), ([2, 0], 4), (0, 1), (slice(0, 1), 1))])
def slicing(c, ix, n):
    """Slicing a geometry selects its rows (rows given once serve all angles), and commutes with the rotation."""
    g = random_geom(c, "3d", n)
    g.src_pos_xyz = g.src_pos_xyz[:1]
    th = np.linspace(0.1, 1.5, n)
    s = g[ix]
    sel = [0] if n == 1 else np.atleast_1d(np.arange(n)[ix])
    for f in FIELDS:
        o = getattr(g, f)
        c.close(f, getattr(s, f), o if f == "src_pos_xyz" else o[sel], tol=0)
    a = g.rotate(th)[ix]
    b = s.rotate(th[sel])
    for f in FIELDS:
        c.close("rot_" + f, getattr(a, f), getattr(b, f) * np.ones((len(sel), 1)), tol=1e-6)
    k = g.copy()
    k.det_pos_xyz += 1
    k.set_detector_shape_vu([3, 4])
    c.close("copy", g.det_pos_xyz + 1, k.det_pos_xyz, tol=1e-9)
    c.check("copy_shape", g.det_shape_vu is None)


def rodrigues(x, ang, ax):
    ax = np.array(ax, dtype=float)
    K = np.array([[0, -ax[2], ax[1]], [ax[2], 0, -ax[0]], [-ax[1], ax[0], 0]])
    R = np.eye(3) + np.sin(ang) * K + (1 - np.cos(ang)) * (K @ K)
    return x @ R.T


@case("P15", params=[dict(t=t, src=s) for t in ("one", "axis", "many", "same_axis", "same_angle") for s in (False, True)])
def tilt(c, t, src):
    """Every tilt is applied, in order, to the detector (and, on demand, to the source)."""
    ang, ax = dict(one=(0.4, None), axis=(0.4, (1.0, 0, 0)), many=([0.4, -0.9], [(1.0, 0, 0), (0, 0.6, 0.8)]), same_axis=([0.4, 0.5], (1.0, 0, 0)), same_angle=(0.4, [(1.0, 0, 0), (0, 0, 1.0)]))[t]
    g = random_geom(c, "3d", 2)
    o = {f: getattr(g, f).copy() for f in FIELDS}
    kw = {} if ax is None else dict(tilt_axis=ax)
    g.set_detector_tilt(ang, tilt_source=src, **kw)
    axs = np.array((0, 1.0, 0) if ax is None else ax, ndmin=2)
    angs = np.array(ang, ndmin=1)
    m = max(len(axs), len(angs))
    for f in FIELDS:
        w = o[f]
        if f != "src_pos_xyz" or src:
            for i in range(m):
                w = rodrigues(w, angs[min(i, len(angs) - 1)], axs[min(i, len(axs) - 1)])
        c.close(f, getattr(g, f), w, tol=1e-6)


@case("P15", params=[dict(ax=a, th=t) for a, t in (((0.0, 0.0, 2.0), 0.7), ((0.1, 0.0, -1.0), 1.3), ((0.0, 0.3, 0.4), -0.4))])
def axis_length(c, ax, th):
    """The rotation axis and the tilt axis are directions: whatever their length, the geometry turns by the given angle."""
    from corrct import models

    g = random_geom(c, "3d", 1, models.get_rot_axis_dir(ax))
    unit = np.array(ax) / np.linalg.norm(ax)
    o = {f: getattr(g, f).copy() for f in FIELDS}
    r = g.rotate(th)
    for f in FIELDS:
        c.close(f, getattr(r, f), rodrigues(o[f], th, unit), tol=1e-5)
    d = random_geom_like(g, ax)
    r = d.rotate([th, -th])
    for f in FIELDS:
        c.close("d_" + f, getattr(r, f), np.concatenate([rodrigues(o[f], th, unit), rodrigues(o[f], -th, unit)]), tol=1e-5)
    d.set_detector_tilt(th, tilt_axis=ax)
    c.close("tilt", d.det_u_xyz, rodrigues(o["det_u_xyz"], th, unit), tol=1e-5)


def random_geom_like(g, ax):
    from corrct import models

    return models.ProjectionGeometry(g.geom_type, g.src_pos_xyz, g.det_pos_xyz, g.det_u_xyz, g.det_v_xyz, np.array(ax))


@case("P15", params=[dict(kind=k) for k in KINDS])
def displacement(c, kind):
    """A displacement of the volume is seen by the detector as its components along v and u; moving along the beam changes nothing."""
    n = 2
    g = random_geom(c, kind, n)
    d = 2 if kind == "2d" else 3
    z = c.array("disp", (d,), -9, 9)
    got = g.project_displacement_to_detector(z)
    xyz = z[::-1]
    u = np.stack([sum(g.det_u_xyz[i, j] * xyz[j] for j in range(d)) for i in range(n)])
    if kind == "2d":
        c.close("u", got, u, tol=1e-6)
    else:
        v = np.stack([sum(g.det_v_xyz[i, j] * xyz[j] for j in range(d)) for i in range(n)])
        c.close("vu", got, np.stack([v, u]), tol=1e-6)
    c.raises("dims", ValueError, lambda: g.project_displacement_to_detector(np.ones(5 - d)))


@case("P15", params=[dict(kind=k) for k in ("parallel2d", "parallel3d", "cone", "fanflat")])
def scaled(c, kind):
    """Scaled fields: divided by the pixel-to-voxel ratio, without z for two-dimensional geometries; the 3D version of a geometry has the same fields, with z."""
    from corrct import models

    a = c.array("a", (2, 3), -9, 9)
    p = c.real("ratio", 0.1, 10)
    g = models.ProjectionGeometry(kind, a, a * 2, a * 3, a * 4, np.array([0, 0, -1.0]), pix2vox_ratio=p)
    n = 2 if kind in ("parallel2d", "fanflat") else 3
    c.check("ndim", g.ndim == n)
    for k, f in enumerate(FIELDS):
        c.close(f, g.get_field_scaled(f) * p, a[:, :n] * (k + 1), tol=1e-4)
    t = g.get_3d()
    c.check("get_3d", t.ndim == 3)
    for k, f in enumerate(FIELDS):
        c.close("3d_" + f, t.get_field_scaled(f) * p, a * (k + 1), tol=1e-4)


@case("P15", params=[dict(shape=s, own=o, y=y) for s, o, y in (((2, 3), False, True), ((2, 3), True, True), ((1, 2), False, False), ((3, 1), True, True))])
def pre_weights(c, shape, own, y):
    """Cone-beam weights: source-detector distance over source-pixel distance, at the pixel centres, unit steps along u and v."""
    from corrct import models

    d = c.real("d", 5, 50)
    yd = c.real("y", 0, 50) if y else 0.0
    g = models.get_prj_geom_cone(src_to_sam_dist=d, data_shape=(shape[0], 4, shape[1]) if own else None, data_format="vwu")
    g.set_detector_shifts_vu(det_dist_y=yd)
    w = g.get_pre_weights(None if own else shape)
    c.shape("shape", w, (shape[0], 1, shape[1]))
    for i in range(shape[0]):
        for j in range(shape[1]):
            v, u = i - (shape[0] - 1) / 2, j - (shape[1] - 1) / 2
            D2 = (d + yd) * (d + yd)
            c.close(f"w_{i}_{j}", w[i, 0, j] * w[i, 0, j] * (D2 + u * u + v * v), D2, tol=1e-3)
    c.le("pos", np.zeros(w.shape), w, tol=0)
    q = models.get_prj_geom_parallel(geom_type="3d")
    c.check("parallel", q.get_pre_weights(shape) is None)


@case("P15", params=[dict(nd=1), dict(nd=2)])
def pre_weights_distances(c, nd):
    """Cone-beam weights are relative to each angle's own source-detector distance; any distances and detector shifts."""
    from corrct import models

    g = models.get_prj_geom_cone(src_to_sam_dist=20.0)
    s, d = c.array("s", (2,), 5, 50), c.array("d", (2,), 0, 50)
    u = np.array([1.5, -2.0]) if nd == 2 else c.array("u", (2,), -4, 4)
    z = 0.0 * s[0]
    g.src_pos_xyz = np.stack([np.stack([z, -s[a], z]) for a in range(2)])
    g.det_pos_xyz = np.stack([np.stack([u[a], d[a], z]) for a in range(2)])
    w = g.get_pre_weights((3, 1) if nd == 2 else (3,))
    c.shape("shape", w, (3, 2, 1) if nd == 2 else (2, 3))
    for a in range(2):
        for i in range(3):
            t = s[a] + d[a]
            D = t * t + u[a] * u[a]
            q = w[i, a, 0] if nd == 2 else w[a, i]
            x = u[a] if nd == 2 else u[a] + i - 1
            c.close(f"w_{a}_{i}", q * q * (t * t + x * x + ((i - 1.0) ** 2 if nd == 2 else 0.0)), D, tol=1e-2)
            c.check(f"pos_{a}_{i}", q > 0)


@case("P15", params=[dict(tilt=t) for t in (False, True)])
def pre_weights_pixel_axes(c, tilt):
    """Cone-beam weights use the directions and the sizes of the pixels along both detector axes, also of tilted detectors; any axes."""
    from corrct import models

    g = models.get_prj_geom_cone(src_to_sam_dist=20.0)
    g.set_detector_shifts_vu(det_dist_y=10.0)
    u, v = c.array("u", (3,), -2, 2), c.array("v", (3,), -2, 2)
    g.det_u_xyz, g.det_v_xyz = u[None].copy(), v[None].copy()
    if tilt:
        g.set_detector_tilt(np.pi / 2, tilt_axis=(0, 1, 0))
        u, v = (np.stack([x[2], x[1], -x[0]]) for x in (u, v))
    w = g.get_pre_weights((3, 2))
    c.shape("shape", w, (3, 1, 2))
    z = 0.0 * u[0]
    for i in range(3):
        for j in range(2):
            q = (i - 1.0) * v + (j - 0.5) * u + np.stack([z, z + 30.0, z])
            n = (q * q).sum()
            c.close(f"w_{i}_{j}", w[i, 0, j] * w[i, 0, j] * n, 900.0, tol=5e-2)


@case("P15", params=[dict(na=2)])
def pre_weights_rotated(c, na):
    """The weights do not depend on the rotation, for shifted detectors as well."""
    from corrct import models

    g = models.get_prj_geom_cone(src_to_sam_dist=20.0)
    g.set_detector_shifts_vu(np.array([[2.0], [-3.0]]), det_dist_y=7.0)
    a = g.get_pre_weights((2, 2))
    b = g.rotate(np.array([0.3, 2.0])).get_pre_weights((2, 2))
    x = c.real("x", 0, 1)
    c.shape("shape", b, (2, 2, 2))
    for i in range(2):
        c.close(f"angle_{i}", b[:, i] * x, a[:, 0] * x, tol=1e-6)
    for i in range(2):
        for j in range(2):
            p = np.array([-3.0 + j - 0.5, 27.0, 2.0 + i - 0.5])
            c.close(f"w_{i}_{j}", a[i, 0, j] * x, x * np.linalg.norm([-3.0, 27.0, 2.0]) / np.linalg.norm(p), tol=1e-6)


@case("P15", params=[dict(nd=d) for d in (2, 3)])
def volume_geometry(c, nd):
    """Volume shapes convert between XYZ and ZXY, symmetric extents scale with the voxels, 2D volumes extend to one slice; every size."""
    from corrct import models

    n = c.intarray("n", (nd,), 1, 6)
    s = tuple(int(x) for x in (c.concretize(n[i]) for i in range(nd)))
    vs = c.real("vs", 0.1, 10)
    g = models.VolumeGeometry(np.array(s), vox_size=vs)
    c.check("xyz", tuple(g.shape_xyz) == s)
    c.check("zxy", tuple(g.shape_zxy) == (*reversed(s[2:]), s[0], s[1]))
    c.check("mask", tuple(g.mask_shape) == s[:2])
    c.check("square", bool(g.is_square()) == (s[0] == s[1]))
    c.check("is3d", bool(g.is_3D()) == (nd == 3 and s[-1] > 1))
    e = g.extent
    c.check("extent_len", len(e) == 2 * nd)
    for i in range(nd):
        c.close(f"lo{i}", e[2 * i] * 2, -s[i] * vs, tol=1e-4)
        c.close(f"hi{i}", e[2 * i + 1] * 2, s[i] * vs, tol=1e-4)
    t = g.get_3d()
    c.check("get3d", tuple(t.shape_xyz) == (s + (1,) if nd == 2 else s))
    c.close("get3d_vox", t.vox_size, vs, tol=0)
    w = models.VolumeGeometry.get_default_from_volume(np.zeros(tuple(g.shape_zxy)))
    c.check("from_volume", tuple(w.shape_xyz) == s)


@case("P15", params=[dict(nd=2), dict(nd=3), dict(nd=4)])
def volume_from_data(c, nd):
    """Volumes from data: square slices of the (unpadded) detector width, as high as the detector; super-sampling refines the voxels and keeps the extent; every size, padding, super-sampling."""
    from corrct import models

    sizes = [c.concretize(c.integer(f"n{i}", 5, 6)) for i in range(nd)]
    ss = c.concretize(c.integer("ss", 1, 2))
    p0, p1 = c.concretize(c.integer("p0", 0, 1)), c.concretize(c.integer("p1", 0, 2))
    data = np.zeros(sizes)
    v = sizes[-3] if nd >= 3 else None
    for nm, pad, w in (("seq", (p0, p1), sizes[-1] - p0 - p1), ("int", p0, sizes[-1] - 2 * p0)):
        fmt = "wu" if nd == 2 else "dvwu"
        g = models.get_vol_geom_from_data(data, padding_u=pad, data_format=fmt, super_sampling=ss)
        c.check("shape_" + nm, tuple(g.shape_xyz) == tuple(k * ss for k in ((w, w) if v is None else (w, w, v))))
        c.close("extent_" + nm, g.extent, [h * q for h in ((w, w) if v is None else (w, w, v)) for q in (-0.5, 0.5)], tol=1e-6)
    # other data orders
    if nd >= 3:
        g = models.get_vol_geom_from_data(data, data_format="dwvu")
        c.check("order", tuple(g.shape_xyz) == (sizes[-1], sizes[-1], sizes[-2]))
        q = models.get_prj_geom_parallel(geom_type="3d", data_shape=data.shape, data_format="dwvu")
        c.check("det_order", tuple(q.det_shape_vu) == (sizes[-2], sizes[-1]))
        q = models.get_prj_geom_cone(src_to_sam_dist=5.0, data_shape=data.shape)
        c.check("det_cone", tuple(q.det_shape_vu) == (sizes[-3], sizes[-1]))
    q = models.get_prj_geom_parallel(geom_type="2d", data_shape=data.shape)
    c.check("det_2d", tuple(q.det_shape_vu) == (sizes[-1],))
    c.check("det_2d_3d", tuple(q.get_3d().det_shape_vu) == (1, sizes[-1]) and q.get_3d().ndim == 3)


@case("P15", params=[dict(n=n, lay=k) for n in (1, 2, 3) for k in ("flat", "row", "col")])
def combine(c, n, lay):
    """Vertical and horizontal shifts combine into (v, u) rows, for any number of projections and layout."""
    from corrct import models

    v, u = c.array("v", (n,), -9, 9), c.array("u", (n,), -9, 9)
    f = dict(flat=lambda x: x, row=lambda x: x.reshape(1, n), col=lambda x: x.reshape(n, 1))[lay]
    r = models.combine_shifts_vu(f(v), f(u))
    c.shape("shape", r, (2, n))
    c.close("vu", r, np.stack([v, u]), tol=0)
    c.raises("size", ValueError, lambda: models.combine_shifts_vu(v, np.ones(n + 1)))
    if n > 1:
        two = np.stack([u, u])
        c.raises("two_v", ValueError, lambda: models.combine_shifts_vu(two, np.ones(2 * n)))
        c.raises("two_u", ValueError, lambda: models.combine_shifts_vu(np.ones(2 * n), two))


@case("P15", params=[dict(kind=k, prec=p) for k in ("2d", "3d") for p in (1, 2)])
def recenter(c, kind, prec):
    """Recentering moves the detector by the projected displacement between the centres of mass, rounded to the asked decimals."""
    from corrct.alignment.centering import RecenterVolume

    from corrct import models

    nd = 2 if kind == "2d" else 3
    th = np.array([0.0, 0.7, 2.0])
    g = models.get_prj_geom_parallel(geom_type=kind)
    vol = np.zeros((3,) * nd)
    vol[(2,) + (1,) * (nd - 1)] = 1.0
    vol[(0,) * nd] = 1.0
    ref = c.array("ref", (nd,), -1, 1)
    sh = c.array("sh", (2, 3) if nd == 3 else (3,), -5, 5)
    got = RecenterVolume(g, th, precision=prec).to_com(sh, vol, ref)
    com = np.array([0.0] + [-0.5] * (nd - 1))
    d = [ref[i] - com[i] for i in range(nd)]
    x, y = d[-1], d[-2]
    u = np.stack([x * np.cos(t) - y * np.sin(t) for t in th])
    u2 = np.stack([x * np.cos(t) + y * np.sin(t) for t in th])
    e = got - (sh + (np.stack([np.stack([d[0]] * 3), u]) if nd == 3 else u))
    c.le("hi", e, 0.5 * 10.0**-prec, tol=1e-6)
    c.le("lo", -e, 0.5 * 10.0**-prec, tol=1e-6)


@case("P15", params=[dict(kind=k, method=m) for k in ("2d", "3d") for m in ("com", "xc", "XC")], scaling=True)
def recenter_reference(c, kind, method):
    """Recentering to a reference, which is the volume moved, moves the detector by the projected movement; any intensity ("com"; four of them and every movement by a pixel with "xc")."""
    from corrct.alignment.centering import RecenterVolume

    from corrct import models

    nd = 2 if kind == "2d" else 3
    th = np.array([0.0, 0.7, 2.0])
    g = models.get_prj_geom_parallel(geom_type=kind)
    r2 = sum((x - 2) ** 2 for x in np.meshgrid(*[np.arange(5)] * nd, indexing="ij"))
    vol = np.where(r2 <= 1, 2.0 - r2, 0.0)
    d = (1, -1, 1)[:nd]
    d = tuple(int(c.concretize(c.integer(f"d{i}", -1, 1))) for i in range(nd)) if method == "xc" else d
    x = c.real("x", 0.5, 2) if method == "com" else 0.5 * int(c.concretize(c.integer("x", 1, 4)))
    ref = np.roll(vol, d, axis=tuple(range(nd))) * x
    sh = np.array([[0.5, -1.0, 2.0], [1.0, 0.25, -3.0]]) if nd == 3 else np.array([1.0, 0.25, -3.0])
    got = RecenterVolume(g, th, precision=2).as_reference(sh, vol, ref, method=method)
    x, y = d[-1], d[-2]
    u = np.array([x * np.cos(t) - y * np.sin(t) for t in th])
    want = sh + (np.stack([np.full(3, float(d[0])), u]) if nd == 3 else u)
    c.shape("shape", got, want.shape)
    c.close("shifts", got, want, tol=0.0301)
    c.raises("unknown", ValueError, lambda: RecenterVolume(g, th).as_reference(sh, vol, ref, method="mean"))
