"""P17: cone-beam calibration and its geometries reproduce the acquisition."""

import numpy as np

from vf.ctx import case
from harness.p16 import patched


def axes(theta, phi):
    """Detector axes (u, v) and normal: turned by phi about the rotation axis, then by theta out of the horizontal plane (y flipped)."""
    u = np.stack([-np.sin(phi), -np.cos(phi), 0.0 * np.sin(phi)])
    n0 = np.stack([np.cos(phi), -np.sin(phi), 0.0 * np.sin(phi)])
    z = np.array([0.0, 0.0, 1.0])
    n = np.cos(theta) * n0 + np.sin(theta) * z
    v = np.cos(theta) * z - np.sin(theta) * n0
    return u, v, n


@case("P17", params=[dict(which=w) for w in ("phi", "theta", "both")])
def geometry(c, which):
    """Detector axes are orthonormal and turned by the angles; the foot of the perpendicular from the source is the pixel (u0, v0), at distance D; the source is at R from the axis: every distance, offset and angle."""
    from corrct.alignment.cone_beam import ConeBeamGeometry

    D, R = c.real("D", 5, 50), c.real("R", 1, 30)
    u0, v0 = c.real("u0", -5, 5), c.real("v0", -5, 5)
    th = c.real("theta", -30, 30) if which != "phi" else 0.0
    ph = c.real("phi", -30, 30) if which == "phi" else (20.0 if which == "both" else 0.0)
    g = ConeBeamGeometry(theta_deg=th, phi_deg=ph, D_pix=D, R_pix=R, u0_pix=u0, v0_pix=v0, det_size_v_pix=4, det_size_u_pix=6)
    p = g.get_prj_geom(translate_z_to_center=False)
    u, v, n = axes(np.deg2rad(th), np.deg2rad(ph))
    c.close("u", np.stack([p.det_u_xyz[0, i] for i in range(3)]), u, tol=1e-5)
    c.close("v", np.stack([p.det_v_xyz[0, i] for i in range(3)]), v, tol=1e-5)
    src, det = p.src_pos_xyz[0], p.det_pos_xyz[0]
    c.close("source", src, np.stack([R, 0.0 * R, 0.0 * R]), tol=1e-5)
    c.close("detector", det, src - D * n - u0 * u - v0 * v, tol=1e-3)
    c.close("pix2vox", p.pix2vox_ratio * D, R * abs(n[0]), tol=1e-3)
    c.check("shape", tuple(int(x) for x in p.det_shape_vu) == (4, 6))
    c.check("type", p.geom_type == "cone")


@case("P17", params=[dict(phi=0.0), dict(phi=15.0), dict(phi=-20.0)])
def geometry_translated(c, phi):
    """Translated to the centre: the ray through the centre of the detector meets the rotation axis plane at height zero, and the horizontal positions do not change."""
    from corrct.alignment.cone_beam import ConeBeamGeometry

    D, R = c.real("D", 5, 50), c.real("R", 1, 30)
    u0, v0 = c.real("u0", -1, 1), c.real("v0", -5, 5)
    g = ConeBeamGeometry(phi_deg=phi, D_pix=D, R_pix=R, u0_pix=u0, v0_pix=v0)
    a, b = g.get_prj_geom(translate_z_to_center=False), g.get_prj_geom()
    for nm in ("src_pos_xyz", "det_pos_xyz"):
        x, y = getattr(a, nm)[0], getattr(b, nm)[0]
        c.close(nm, y[:2], x[:2], tol=1e-5)
    c.close("rigid", b.src_pos_xyz[0, 2] - b.det_pos_xyz[0, 2], a.src_pos_xyz[0, 2] - a.det_pos_xyz[0, 2], tol=1e-4)
    s, d = b.src_pos_xyz[0], b.det_pos_xyz[0]
    # height of the ray where x = 0 (similar triangles)
    c.close("height", s[2] * (s[0] - d[0]), s[0] * (s[2] - d[2]), tol=1e-2)


@case("P17", params=[dict(eta=e, phi=p, theta=t) for e, p, t in ((90.0, 0.0, 0.0), (-90.0, 10.0, 0.0), (30.0, -20.0, 5.0), (-7.5, 15.0, -10.0))])
def geometry_eta(c, eta, phi, theta):
    """The tilt about the detector normal turns the pixel axes and keeps the detector centre: pixels lie where the tilt-corrected pixels lie."""
    from corrct.alignment.cone_beam import ConeBeamGeometry

    D, R = c.real("D", 5, 50), c.real("R", 1, 30)
    u0, v0 = c.real("u0", -5, 5), c.real("v0", -5, 5)
    kw = dict(phi_deg=phi, theta_deg=theta, D_pix=D, R_pix=R, u0_pix=u0, v0_pix=v0)
    a = ConeBeamGeometry(**kw).get_prj_geom()
    b = ConeBeamGeometry(eta_deg=eta, **kw).get_prj_geom()
    x = np.deg2rad(eta)
    c.close("det", b.det_pos_xyz, a.det_pos_xyz, tol=1e-4)
    c.close("src", b.src_pos_xyz, a.src_pos_xyz, tol=1e-4)
    c.close("u", b.det_u_xyz, np.cos(x) * a.det_u_xyz + np.sin(x) * a.det_v_xyz, tol=1e-5)
    c.close("v", b.det_v_xyz, np.cos(x) * a.det_v_xyz - np.sin(x) * a.det_u_xyz, tol=1e-5)


@case("P17", params=[dict(up=1), dict(up=3)])
def volume(c, up):
    """The volume covers the detector: as many voxels as pixels (times the up-sampling) and voxels of the inverse size; any detector size."""
    from corrct.alignment.cone_beam import ConeBeamGeometry

    nv, nu = c.integer("nv", 1, 9), c.integer("nu", 1, 9)
    g = ConeBeamGeometry(det_size_v_pix=nv, det_size_u_pix=nu).get_vol_geom(up)
    c.close("shape", g.shape_xyz, np.stack([nu * up, nu * up, nv * up]), tol=1e-9)
    c.close("vox", g.vox_size, 1.0 / up, tol=1e-9)


@case("P17", params=[dict(field=f, dec=d) for f, d in (("phi_deg", 3), ("R_pix", None), ("u0_pix", 1))])
def updates(c, field, dec):
    """Tuned geometries differ from the original in the field only, relative or absolute, rounded to the decimals; the original is untouched."""
    from corrct.alignment.cone_beam import ConeBeamGeometry

    names = ["theta_deg", "phi_deg", "eta_deg", "D_pix", "R_pix", "v0_pix", "u0_pix"]
    vals = {n: c.real(n, -9, 9) for n in names}
    x = c.array("x", (2,), -3, 3)
    g = ConeBeamGeometry(**vals)
    eps = 1e-9 if dec is None else 0.5 * 10.0**-dec + 1e-9
    new = [g.update(field, x[0], decimals=dec), g.update(field, x[0], is_relative=False, decimals=dec)]
    new += list(g.get_tuning_params(field, x)) + list(g.get_tuning_params(field, x[1]))
    want = [vals[field] + x[0], x[0], vals[field] + x[0], vals[field] + x[1], vals[field] + x[1]]
    c.check("number", len(new) == 5)
    for i, (a, w) in enumerate(zip(new, want)):
        c.close(f"new_{i}", getattr(a, field), w, tol=eps if i < 2 else 0.5001e-3)
        for n in names:
            if n != field:
                c.close(f"same_{i}_{n}", getattr(a, n), vals[n], tol=1e-9)
    for n in names:
        c.close(f"original_{n}", getattr(g, n), vals[n], tol=1e-9)


def forward(phi, R, r, z, D=40.0):
    """Conic of the projected circle of radius r at height z: its (b, a, c, v, u) parameters, u0 = v0 = 0."""
    t = np.linspace(0.2, 2 * np.pi, 12, endpoint=False)
    u, v, n = axes(0.0, np.deg2rad(phi))
    s = np.array([R, 0.0, 0.0])
    X = np.stack([r * np.cos(t), r * np.sin(t), np.full_like(t, z)], axis=-1)
    d = X - s
    P = d * (-D / (d @ n))[:, None]
    pu, pv = P @ u, P @ v
    A = np.stack([pu**2, pv**2, 2 * pu * pv, pu, pv], axis=-1)
    a, b, cc, f, g = np.linalg.lstsq(A, np.ones(len(t)), rcond=None)[0]
    u_c, v_c = np.linalg.solve([[a, cc], [cc, b]], [-f / 2, -g / 2])
    k = 1 + a * u_c**2 + b * v_c**2 + 2 * cc * u_c * v_c
    return b / k, a / k, cc / k, v_c, u_c


GEOMS = [dict(phi=p, R=R, r=r, z1=z1, z2=z2, e=e) for p, R, r, z1, z2, e in (
    (0.0, 20.0, 4.0, -5.0, 3.0, 1), (0.0, 20.0, 4.0, -8.0, -3.0, -1), (3.0, 25.0, 3.0, -4.0, 6.0, 1), (-5.0, 25.0, 3.0, -7.0, -2.0, -1))]


@case("P17", params=[dict(meas=m, **g) for g in GEOMS for m in (False, True)], scaling=True)
def calibrate(c, meas, phi, R, r, z1, z2, e):
    """Calibrating from the exact ellipses of two circles recovers distances, principal point, tilt and projected origin, with the source between the circles or not; any pixel size, principal point and listed arrangement."""
    from corrct.alignment import cone_beam
    from corrct.alignment.fitting import Ellipse

    s = c.real("s", 0.5, 2)
    w = c.real("w", 0.5, 2)
    u0, v0 = c.real("u0", -5, 5), c.real("v0", -5, 5)
    f = object.__new__(cone_beam.FitConeBeamGeometry)
    f.verbose = False
    f.acq_geom = cone_beam.ConeBeamGeometry(det_size_v_pix=4, det_size_u_pix=6)
    f.prj_origin_vu = None
    ells = []
    for z in (z1, z2):
        b, a, cc, v, u = forward(phi, R, r, z)
        ells.append(Ellipse(a / s / s, b / s / s, cc / s / s, u0 + u * s, v0 + v * s, np.zeros(2)))
    f.ell1_rot, f.ell2_rot = ells
    # centres of the circles on the detector: any two points of the axis give the projected origin by interpolation
    tan = np.tan(np.deg2rad(phi))
    f.ell1_prj_c_vu, f.ell2_prj_c_vu = (np.stack([v0 + (z / R / np.cos(np.deg2rad(phi))) * 40.0 * s, u0 - tan * 40.0 * s]) for z in (z1, z2))
    g = f.fit(r * w, e=e, meas_D_pix=40.0 * s if meas else None)
    c.close("D", g.D_pix, 40.0 * s, tol=0.01)
    c.close("R", g.R_pix, R * w, tol=0.01)
    c.close("u0", g.u0_pix, u0, tol=0.01)
    c.close("v0", g.v0_pix, v0, tol=0.01)
    c.close("phi", g.phi_deg, phi, tol=0.01)
    c.close("theta", g.theta_deg, 0.0, tol=1e-9)
    c.close("origin", f.prj_origin_vu, np.stack([v0, u0 - tan * 40.0 * s]), tol=0.01)


@case("P17", params=[dict(ang=a) for a in (0.0, 5.0, -12.0, 90.0)], scaling=True)
def tilt_angle(c, ang):
    """The detector tilt is the direction between the ellipse centres, at any distance."""
    from corrct.alignment import cone_beam

    d = c.real("d", 1, 50)
    x = np.deg2rad(ang)
    got = cone_beam._get_rot_axis_angle_deg(np.stack([-1.0 * d * np.cos(x), -1.0 * d * np.sin(x)]), np.stack([0.0 * d, 0.0 * d]))
    c.close("angle", got, ang, tol=1e-3)


@case("P17", params=[dict(eta=a, axis=k) for a in (0.0, 0.05, 20.0, -33.0) for k in (False, True)], scaling=True)
def initialise(c, eta, axis):
    """Calibration starts with the points relative to the detector centre and tilt-corrected: the ellipses' centres end up one above the other. Measured axis points take precedence."""
    from corrct.alignment import cone_beam

    d = c.real("d", 1, 9)
    m = c.array("m", (2,), -3, 3)
    off = np.array([4.0, 6.0])
    x = np.deg2rad(eta)
    dirn = np.array([np.cos(x), np.sin(x)])
    p1 = np.stack([np.stack([off[i] + m[i] - d * dirn[i] + q for q in (0.0, 1.0)]) for i in range(2)])
    p2 = np.stack([np.stack([off[i] + m[i] + d * dirn[i] + q for q in (0.0, 1.0)]) for i in range(2)])
    pa = np.stack([np.stack([off[i] + m[i] + q * d * dirn[i] for q in (-1.0, 0.5, 1.0)]) for i in range(2)]) if axis else None
    seen, fits = [], []

    def centre(points, **kw):
        seen.append(points)
        if axis:  # far from the measured ones
            return points[:, 0] + np.array([0.0, 40.0]) * (len(seen) - 1.5)
        return points[:, 0]

    def ellipse(points, **kw):
        fits.append(points)
        return points

    with patched(cone_beam, fit_ellipse_center=centre, fit_ellipse=ellipse):
        f = cone_beam.FitConeBeamGeometry((8, 12), p1, p2, pa, pix_size_um=2.5, verbose=False)
    c.close("rel1", seen[0][:, 0], m - d * dirn, tol=1e-5)
    c.close("rel2", seen[1][:, 0], m + d * dirn, tol=1e-5)
    c.close("eta", f.acq_geom.eta_deg, eta, tol=1e-3)
    c.check("size", (f.acq_geom.det_size_v_pix, f.acq_geom.det_size_u_pix, f.acq_geom.pix_size_um) == (8, 12, 2.5))
    c.close("c1", f.ell1_prj_c_vu, m - d * dirn, tol=1e-5)
    c.close("c2", f.ell2_prj_c_vu, m + d * dirn, tol=1e-5)
    if axis:
        c.close("origin", f.prj_origin_vu, m + 0.5 * d * dirn, tol=1e-5)
    R = np.array([[np.cos(x), np.sin(x)], [-np.sin(x), np.cos(x)]]) if abs(eta) > 0.1 else np.eye(2)
    for i, (p, q) in enumerate(zip((p1, p2), fits)):
        c.close(f"rotated_{i}", q, np.stack([R[k, 0] * (p[0] - off[0]) + R[k, 1] * (p[1] - off[1]) for k in range(2)]), tol=1e-3)


@case("P17")
def wrong_order(c):
    """Swapped ellipses are refused, at any distance."""
    from corrct.alignment import cone_beam

    d = c.real("d", 1, 9)
    p1 = np.stack([np.stack([4.0 + d]), np.stack([6.0 + 0.0 * d])])
    p2 = np.stack([np.stack([4.0 - d]), np.stack([6.0 + 0.0 * d])])
    with patched(cone_beam, fit_ellipse_center=lambda p, **k: p[:, 0], fit_ellipse=lambda p, **k: p):
        c.raises("swapped", ValueError, lambda: cone_beam.FitConeBeamGeometry((8, 12), p1, p2, verbose=False))


@case("P17", params=[dict(two=t) for t in (False, True)])
def tuning(c, two):
    """Parameter tuning moves each parameter, in turn, to the minimum of the reconstruction residual (three decimals); every minimum in the range."""
    from corrct.alignment import cone_beam

    w = c.array("w", (2,), -0.9, 0.9)
    init = cone_beam.ConeBeamGeometry(u0_pix=1.5, phi_deg=-2.0, R_pix=5.0, D_pix=10.0, det_size_v_pix=2, det_size_u_pix=2)
    calls = []

    class Proj:
        def __init__(self, vol, ang, prj_geom=None, **kw):
            self.geom, self.ang = prj_geom, ang

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

    class Info:
        def __init__(self, r):
            self.residuals = [100.0, r]

    class Solver:
        def __init__(self, **kw):
            pass

        def __call__(self, prj, data, iterations=1, b_mask=None, **kw):
            calls.append((prj.ang, b_mask))
            ph, u0 = cur[-1].phi_deg, cur[-1].u0_pix
            return None, Info(3.0 + (u0 - 1.5 - w[0]) * (u0 - 1.5 - w[0]) + (ph + 2.0 - w[1]) * (ph + 2.0 - w[1]))

    cur = []
    real = cone_beam.ConeBeamGeometry.get_prj_geom

    def geom(self, *a, **k):
        cur.append(self)
        return None

    pars = {"u0_pix": [-1.0, 0.0, 1.0]}
    if two:
        pars["phi_deg"] = [-1.0, 0.0, 1.0]
    mask = np.ones((2, 3, 2))
    with patched(cone_beam, ProjectorUncorrected=Proj, SIRT=Solver), patched(cone_beam.ConeBeamGeometry, get_prj_geom=geom):
        got = cone_beam.tune_acquisition_geometry(init, np.zeros((2, 3, 2)), [0.0, 0.5, 1.0], pars, data_mask=mask, verbose=False)
    c.close("u0", got.u0_pix, 1.5 + w[0], tol=0.00051)
    c.close("phi", got.phi_deg, w[1] - 2.0 if two else -2.0, tol=0.00051)
    c.close("R", got.R_pix, 5.0, tol=1e-9)
    c.check("calls", len(calls) == 3 * (1 + two) and all(k[1] is not None and k[1].shape == (2, 3, 2) for k in calls))
    c.close("init", init.u0_pix, 1.5, tol=1e-9)


@case("P17")
def json_roundtrip(c):
    """Saving and loading gives the same geometry; other classes and several instances are refused."""
    from corrct.alignment.cone_beam import ConeBeamGeometry

    n = int(c.concretize(c.integer("n", 1, 6)))
    g = ConeBeamGeometry(phi_deg=0.5 * n, D_pix=100.0 + n, u0_pix=-n / 3, det_size_v_pix=n, det_size_u_pix=2 * n, pix_size_um=0.1)
    h = ConeBeamGeometry()
    h.from_json(g.to_json())
    c.check("same", h == g)
    c.raises("class", ValueError, lambda: h.from_json('{"Other": {}}'))
    c.raises("many", ValueError, lambda: h.from_json('{"Other": {}, "ConeBeamGeometry": {}}'))
