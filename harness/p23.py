"""P23: X-ray physics: units, compounds, materials, fluorescence, beam profiles."""

import numpy as np

from harness.p16 import patched
from vf.ctx import case

METRIC = {"km": 3, "m": 0, "cm": -2, "mm": -3, "um": -6, "nm": -9, "a": -10}
ENERGY = {"GeV": 9, "MeV": 6, "keV": 3, "eV": 0, "meV": -3, "ueV": -6}
HC_KEV_A = 12.398419843320026  # h c in keV * Angstrom


@case("P23")
def factors(c):
    """Conversion factors between any two units are the ratio of their sizes: they convert any value and back, and compose; any value."""
    from corrct.physics.units import ConversionEnergy, ConversionMetric

    x = c.real("x", 0.1, 10)
    for cls, orders in ((ConversionMetric, METRIC), (ConversionEnergy, ENERGY)):
        for a in orders:
            for b in orders:
                f = cls.convert(a, b)
                c.close(f"{a}_{b}", x * f / 10.0 ** (orders[a] - orders[b]), x, tol=1e-6)
                c.close(f"back_{a}_{b}", x * f * cls.convert(b, a), x, tol=1e-6)
        for o, s in cls.order_to_str.items():
            c.check(f"str_{s}", cls.str_to_order[s] == o)


@case("P23")
def wavelengths(c):
    """Energy and wavelength conversions are each other's inverse, their product is h c in the chosen units, and arrays convert entry-wise; any energy, all units."""
    from corrct.physics import units

    e = c.real("e", 0.5, 20)
    v = c.array("v", (2,), 0.5, 20)
    for un in ENERGY:
        for uw in METRIC:
            scale = HC_KEV_A * 10.0 ** (3 - ENERGY[un] - 10 - METRIC[uw])
            w = units.energy_to_wlength(e, uw, un)
            c.close(f"hc_{un}_{uw}", w * e / scale, 1.0, tol=1e-5)
            c.close(f"inv_{un}_{uw}", units.wlength_to_energy(w, uw, un), e, tol=1e-3)
            c.close(f"hc2_{un}_{uw}", units.wlength_to_energy(e, uw, un) * e / scale, 1.0, tol=1e-5)
    w = units.energy_to_wlength(v, "a")
    c.shape("shape", w, (2,))
    for i in range(2):
        c.close(f"v_{i}", w[i] * v[i], HC_KEV_A, tol=1e-3)


def xrl(c, tag="", lo=0.1, hi=2.0, unknown=()):
    """Stand-ins for xraylib's tables: any positive value for every (function, arguments)."""
    from corrct.physics import xraylib_helper

    tab = {}

    def look(fn, *key):
        k = (fn, *key)
        if key[0] in unknown:
            raise ValueError(f"unknown {key[0]}")
        for old, val in tab.items():
            if len(old) == len(k) and all(a is b or (not hasattr(a, "e") and not hasattr(b, "e") and a == b) for a, b in zip(old, k)):
                return val
        tab[k] = c.real(f"{tag}{fn}_{len(tab)}", lo, hi)
        return tab[k]

    names = ("CS_Total_CP", "CS_Total", "Refractive_Index_Re", "DCS_Compt_CP", "DCS_Compt", "ComptonEnergy", "CS_FluorLine_Kissel", "RadRate", "LineEnergy", "ElementDensity")
    fns = {n: (lambda *a, _n=n: look(_n, *a)) for n in names}
    return patched(xraylib_helper.xraylib, **fns), look


def compounds(c, n=2):
    els = [[8, 20], [20], [1, 6, 8]][:n]
    out = []
    for i, el in enumerate(els):
        out.append({"name": f"cmp{i}", "Elements": list(el), "nElements": len(el), "massFractions": [c.real(f"mf_{i}_{j}", 0, 1) for j in range(len(el))], "density": c.real(f"rho_{i}", 0.1, 5)})
    return out


def volume(c, n=2, shape=(2,), kind="float", **kw):
    from corrct.physics.materials import VolumeMaterial

    cmps = compounds(c, n)
    if kind == "bool":
        ph = [c.boolarray(f"ph_{i}", shape) for i in range(n)]
    else:
        ph = [c.array(f"ph_{i}", shape, 0, 1) for i in range(n)]
    vs = c.real("voxel", 0.01, 1)
    return VolumeMaterial(ph, cmps, vs, **kw), ph, cmps, vs


def as_num(c, x, kind):
    return c.ite(x, 1.0, 0.0) if kind == "bool" else x


@case("P23", params=[dict(unknown=u, kind=k) for u, k in ((False, "float"), (True, "float"), (False, "bool"))])
def attenuation(c, unknown, kind):
    """The attenuation per voxel is the sum over materials of fraction * density * cross section * voxel size, the cross section of compounds without table being the sum over elements weighted by mass fraction; inputs are left alone; any fractions, densities, cross sections, voxel sizes."""
    vm, ph, cmps, vs = volume(c, 2, (2,), kind)
    ctx, look = xrl(c, unknown=("cmp0", "cmp1") if unknown else ())
    e = 12.0
    p0 = [p.copy() for p in ph]
    with ctx:
        got = vm.get_attenuation(e)
        again = vm.get_attenuation(e)
        cs = []
        for m in cmps:
            cs.append(sum(look("CS_Total", el, e) * f for el, f in zip(m["Elements"], m["massFractions"])) if unknown else look("CS_Total_CP", m["name"], e))
    c.shape("shape", got, (2,))
    for i in range(2):
        c.close(f"val_{i}", got[i], sum(as_num(c, p[i], kind) * m["density"] * s for p, m, s in zip(ph, cmps, cs)) * vs, tol=1e-4)
    c.close("again", again, got, tol=0)
    for k in range(2):
        for i in range(2):
            c.check(f"in_{k}_{i}", ph[k][i] == p0[k][i])


@case("P23")
def phase_shift(c):
    """The phase shift per voxel is minus the sum of fraction * (1 - refractive index) * voxel size * 2 pi / wavelength; any fractions, refractive indices, voxel sizes."""
    vm, ph, cmps, vs = volume(c, 2, (2,))
    ctx, look = xrl(c)
    e = 10.0
    with ctx:
        got = vm.get_phase_shift(e)
        n = [look("Refractive_Index_Re", m["name"], e, m["density"]) for m in cmps]
    wl = HC_KEV_A * 1e-8 / e
    for i in range(2):
        c.close(f"val_{i}", got[i] * wl, -sum(p[i] * (1 - q) for p, q in zip(ph, n)) * vs * 2 * np.pi, tol=1e-4)


@case("P23", params=[dict(el=e) for e in (8, "Ca", 6, 26)])
def mass_fraction(c, el):
    """The local mass of an element is the sum over the materials with that element of fraction * density * mass fraction, and zero for other elements, given by number or symbol; any fractions and densities."""
    vm, ph, cmps, vs = volume(c, 3, (2,))
    got = vm.get_element_mass_fraction(el)
    num = {"Ca": 20}.get(el, el)
    for i in range(2):
        want = sum([p[i] * m["density"] * m["massFractions"][m["Elements"].index(num)] for p, m in zip(ph, cmps) if num in m["Elements"]]) * 1.0
        c.close(f"val_{i}", got[i], want, tol=1e-4)
    c.shape("shape", got, (2,))


def detector(c, angle=None):
    from corrct.physics.xrf import DetectorXRF

    s, d = c.real("surface", 0, 10), c.real("distance", 5, 50)
    return DetectorXRF(surface_mm2=s, distance_mm=d, angle_rad=1.0 if angle is None else angle), s, d


@case("P23", params=[dict(unknown=u, det=d, ang=a) for u, d, a in ((False, False, True), (True, False, True), (False, True, False), (False, True, True))])
def compton(c, unknown, det, ang):
    """Compton production is the sum of fraction * density * differential cross section * voxel size (times the solid angle of the detector), at the given angle or else the detector's; no angle and no detector is refused; any fractions, densities, cross sections, detectors."""
    vm, ph, cmps, vs = volume(c, 2, (2,))
    ctx, look = xrl(c, unknown=("cmp0", "cmp1") if unknown else ())
    dt = detector(c)[0] if det else None
    e, a = 20.0, (0.5 if ang else 1.0)
    with ctx, patched(type(vm), _check_parallax_detector=lambda *x, **k: True):
        en, got = vm.get_compton_scattering(e, angle_rad=a if ang else None, detector=dt)
        cs = [sum(look("DCS_Compt", el, e, a) * f for el, f in zip(m["Elements"], m["massFractions"])) if unknown else look("DCS_Compt_CP", m["name"], e, a) for m in cmps]
        c.close("energy", en, look("ComptonEnergy", e, a), tol=1e-6)
        c.raises("none", ValueError, lambda: vm.get_compton_scattering(e))
    sa = dt.solid_angle_sr if det else 1.0
    for i in range(2):
        c.close(f"val_{i}", got[i], sum(p[i] * m["density"] * s for p, m, s in zip(ph, cmps, cs)) * vs * sa, tol=1e-4)


@case("P23", params=[dict(lines=l, det=d) for l, d in (("one", False), ("str", False), ("list", True))])
def fluorescence(c, lines, det):
    """Fluorescence production is the local mass of the element times the summed line cross sections times the voxel size (times the solid angle), missing lines counting as zero; the emitted energy is the average of the line energies weighted by their rates; any tables."""
    from corrct.physics import xrf

    vm, ph, cmps, vs = volume(c, 2, (2,))
    ka = xrf.LinesSiegbahn.get_lines("KA")
    arg = {"one": ka[0], "str": "KA", "list": [ka[1], ka[0]]}[lines]
    used = {"one": [ka[0]], "str": ka, "list": [ka[1], ka[0]]}[lines]
    ctx, look = xrl(c)
    dt = detector(c)[0] if det else None
    e = 15.0
    missing = ka[2].indx

    def kissel(z, ln, en):
        if ln == missing:
            raise ValueError("no such line")
        return look("CS_FluorLine_Kissel", z, ln, en)

    from corrct.physics import xraylib_helper

    with ctx, patched(xraylib_helper.xraylib, CS_FluorLine_Kissel=kissel), patched(type(vm), _check_parallax_detector=lambda *x, **k: True):
        en, got = vm.get_fluo_production("Ca", e, arg, detector=dt)
        y = sum([kissel(20, ln.indx, e) for ln in used if ln.indx != missing])
        rates = [look("RadRate", 20, ln.indx) for ln in used]
        ens = [look("LineEnergy", 20, ln.indx) for ln in used]
    sa = dt.solid_angle_sr if det else 1.0
    mass = vm.get_element_mass_fraction(20)
    c.shape("shape", got, (2,))
    for i in range(2):
        c.close(f"val_{i}", got[i], mass[i] * y * vs * sa, tol=1e-4)
    c.close("energy", en * sum(rates), sum(r * q for r, q in zip(rates, ens)), tol=1e-3)


@case("P23")
def line_energy(c):
    """Rates and energies of lines are those of the tables, zero when missing, in the order of the lines; the average energy lies between the energies of the lines with a rate, and is finite for elements without the line; any tables."""
    from corrct.physics import xraylib_helper, xrf

    ls = xrf.LinesSiegbahn.get_lines("kb")[:3]
    ctx, look = xrl(c)

    def rate(z, ln):
        if ln == ls[1].indx:
            raise ValueError("missing")
        return look("RadRate", z, ln)

    with ctx, patched(xraylib_helper.xraylib, RadRate=rate):
        r = xrf.get_radiation_rate("Fe", ls)
        e = xrf.get_energy(26, ls)
        av = xrf.get_energy("Fe", ls, compute_average=True)
        want_r, want_e = [rate(26, ls[0].indx), 0.0, rate(26, ls[2].indx)], [look("LineEnergy", 26, l.indx) for l in ls]
    for i in range(3):
        c.close(f"rate_{i}", r[i], want_r[i], tol=1e-6)
        c.close(f"energy_{i}", e[i], want_e[i], tol=1e-6)
    lo = c.ite(want_e[0] < want_e[2], want_e[0], want_e[2])
    hi = c.ite(want_e[0] < want_e[2], want_e[2], want_e[0])
    c.le("av_lo", lo, av, tol=1e-5)
    c.le("av_hi", av, hi, tol=1e-5)
    c.check("count", len(xrf.LinesSiegbahn.get_lines("K")) == 8 and all(l.name.startswith("KB") for l in ls))

    def none(*a):
        raise ValueError("missing")

    def energy(z, ln):
        if ln == ls[1].indx:
            raise ValueError("missing")
        return look("LineEnergy", z, ln)

    with patched(xraylib_helper.xraylib, LineEnergy=energy):
        e = xrf.get_energy(26, ls)
    c.close("one_missing", e, np.stack([want_e[0], 0.0 * want_e[0], want_e[2]]), tol=1e-6)
    with patched(xraylib_helper.xraylib, RadRate=none, LineEnergy=none):
        c.close("no_energies", xrf.get_energy("H", "KA"), np.zeros(len(xrf.LinesSiegbahn.get_lines("KA"))), tol=0)
        c.finite("no_lines", xrf.get_energy("H", "KA", compute_average=True))
    c.raises("empty", ValueError, lambda: xrf.get_energy("Fe", []))


@case("P23", params=[dict(arr=a) for a in (False, True)])
def detector_geometry(c, arr):
    """The solid angle is proportional to the surface and to the inverse square of the distance, the angle range is symmetric with the half edge over the distance as tangent, for one or several distances; negative surfaces and any non-positive distance are refused; any surface and distances."""
    from corrct.physics.xrf import DetectorXRF

    s = c.real("s", 0.1, 10)
    d = c.array("d", (2,), 1, 50) if arr else c.real("d", 1, 50)
    dt = DetectorXRF(surface_mm2=s, distance_mm=d)
    sa = dt.solid_angle_sr
    lo, hi = dt.angle_range_rad
    for i in range(2 if arr else 1):
        g, di, h, l = (sa[i], d[i], hi[i], lo[i]) if arr else (sa, d, hi, lo)
        c.close(f"sa_{i}", g * 4 * np.pi * di * di, s, tol=1e-3)
        c.close(f"sym_{i}", h + l, 0.0, tol=1e-6)
        c.close(f"tan_{i}", 2 * di * np.sin(h), np.sqrt(s) * np.cos(h), tol=1e-3)
    c.raises("surface", ValueError, lambda: DetectorXRF(surface_mm2=-s, distance_mm=d))
    bad = -d * np.array([-1.0, 1.0]) if arr else -d
    c.raises("distance", ValueError, lambda: DetectorXRF(surface_mm2=s, distance_mm=bad))


@case("P23", params=[dict(kind=k) for k in ("float", "array")])
def parallax(c, kind):
    """The parallax check compares the solid angles seen from the nearest and farthest sides of the sample (given in cm, detectors in mm) to the tolerance, or those of the given distances, and leaves the detector alone; any surface, distance, voxel size."""
    from corrct.physics.materials import VolumeMaterial
    from corrct.physics.xrf import DetectorXRF

    s, vs, t = c.real("s", 0.1, 10), c.real("voxel", 0.01, 0.2), c.real("tol", 0.0001, 0.05)
    vm = VolumeMaterial([np.ones((2, 4), np.float32)], [dict(name="x", Elements=[8], massFractions=[1.0], density=1.0)], vs)
    if kind == "float":
        d = c.real("d", 10, 50)
        dt = DetectorXRF(surface_mm2=s, distance_mm=d)
        near, far = d - 20 * vs, d + 20 * vs
        c.assume(near > 1)
    else:
        near, far = c.real("near", 10, 20), c.real("far", 20, 50)
        dt = DetectorXRF(surface_mm2=s, distance_mm=10.0)
        dt.distance_mm = np.stack([far, near])
    got = vm._check_parallax_detector(dt, t)
    # s / (4 pi) (1/near^2 - 1/far^2) < tol
    lhs = s * (far * far - near * near)
    rhs = t * 4 * np.pi * near * near * far * far
    c.check("sense", ((lhs < rhs) == got) | (abs(lhs - rhs) <= 1e-3 * rhs))
    if kind == "float":
        c.close("detector", dt.distance_mm, d, tol=0)


@case("P23", params=[dict(name=n, rho=r) for n, r in (("CaCO3", False), ("CaCO3", True), ("Water, Liquid", True), ("Water, Liquid", False))])
def compound(c, name, rho):
    """Compounds have the given density, or the sum of their elements' densities weighted by mass fraction, and keep their name; any densities."""
    from corrct.physics import xraylib_helper

    r = c.real("rho", 0.1, 5) if rho else None
    ctx, look = xrl(c)
    with ctx:
        m = xraylib_helper.get_compound(name, density=r)
        want = r if rho else sum(look("ElementDensity", el) * f for el, f in zip(m["Elements"], m["massFractions"]))
        c.close("density", m["density"], want, tol=1e-6)
        c.close("cs", xraylib_helper.get_compound_cross_section(m, 10.0), look("CS_Total_CP", name, 10.0), tol=1e-6)
    c.check("name", m["name"] == name)
    c.close("sum", c.real("one", 1, 1) * sum(m["massFractions"]), 1.0, tol=1e-6)


@case("P23")
def refused(c):
    """Material volumes of different shapes, numbers of dimensions or number of compositions are refused, and booleans count as zero or one; any fractions."""
    from corrct.physics.materials import VolumeMaterial

    m = compounds(c, 2)
    p = c.array("p", (2, 2), 0, 1)
    c.raises("len", ValueError, lambda: VolumeMaterial([p], m, 1.0))
    c.raises("empty", ValueError, lambda: VolumeMaterial([], [], 1.0))
    c.raises("ndim", ValueError, lambda: VolumeMaterial([p, p[0]], m, 1.0))
    c.raises("shape", ValueError, lambda: VolumeMaterial([p, p[:, :1]], m, 1.0))
    b = c.intarray("b", (2, 2), 0, 1)
    given = [b, p]
    vm = VolumeMaterial(given, m, 1.0, dtype=np.float32)
    c.check("given_list", given[0] is b and given[1] is p)
    vm = VolumeMaterial([p, p], m, 1.0)
    c.close("kept", vm.materials_fractions[1], p, tol=1e-6)


class Stand:
    """numpy with some functions replaced."""

    def __init__(self, **fns):
        self.__dict__.update(fns)

    def __getattr__(self, k):
        return getattr(np, k)


@case("P23", params=[dict(shape=s, vox=v) for s, v in (("gaussian", 1.0), ("lorentzian", 1.0), ("sech**2", 1.0), ("gaussian", 0.05))])
def beam(c, shape, vox):
    """Pencil-beam profiles are positive, symmetric, sum to one, fall off from the centre, and are the blurred voxel integrated over each voxel, the points on its borders counting half, for any bell-shaped beam; beams have the given full width at half maximum; any FWHM, of listed voxel sizes. (The maximum, which only scales, is replaced by one.)"""
    from corrct import physics

    f = c.real("f", 0.5, 3)
    fv = f * vox
    n = 31
    x = np.linspace(-1.5, 1.5, n)
    bell = [1.0]
    for k in range(1, 16):
        bell.append(bell[-1] * 1.0 - c.real(f"drop_{k}", 0.001, 0.06))

    def exp(a):
        # half maximum at half of the FWHM
        c.shape("points", a, (n,))
        for i in range(n):
            c.close(f"arg_{i}", a[i] * f * f, -4 * np.log(2) * x[i] ** 2, tol=1e-3)
        return np.stack([bell[abs(i - 15)] for i in range(n)])

    def cosh(a):
        c.shape("points", a, (n,))
        for i in range(n):
            c.close(f"arg_{i}", a[i] * f, 2 * np.arccosh(np.sqrt(2)) * x[i], tol=1e-3)
        return np.cosh(x)

    def top(a):
        c.check("max_pos", a[(n - 1) // 2] > 0)
        return 1.0

    with patched(physics, np=Stand(exp=exp, cosh=cosh, max=top)):
        y = physics.pencil_beam_profile(vox, fv, 1, beam_shape=shape)
    c.shape("shape", y, (3,))
    if shape == "gaussian":
        g = bell
    elif shape == "lorentzian":
        g = [((fv / 2) ** 2) / ((vox * k * 0.1) ** 2 + (fv / 2) ** 2) for k in range(16)]
    else:
        g = [1 / np.cosh(0.1 * k) ** 2 for k in range(16)]

    def blur(j):
        # voxel of 11 points, the outermost count half; nothing outside of the sampled beam
        return sum(g[abs(j + d - 15)] * (0.5 if abs(d) == 5 else 1.0) for d in range(-5, 6) if 0 <= j + d < n)

    want = [sum(blur(m + d) * (0.5 if abs(d) == 5 else 1.0) for d in range(-5, 6)) for m in (5, 15, 25)]
    for i in range(3):
        c.close(f"val_{i}", y[i] * sum(want), want[i], tol=2e-3)
        c.check(f"pos_{i}", y[i] > 0)
    c.close("sum", y.sum(), 1.0, tol=1e-4)
    c.close("sym", y[0], y[2], tol=1e-4)
    c.le("fall", y[0], y[1], tol=1e-6)
