"""P29: simulated acquisitions and phantoms."""

import contextlib
import io

import numpy as np

from harness.p16 import patched
from harness.p23 import Stand, xrl
from vf.ctx import case


class Rng:
    """numpy.random whose draws are inputs."""

    def __init__(self, c):
        self.c = c
        self.n = 0
        self.poissons = []
        self.normals = []

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def standard_normal(self, size=None):
        self.n += 1
        z = self.c.array(f"z{self.n}", tuple(int(s) for s in np.atleast_1d(() if size is None else size)), -2, 2)
        self.normals.append(z)
        return z

    def poisson(self, lam=1.0, size=None):
        self.n += 1
        lam = lam + np.zeros(np.shape(lam) if size is None else size)
        k = self.c.array(f"k{self.n}", lam.shape, 0, 20)
        self.poissons.append((lam, k))
        return k

    def default_rng(self, seed=None):
        return self


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


@case("P29", params=[dict(poisson=p, readout=r, bg=b) for p, r, b in ((False, False, None), (True, False, None), (False, True, None), (True, True, "avg"), (False, False, "std"), (True, False, "std"))])
def noise(c, poisson, readout, bg):
    """The clean image is the image times photons and efficiency; the noisy one adds the background (never negative), replaces the expected by the drawn counts, and adds the read-out noise last; the reported background is the mean of the one added; the image is left alone; any draws, photons, efficiency."""
    from corrct import testing

    img = c.array("img", (2, 2), 0, 2)
    ph = c.real("photons", 0.5, 4)
    eff = c.real("eff", 0.25, 1)
    ro = c.real("ro", 0.1, 1) if readout else None
    avg = c.real("avg", 0, 1) if bg else None
    std = c.real("std", 0, 1) if bg == "std" else None
    rng = Rng(c)
    i0 = img.copy()
    with patched(testing, np=Stand(random=rng)):
        got, clean, back = testing.add_noise(img, ph, add_poisson=poisson, readout_noise_std=ro, background_avg=avg, background_std=std, detection_efficiency=eff)
    c.close("img", img, i0, tol=0)
    scale = ph * eff
    want = img * scale
    c.close("clean", clean, want, tol=1e-4)
    c.shape("shape", got, img.shape)
    draws = list(rng.normals)
    if bg:
        add = np.abs(avg + (avg / 20 if std is None else std) * draws.pop(0)) * scale
        want = want + add
        c.close("background", back, sum(add.reshape(-1)) / 4, tol=1e-4)
        c.check("positive", back >= -1e-6)
    else:
        c.close("no_background", back, 0.0, tol=1e-6)
    c.check("draws", len(rng.poissons) == int(poisson) and len(draws) == int(readout))
    if poisson:
        lam, k = rng.poissons[0]
        c.close("expected", lam, want, tol=1e-4)
        want = k
    if readout:
        want = want + ro * draws.pop(0)
    c.close("noisy", got, want, tol=1e-4)


def angles(n, lo, hi):
    return np.deg2rad(np.array([lo + (hi - lo) * i / n for i in range(n)]))


@case("P29", params=[dict(att=a, psf=p, nd=d) for a, p, d in ((None, False, 1), (None, True, 1), ("in", False, 1), ("out", True, 1), ("both", False, 2))])
def emission(c, att, psf, nd):
    """Simulated sinograms are the (attenuated, blurred) projections at evenly spaced angles without the last one, times photons and solid angle; the reference volume has the same scale; any phantoms, attenuation, flux and time."""
    from corrct import projectors, testing

    n = 3
    x = c.array("x", (n, n), 0, 1)
    # concrete attenuation: its maps are decided by P14
    att_in = np.arange(9.0).reshape(n, n) / 20 if att in ("in", "both") else None
    att_out = np.arange(9.0)[::-1].reshape(n, n) / 10 if att in ("out", "both") else None
    k = np.array([0.25, 0.5, 0.25]) if psf else None
    flux = c.real("flux", 1, 4)
    t = c.real("t", 0.5, 2)
    det = 0.7 if nd == 1 else (0.7, 2.0)
    with quiet():
        got, ang, ref, bg = testing.create_sino(x, 3, 10.0, 100.0, t, flux, det, att_in, att_out, psf=k)
    want_a = angles(3, 10.0, 100.0)
    c.close("angles", ang, want_a, tol=1e-6)
    sa = (2.4 / 64) ** 2
    if att is None:
        p = projectors.ProjectorUncorrected((n, n), want_a, psf=k, backend="skimage")
    else:
        p = projectors.ProjectorAttenuationXRF((n, n), want_a, att_in=att_in, att_out=att_out, angles_detectors_rad=det, psf=k, backend="skimage", verbose=False)
    with p:
        want = p(x)
    scale = 1000.0
    c.close("sino", got * scale, want * (flux * t * sa * scale), tol=1e-2)
    c.close("ref", ref * scale, x * (flux * t * sa * scale), tol=1e-3)
    c.close("bg", bg, 0.0, tol=1e-6)


@case("P29", params=[dict(psf=p, noisy=q) for p in (False, True) for q in (False, True)])
def transmission(c, psf, noisy):
    """Simulated transmission sinograms are photons times the exponential of minus the (blurred) projections, and the flat field is the photons, each with its own noise; any phantoms, flux and draws."""
    from corrct import projectors, testing

    n = 3
    x = c.array("x", (n, n), 0, 1)
    k = np.array([0.25, 0.5, 0.25]) if psf else None
    flux = c.real("flux", 1, 4)
    rng = Rng(c)
    ro = 0.5 if noisy else None
    with quiet(), patched(testing, np=Stand(random=rng)):
        got, flat, ang, ph = testing.create_sino_transmission(x, 2, 0, 180, 2.0, flux, k, add_poisson=noisy, readout_noise_std=ro)
    want_a = angles(2, 0.0, 180.0)
    c.close("angles", ang, want_a, tol=1e-6)
    c.close("phantom", ph, x, tol=0)
    p = projectors.ProjectorUncorrected((n, n), want_a, psf=k, backend="skimage")
    with p:
        want = np.exp(-p(x)) * (2 * flux)
    ones = np.ones(want.shape) * (2 * flux)
    if noisy:
        c.check("draws", len(rng.poissons) == 2 and len(rng.normals) == 2)
        (l1, k1), (l2, k2) = rng.poissons
        c.close("expected", l1, want, tol=1e-2)
        c.close("expected_flat", l2, ones, tol=1e-3)
        c.close("sino", got, k1 + 0.5 * rng.normals[0], tol=1e-4)
        c.close("flat", flat, k2 + 0.5 * rng.normals[1], tol=1e-4)
    else:
        c.close("sino", got, want, tol=1e-2)
        c.close("flat", flat, ones, tol=1e-3)


@case("P29")
def error_power(c):
    """The powers are the root mean squares of the reference and of the difference; any volumes."""
    from corrct import testing

    a, b = c.array("a", (2, 2), -2, 2), c.array("b", (2, 2), -2, 2)
    v, e = testing.compute_error_power(a, b)
    c.close("vol", v * v, sum((a * a).reshape(-1)) / 4, tol=1e-3)
    d = (a - b).reshape(-1)
    c.close("err", e * e, sum(d * d) / 4, tol=1e-3)
    c.check("sign", (v >= 0) & (e >= 0))
    u, w = c.intarray("u", (2,), 0, 20, dtype=np.dtype("uint8")), c.intarray("w", (2,), 0, 20, dtype=np.dtype("uint8"))
    v, e = testing.compute_error_power(u, w)
    c.close("counts", v * v, sum((u * 1.0) * (u * 1.0)) / 2, tol=1e-2)
    d = u * 1.0 - w * 1.0
    c.close("differences", e * e, sum(d * d) / 2, tol=1e-2)


@case("P29", params=[dict(p=p) for p in (0, 1, 3)])
def round_up(c, p):
    """The rounded number is the smallest multiple of the power of two that is not less than the number; any number."""
    from corrct import testing

    x = c.real("x", -9, 20)
    got = testing.roundup_to_pow2(x, p)
    q = got / 2**p
    k = c.integer("k", -16, 32)
    c.check("least", c.ite((k * 2**p >= x), k * 2**p >= got, True))
    c.check("above", got >= x)
    c.check("below", got < x + 2**p)
    c.check("multiple", q == np.ceil(x / 2**p))


@case("P29", params=[dict(multi=m, lines=s) for m, s in ((False, "str"), (True, "str"), (True, "list"))])
def concentration(c, multi, lines):
    """Each voxel of a phantom belongs to exactly one of air, oxides and carbonate by its value; yields and attenuation are those of that material at the emitted energies, in the order of the elements, the Compton yield coming last if a detector angle (also zero) is given; any phantom values and tables."""
    from corrct import physics, testing
    from corrct.physics import materials

    ph = c.array("ph", (2, 1), 0, 1)
    made = []

    class Vol:
        def __init__(self, fractions, names, size):
            self.f, self.names, self.size = fractions, names, size
            made.append(self)

        def get_attenuation(self, e):
            return ("att", e)

        def get_fluo_production(self, el, e, line):
            return ("energy", el, line), ("yield", el, e, line)

        def get_compton_scattering(self, e, angle_rad=None):
            return ("cenergy", angle_rad), ("compton", e, angle_rad)

    with quiet(), patched(physics, VolumeMaterial=Vol):
        if multi:
            ls = "KA" if lines == "str" else ["KA", "LA"]
            for det in (None, 0.0, 1.0):
                y, ain, aout = testing.phantom_assign_concentration_multi(ph, ("Fe", "Ca"), ls, 15.0, det)
                l2 = ["KA", "KA"] if lines == "str" else ls
                want = [("yield", "Fe", 15.0, l2[0]), ("yield", "Ca", 15.0, l2[1])]
                wo = [("att", ("energy", "Fe", l2[0])), ("att", ("energy", "Ca", l2[1]))]
                if det is not None:
                    want.append(("compton", 15.0, det))
                    wo.append(("att", ("cenergy", det)))
                c.check(f"yield_{det}", list(y) == want)
                c.check(f"out_{det}", list(aout) == wo)
                c.check(f"in_{det}", ain == ("att", 15.0))
        else:
            y, ain, aout = testing.phantom_assign_concentration(ph, "Fe", "LA", 15.0, 2.0)
            c.check("yield", y == ("yield", "Fe", 15.0, "LA"))
            c.check("out", aout == ("att", ("energy", "Fe", "LA")))
            c.check("in", ain == ("att", 15.0))
    v = made[0]
    c.close("voxel", v.size, 0.5e-4 if multi else 2e-4, tol=1e-9)
    lim = (("Air, Dry (near sea level)", 0.0, 0.1), ("Calcium Carbonate", 0.1, 0.25), ("Calcium Oxide", 0.25, 0.5), ("Ferric Oxide", 0.5, 1.1))
    c.check("names", sorted(v.names) == sorted(q[0] for q in lim))
    for ix in np.ndindex(2, 1):
        tot = 0
        for nm, lo, hi in lim:
            f = v.f[list(v.names).index(nm)][ix]
            c.check(f"{nm[:9]}_{ix[0]}", f == ((ph[ix] >= lo) & (ph[ix] < hi)))
            tot = tot + c.ite(f, 1, 0)
        c.check(f"one_{ix[0]}", tot == 1)
