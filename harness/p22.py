"""P22: noise models and least-squares weights."""

import numpy as np

from vf.ctx import case


@case("P22", params=[dict(ref=r, var=v, norm=n) for r, v, n in ((False, False, True), (True, False, False), (True, False, True), (True, True, True), (True, True, False))])
def poisson(c, ref, var, norm):
    """Poisson variances propagate to the ratio with the reference: (I/I0)^2 (var I / I^2 + var I0 / I0^2), times the mean reference when normalised; without reference they are the counts; inputs are left alone; any counts."""
    from corrct.processing import noise

    I = c.array("I", (2,), 0.1, 4)
    R = c.array("R", (2,), 0.5, 4) if ref else None
    V = c.array("V", (2,), 0, 4) if var else None
    I0 = I.copy()
    got = noise.compute_variance_poisson(I, R, V, normalized=norm)
    c.shape("shape", got, (2,))
    if not ref:
        c.close("counts", got, I, tol=1e-6)
        c.close("neg", noise.compute_variance_poisson(-I), I, tol=1e-6)
    else:
        v = R if V is None else V
        m = (R[0] + R[1]) / 2 if norm else 1.0
        for i in range(2):
            # multiplied out: var * R^4 = (I R^2 + I^2 v) m
            r2 = R[i] * R[i]
            c.close(f"var_{i}", got[i] * r2 * r2, (I[i] * r2 + I[i] * I[i] * v[i]) * m, tol=1e-2)
    c.close("I", I, I0, tol=0)
    z = noise.compute_variance_poisson(np.zeros(2), R, V, normalized=norm)
    c.finite("finite", z)


@case("P22", params=[dict(var=v, norm=n) for v in (False, True) for n in (False, True)])
def transmission(c, var, norm):
    """Variances of transmissions are (I/I0) (var I / I^2 + var I0 / I0^2), times the mean reference when normalised: positive and finite even without counts; any counts."""
    from corrct.processing import noise

    I, R = c.array("I", (2,), 0.2, 4), c.array("R", (2,), 0.5, 4)
    V = c.array("V", (2,), 0, 4) if var else None
    got = noise.compute_variance_transmission(I, R, V, normalized=norm)
    v = R if V is None else V
    m = (R[0] + R[1]) / 2 if norm else 1.0
    for i in range(2):
        r2 = R[i] * R[i]
        c.close(f"var_{i}", got[i] * r2 * R[i], (r2 + I[i] * v[i]) * m, tol=1e-2)
        c.le(f"pos_{i}", 0.0, got[i])
    c.finite("finite", noise.compute_variance_transmission(np.zeros(2), R, V, normalized=norm))


@case("P22", params=[dict(norm=n, std=s, log=l, mask=m) for n, s, l, m in (
    (False, False, False, None), (True, False, False, None), (True, True, False, None), (False, True, False, "bool"), (True, False, True, None), (False, False, True, None),
    (True, True, True, "bool"), (True, False, False, "float"), (False, False, False, "bool"))])
def weights(c, norm, std, log, mask):
    """Weights are positive and decrease with the variance, are the inverse of the (logarithm of the) variance or deviation of the larger variances, at most one and reaching it when normalised, and zero outside of the mask, whose masked variances have no influence; any variances and masks."""
    from corrct.processing import noise

    n = 3
    v, w = c.array("v", (n,), 0.05, 4), c.real("w", 0.05, 4)
    v0 = v.copy()
    m, mk = None, [True] * n
    if mask:
        mk = [bool(c.concretize(c.integer(f"m{i}", 0, 1))) for i in range(n)]
        c.assume(any(mk))
        m = np.array(mk) if mask == "bool" else np.array(mk).astype(np.float32)
    kw = dict(normalized=norm, use_std=std, semilog=log)
    got = noise.compute_variance_weight(v, mask=m, **kw)
    c.shape("shape", got, (n,))
    c.close("input", v, v0, tol=0)
    on = [i for i in range(n) if mk[i]]
    mn = v[on[0]]
    for i in on[1:]:
        mn = c.ite(v[i] < mn, v[i], mn)
    for i in range(n):
        if not mk[i]:
            c.close(f"off_{i}", got[i], 0.0, tol=1e-9)
            continue
        c.check(f"pos_{i}", got[i] > 0)
        for j in on:
            c.check(f"order_{i}_{j}", ~(v[i] <= v[j]) | (got[i] >= got[j] - 1e-6))
        if norm:
            c.le(f"max_{i}", got[i], 1.0, tol=1e-5)
            c.check(f"one_{i}", ~(v[i] <= mn) | (abs(got[i] - 1) < 1e-4))
        if not log:
            # weight * weighed variance = 1 for variances above the smallest
            if std:
                c.close(f"inv_{i}", got[i] * got[i] * v[i], mn if norm else 1.0, tol=1e-3)
            else:
                c.close(f"inv_{i}", got[i] * v[i], mn if norm else 1.0, tol=1e-3)
        elif not norm and not std:
            c.close(f"log_{i}", got[i] * (c.log(v[i] + 1.0) + 1), 1.0, tol=1e-3)
    if mask and not all(mk):
        k = mk.index(False)
        y = v.copy()
        y[k] = w
        c.close("masked", noise.compute_variance_weight(y, mask=m, **kw), got, tol=1e-5)


@case("P22")
def percentile(c):
    """Variances below the given percentile all weigh as the first one above it; negative variances count by their absolute value, zero variances weigh as the smallest positive one."""
    from corrct.processing import noise

    a, p = c.real("a", 0.1, 1), c.real("p", 0.01, 0.6)
    v = np.stack([a, 2 * a, 3 * a, 4 * a])  # cumulated: .1 .3 .6 1
    got = noise.compute_variance_weight(v, percentile=p)
    k = c.ite(p <= 0.1, 1.0, c.ite(p <= 0.3, 2.0, 3.0))
    near = (abs(p - 0.1) < 1e-4) | (abs(p - 0.3) < 1e-4) | (abs(p - 0.6) < 1e-4)
    for i in range(4):
        c.check(f"w_{i}", near | (abs(got[i] * a * c.ite(k > i + 1.0, k, i + 1.0) - 1) < 1e-4))
    c.close("neg", noise.compute_variance_weight(-v, percentile=p), got, tol=1e-6)
    z = noise.compute_variance_weight(np.stack([a * 0, a, 2 * a]), percentile=0.0)
    c.close("zero", z * a, np.array([1.0, 1.0, 0.5]), tol=1e-4)


@case("P22", params=[dict(p=p, kw=k) for p in (0.0, 0.001, 0.3) for k in ("plain", "normalized", "std", "semilog")])
def outside_mask(c, p, kw):
    """Whatever the variances outside of the mask, the weights inside are those of the pixels inside alone, also with vanishing variances among them."""
    from corrct.processing import noise

    v = c.array("v", (2,), 0.1, 4)
    out = c.array("out", (2,), -4, 4)
    opt = {} if kw == "plain" else dict(normalized=True) if kw == "normalized" else dict(use_std=True) if kw == "std" else dict(semilog=True)
    m = np.array([1.0, 0.0, 1.0, 1.0, 0.0])
    got = noise.compute_variance_weight(np.stack([v[0], out[0], 0 * v[0], v[1], out[1]]), mask=m, percentile=p, **opt)
    want = noise.compute_variance_weight(np.stack([v[0], 0 * v[0], v[1]]), percentile=p, **opt)
    c.close("inside", got[[0, 2, 3]], want, tol=1e-4)
    c.close("outside", got[[1, 4]], np.zeros(2), tol=0)


@case("P22", params=[dict(trans=t, var=v) for t in (False, True) for v in (False, True)])
def image_normalisation(c, trans, var):
    """Images are normalised by the mean of the whole reference image, also when stacks share one reference: the variance of each pixel only changes by that factor; any counts."""
    from corrct.processing import noise

    I = c.array("I", (2, 2, 2), 0.2, 4)
    R = np.array([[1.0, 2.0], [3.5, 0.5]])
    V = c.array("V", (2, 2), 0.1, 4) if var else None
    fn = noise.compute_variance_transmission if trans else noise.compute_variance_poisson
    a, b = fn(I, R, V, normalized=True), fn(I, R, V, normalized=False)
    c.shape("shape", a, (2, 2, 2))
    c.close("mean", a, b * 1.75, tol=1e-3)
