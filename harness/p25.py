"""P25: filtered back-projection filters."""

import numpy as np

from harness import solverlib as L
from harness.p16 import patched
from vf.ctx import case

N = 64  # smallest padded size


def even(n, a, k, half):
    """Real-space samples of a circular symmetric filter as its Fourier response."""
    m = n // 2 + 1 if half else n
    out = np.zeros((m,)) * a[0] + a[0]
    f = np.arange(m)
    for t in range(1, len(a)):
        out = out + a[t] * (2 * np.cos(2 * np.pi * f * k[t] / n))
    return out


@case("P25", params=[dict(mode=m, half=h, shape=s) for m, h, s in (("constant", True, (1, 2)), ("constant", False, (1, 3)), ("edge", True, (1, 2)), ("edge", False, (1, 3)), ("constant", True, (2, 1, 2)), ("constant", True, (1, 33)))])
def convolution(c, mode, half, shape):
    """Applying a custom filter is the linear convolution of each row with the real-space filter, rows extended as requested and without wrap-around, keeping shape and inputs; any data and filter taps (33 pixels: the first and last only)."""
    from corrct import filters

    n = shape[-1]
    pad = N if n <= 32 else 128
    if n > 3:
        x = np.zeros(shape) * c.real("z", 0, 1)
        x[0, 0], x[0, -1] = c.real("x0", -2, 2), c.real("x1", -2, 2)
    else:
        x = c.array("x", shape, -2, 2)
    x0 = x.copy()
    a, k = [c.real(f"a{i}", -1, 1) for i in range(3)], (0, 1, n - 1 if n > 3 else 31 if mode == "constant" else 5)
    fl = filters.FilterCustom(even(pad, a, k, half), pad_mode=mode.upper(), use_rfft=half, dtype=np.float64)
    c.check("padding", fl.get_padding_size(shape) == pad)
    got = fl(x)
    c.shape("shape", got, shape)
    c.close("input", x, x0, tol=0)
    for pre in np.ndindex(*shape[:-1]):
        row = x[pre]
        for i in range(n) if n <= 3 else (0, 1, n - 1):
            want = 0.0
            for t, kk in zip(a, k):
                for j in {i - kk, i + kk}:
                    if 0 <= j < n:
                        want = want + t * row[j]
                    elif mode == "edge":
                        want = want + t * row[0 if j < 0 else n - 1]
            c.close(f"val_{pre}_{i}", got[(*pre, i)], want, tol=1e-3)


@case("P25", params=[dict(half=h) for h in (True, False)])
def stacks(c, half):
    """A stack of filters gives the stack of what each of them gives, in order, also when passed explicitly; any data and taps."""
    from corrct import filters

    x = c.array("x", (2, 2), -2, 2)
    a = c.array("a", (2, 2), -1, 1)
    f = [even(N, [a[i, 0], a[i, 1]], (0, 1 + i), half) for i in range(2)]
    st = filters.FilterCustom(np.stack(f), use_rfft=half, dtype=np.float64)
    c.check("num", st.num_filters == 2)
    got = st(x)
    c.shape("shape", got, (2, 2, 2))
    for i in range(2):
        one = filters.FilterCustom(f[i], use_rfft=half, dtype=np.float64)
        c.check(f"num_{i}", one.num_filters == 1)
        w = one(x)
        c.close(f"one_{i}", got[i], w, tol=1e-4)
        c.close(f"explicit_{i}", st.apply_filter(x, f[i]), w, tol=1e-4)


@case("P25", params=[dict(half=h) for h in (True, False)])
def representations(c, half):
    """The real-space and Fourier representations describe the same filter: setting one to what it returns keeps the filter, the real-space filter is centred, and copies protect the filter; any taps."""
    from corrct import filters

    a = [c.real(f"a{i}", -1, 1) for i in range(3)]
    f = even(N, a, (0, 1, 5), half)
    fl = filters.FilterCustom(f, use_rfft=half, dtype=np.float64)
    r = fl.filter_real
    c.shape("real", r, (N,))
    for i in range(N):
        d = abs(i - N // 2)
        c.close(f"tap_{i}", r[i], a[0] if d == 0 else a[1] if d == 1 else a[2] if d == 5 else 0.0, tol=1e-3)
    g = fl.filter_fourier
    g *= 0.0
    c.close("copy", fl.filter_fourier, f, tol=1e-6)
    fl.filter_real = r
    c.close("roundtrip", fl.filter_real, r, tol=1e-3)
    c.close("fourier", np.real(fl.filter_fourier), f, tol=1e-3)
    h = even(N, a[::-1], (0, 1, 5), half)
    fl.filter_fourier = h
    h0 = h.copy()
    h *= 0.0
    c.close("set", fl.filter_fourier, h0, tol=1e-6)


def window(name, n):
    k = np.fft.fftfreq(n)
    if name == "ramp":
        return np.ones(n)
    if name == "shepp-logan":
        return np.sinc(k)
    if name == "cosine":
        return np.cos(np.pi * k)
    w = np.hamming(n) if name == "hamming" else np.hanning(n)
    return np.fft.fftshift(w)


@case("P25", params=[dict(name=f, shape=s, half=h) for f, s, h in (("ramp", (2, 3), True), ("ramp", (3, 2), False), ("Shepp-Logan", (2, 2), True), ("cosine", (2, 2), False), ("hann", (2, 2), True), ("HAMMING", (2, 2), True), ("ramp", (1, 2, 2), True))])
def analytic(c, name, shape, half):
    """Analytic filters convolve each row with the band-limited ramp times its window, times pi / (2 * number of angles); unknown ones are refused; any data."""
    from corrct import filters

    x = c.array("x", shape, -2, 2)
    fl = filters.FilterFBP(name, use_rfft=half)
    c.check("available", name.lower() in fl.get_available_filters())
    got = fl(x)
    c.shape("shape", got, shape)
    n = np.arange(N)
    d = np.minimum(n, N - n)
    h = np.where(d == 0, 0.25, np.where(d % 2 == 1, -1.0 / (np.pi * np.maximum(d, 1)) ** 2, 0.0))
    f = 2 * np.fft.fft(h).real * window(name.lower(), N) * np.pi / (2 * shape[-2])
    if half:
        ker = np.fft.irfft(f[: N // 2 + 1], n=N)
    else:
        ker = np.fft.ifft(f).real
    for pre in np.ndindex(*shape[:-1]):
        for i in range(shape[-1]):
            c.close(f"val_{pre}_{i}", got[(*pre, i)], sum(float(ker[(i - j) % N]) * x[(*pre, j)] for j in range(shape[-1])), tol=1e-3)
    c.raises("unknown", ValueError, lambda: filters.FilterFBP("other"))


class Lstsq:
    """numpy whose least squares record their system and return any solution."""

    def __init__(self, c):
        self.c, self.calls = c, []
        self.linalg = self

    def lstsq(self, A, b, rcond=None):
        A, b = np.array(A), np.array(b)
        k = len(self.calls)
        self.calls.append((A, b))
        self.sol = self.c.array(f"sol_{k}", (A.shape[1],), -1, 1)
        return self.sol, None, None, None

    def norm(self, *a, **k):
        return np.linalg.norm(*a, **k)

    def __getattr__(self, k):
        return getattr(np, k)


@case("P25", params=[dict(smooth=s, kind=k, reuse=r) for s, k, r in ((False, "exponential", False), (True, "incremental", False), (False, "exponential", True))], budget=300)
def data_driven(c, smooth, kind, reuse):
    """The data-driven filter is the combination of basis filters whose back-projection's projection (with weighted gradients when smooth) best fits the data: the fitted system is the projection of each basis reconstruction inside the circle, the right-hand side the data, and the filter the combination of the basis with the solution, also after data of other sizes; any data, solutions, weights."""
    from corrct import filters

    n = 3
    M = np.array([[1.0, 0, 0, 1, 0, 0, 1, 0, 0], [0, 1.0, 0, 0, 1, 0, 0, 1, 0], [0, 0, 1.0, 0, 0, 1, 0, 0, 1]])
    A = L.op(M, vs=(n, n), ps=(1, n))
    lam = c.real("lam", 0.1, 1) if smooth else None
    fl = filters.FilterMR(A, binning_type=kind, lambda_smooth=lam, dtype=np.float64)
    st = Lstsq(c)
    b = c.array("b", (1, n), -2, 2)
    with patched(filters, np=st):
        if reuse:
            fl.initialize((1, 40))
        fl.compute_filter(b)
    S, r = st.calls[0]
    nb = S.shape[1]
    c.shape("rhs", r, (S.shape[0],))
    c.close("data", r[:n], b[0], tol=1e-6)
    c.close("zeros", r[n:], 0.0, tol=0)
    c.check("rows", S.shape[0] == n + (2 * n * (n - 1) if smooth else 0))
    basis = filters.create_basis(N, binning_type=kind, binning_start=2, dtype=np.float64)
    c.check("cols", nb == basis.shape[0])
    from corrct.processing import circular_mask

    mask = np.array(circular_mask([n, n]), dtype=float)
    for k in range(nb) if not smooth else (0, nb - 1):
        row = np.stack([sum(float(basis[k][(i - j) % N]) * b[0, j] for j in range(n)) for i in range(n)])
        img = np.stack([row, row, row]) * mask
        c.close(f"col_{k}", S[:n, k], img.sum(axis=0), tol=1e-3)
        if smooth:
            c.close(f"dx_{k}", S[n : n + 6, k], (lam * (img[1:] - img[:-1])).ravel(), tol=1e-3)
            c.close(f"dy_{k}", S[n + 6 :, k], (lam * (img[:, 1:] - img[:, :-1])).ravel(), tol=1e-3)
    ff = fl.filter_fourier
    c.shape("filter", ff, (N // 2 + 1,))
    bf = np.fft.rfft(basis, axis=-1).real
    want = st.sol
    for q in (0, 1, N // 2):
        c.close(f"filter_{q}", ff[q], sum(want[k] * float(bf[k][q]) for k in range(nb)), tol=1e-3)


@case("P25", params=[dict(order=o, kind=k, start=s) for o in (0, 1) for k, s in (("exponential", 2), ("incremental", 2), ("custom", 1))])
def basis(c, order, kind, start):
    """Basis filters are symmetric; of order 0 they add up to one at every position, of order 1 they are orthogonal: combinations with any weights are symmetric, and combinations of distinct ones have the energy of their parts; any weights."""
    from corrct import filters

    n = 32
    B = filters.create_basis(n, binning_start=start, binning_type=kind, order=order, dtype=np.float64)
    w = c.array("w", (B.shape[0],), -1, 1)
    comb = sum(w[k] * B[k] for k in range(B.shape[0]))
    for i in range(1, n // 2):
        c.close(f"sym_{i}", comb[i], comb[n - i], tol=1e-5)
    if order == 0:
        c.close("one", sum(w[0] * B[k] for k in range(B.shape[0])) * np.ones(n), np.ones(n) * w[0], tol=1e-6)
    else:
        e = sum(comb[i] * comb[i] for i in range(n))
        c.close("energy", e, sum(w[k] * w[k] * float(B[k] @ B[k]) for k in range(B.shape[0])), tol=1e-3)
    c.raises("kind", ValueError, lambda: filters.create_basis(n, binning_type="other"))
    c.raises("kind_mr", ValueError, lambda: filters.FilterMR(None, binning_type="other"))


@case("P25", params=[dict(flt=f, mask=m, pad=p) for f, m, p in (("ramp", False, "constant"), ("hann", True, "edge"), ("array", True, "constant"), ("object", True, "constant"))])
def solver(c, flt, mask, pad):
    """The FBP solver back-projects the filtered data (with masked data having no influence), with named filters, arrays and filter objects, and leaves the data alone; any data, masks."""
    from corrct import filters

    M = L.matrix("three")[:, :2]
    A = L.op(np.concatenate((M, M[::-1] * 0.5)), ps=(2, 3))
    b = c.array("b", (2, 3), -2, 2)
    b0 = b.copy()
    bm = c.boolarray("bm", (2, 3)).astype(np.float64) if mask else None
    if flt == "array":
        f = even(N, [1.0, 0.5], (0, 1), True)
        ref = filters.FilterCustom(f, pad_mode=pad)
        arg = f
    elif flt == "object":
        arg, ref = filters.FilterFBP("cosine", pad_mode=pad), filters.FilterFBP("cosine", pad_mode=pad)
    else:
        arg, ref = flt, filters.FilterFBP(flt, pad_mode=pad)
    got, info = L.solver("FBP", fbp_filter=arg, pad_mode=pad)(A, b, b_mask=bm)
    c.close("x", got, A.T(ref(b * bm if mask else b)), tol=1e-3)
    c.close("input", b, b0, tol=0)
    c.check("info", info.method.startswith("FBP"))
    c.raises("dims", ValueError, lambda: L.solver("FBP")(A, b[0]))


@case("P25", params=[dict(order=o, kind=k) for o in (0, 1) for k in ("exponential", "incremental")])
def basis_normalized(c, order, kind):
    """Normalised basis filters are the unnormalised ones over the width of their bin (order 0), or over their absolute sum (order 1); combinations of any weights."""
    from corrct import filters

    n = 32
    B = filters.create_basis(n, binning_start=2, binning_type=kind, order=order, dtype=np.float64)
    N_ = filters.create_basis(n, binning_start=2, binning_type=kind, order=order, normalized=True, dtype=np.float64)
    U = filters.create_basis(n, binning_start=2, binning_type=kind, order=order, normalized=False, dtype=np.float64)
    w = c.array("w", (U.shape[0],), -1, 1)
    size = np.abs(U).sum(axis=-1)
    if order == 0:
        # bins lie on both sides of the centre, except the centre; the last one ends at the most distant pixel
        size = np.array([1.0] + [float(np.ceil(s / 2)) for s in size[1:]])
    comb = lambda V, q: sum(w[k] * V[k] * q[k] for k in range(len(V)))  # noqa: E731
    k = len(size) - 1 if order == 0 else len(size)
    c.close("scaled", comb(N_[:k], size), comb(U[:k], np.ones(k)), tol=1e-4)
    c.close("default", comb(B, np.ones(len(B))), comb(U, np.ones(len(B))), tol=1e-6)


@case("P25", params=[dict(n=n, wl=w, lv=l) for n, w, l in ((16, "bior2.2", 2), (17, "bior2.2", 3), (32, "haar", 3), (32, "bior2.2", 2))])
def basis_wavelet(c, n, wl, lv):
    """Wavelet basis filters: one for each level and one for the rest, of absolute sum one; the two finest ones remove constant signals, the last one keeps their sign; any signals."""
    from corrct import filters

    B = filters.create_basis_wavelet(n, wl, lv)
    c.shape("shape", B, (lv + 1, n))
    x = c.real("x", -2, 2)
    for k in range(2 if wl != "haar" else lv):
        c.close(f"zero_{k}", (B[k] * x).sum(), 0.0, tol=1e-4)
    for k in range(lv + 1):
        c.close(f"norm_{k}", float(np.abs(B[k]).sum()) * x, x, tol=1e-4)
    c.le("keeps", 0.25 * x * x, (B[-1] * x).sum() * x, tol=1e-4)
    if wl != "haar":
        # the filters are centred on the first pixel (of the periodic signal)
        y = c.array("y", (n,), -1, 1)
        r = np.roll(y[::-1], 1)
        for k in range(lv):
            c.close(f"even_{k}", (B[k] * y).sum(), (B[k] * r).sum(), tol=1e-2)


@case("P25", params=[dict(name=f) for f in ("mr", "data")])
def solver_data_driven(c, name):
    """The FBP solver with a data-driven filter (by name) is that with the filter object of its projector; the limits and masks are applied; any data and solutions of the fit."""
    from corrct import filters

    n = 3
    M = np.array([[1.0, 0, 0, 1, 0, 0, 1, 0, 0], [0, 1.0, 0, 0, 1, 0, 0, 1, 0], [0, 0, 1.0, 0, 0, 1, 0, 0, 1]])
    A = L.op(M, vs=(n, n), ps=(1, n))
    b = c.array("b", (1, n), -2, 2)
    st = Lstsq(c)
    with patched(filters, np=st):
        x, info = L.solver("FBP", fbp_filter=name)(A, b)
    fl = filters.FilterMR(A)
    fl.initialize((1, n))
    f = sum(st.sol[k] * fl.basis_f[k] for k in range(fl.basis_f.shape[0]))
    want = A.T(filters.FilterCustom(f)(b))
    c.close("x", x, want, tol=1e-3)
    c.check("info", info.method.startswith("FBP"))


@case("P25", params=[dict(nf=k, half=h) for k, h in ((1, True), (2, True), (2, False))])
def kept_filter(c, nf, half):
    """Without a filter to apply, data are filtered with the filter of the object, be it one or more; any data."""
    from corrct import filters

    f = np.stack([even(N, v, (0, 1), half) for v in ([1.0, 0.5], [0.25, -0.5])[:nf]])
    fl = filters.FilterCustom(f if nf > 1 else f[0], use_rfft=half)
    x = c.array("x", (2, 3), -2, 2)
    c.close("same", fl.apply_filter(x), fl.apply_filter(x, f if nf > 1 else f[0]), tol=1e-5)
    c.close("call", fl(x), fl.apply_filter(x, f if nf > 1 else f[0]), tol=1e-5)
    c.check("number", fl.num_filters == nf)
