"""P26: image denoising."""

import numpy as np

from harness.p16 import patched
from vf.ctx import case


def reference(c, img, w, psf, pw, it, reg, lo, mask=None, x0=None):
    from corrct import data_terms, operators, solvers

    op = operators.TransformIdentity(img.shape) if psf is None else operators.TransformConvolution(img.shape, psf)
    dt = data_terms.DataFidelity_l2() if pw is None else data_terms.DataFidelity_wl2(pw)
    s = solvers.PDHG(data_term=dt, data_term_test=dt, regularizer=reg(w), leave_progress=False)
    return s(op, img, it, x0=img if x0 is None else x0, lower_limit=lo, b_test_mask=mask)


def regs():
    from corrct import regularizers as rg

    return dict(tv=lambda w: rg.Regularizer_TV1D(w), l1=lambda w: rg.Regularizer_l1(w), l1haar=lambda w: rg.Regularizer_l1dwl(w, "haar", 1, axes=(-1,)))


PSF = np.array([0.25, 0.5, 0.25])


@case("P26", params=[dict(reg=r, psf=p, pw=w, lim=l, it=i) for r, p, w, l, i in (
    ("tv", False, False, False, 2), ("tv", False, True, True, 1), ("l1", True, False, True, 1), ("l1haar", False, True, False, 1), ("tv", False, False, True, 0), ("tv", False, True, False, 2))])
def single(c, reg, psf, pw, lim, it):
    """With one weight, the denoised image is the Chambolle-Pock solution of the (weighted) least squares of the (blurred) image with the regularization of that weight, started from the image and above the limit; a one-element list of weights does the same; image and weights are left alone; any image, weights, limit; up to 2 iterations."""
    from corrct import denoisers

    sh = (2, 2) if not psf else (1, 4)
    img = c.array("img", sh, -2, 2)
    w = c.real("w", 0.1, 1)
    pix = c.array("pix", sh, 0, 2) if pw else None
    lo = c.real("lo", -1, 1) if lim else None
    i0 = img.copy()
    R = regs()[reg]
    ps = PSF[None] if psf else None
    kw = dict(psf=ps, pix_weights=pix, iterations=it, regularizer=R, lower_limit=lo, verbose=False)
    got = denoisers.denoise_image(img, w, **kw)
    ref, _ = reference(c, i0, w, ps, pix, it, R, lo)
    c.shape("shape", got, sh)
    c.close("x", got, ref, tol=1e-4)
    c.close("input", img, i0, tol=0)
    if it == 1:
        c.close("list", denoisers.denoise_image(img, [w], **kw), got, tol=1e-4)
    if lim and it > 0:
        c.le("limit", lo, got, tol=1e-6)
    if pw:
        c.close("pix", pix, pix.copy(), tol=0)


@case("P26", params=[dict(pw=False)], thorough_params=[dict(pw=True)], budget=200)
def selection(c, pw):
    """With several weights, the weight is the fitted minimum of the cross-validation losses of those weights; the image is the solution of that weight without test mask; test pixels start from the median of their neighbourhood and are only used for the test; any image, medians, losses, masks."""
    from corrct import denoisers, param_tuning

    sh = (2, 2)
    img = c.array("img", sh, -2, 2)
    med = c.array("med", sh, -2, 2)
    other = c.array("other", sh, -2, 2)
    i0 = img.copy()
    pix = c.array("pix", sh, 0.5, 2) if pw else None
    R = regs()["tv"]
    losses = c.array("losses", (3,), 0.5, 2)
    best = c.real("best", 0.1, 1)
    weights = [0.1, 0.3, 1.0]
    rec = {}

    class CV:
        def __init__(self, data_shape, **k):
            rec["shape"] = tuple(data_shape)

        def compute_loss_values(self, values):
            rec["values"] = [float(v) for v in values]
            # what cross-validation does: a solver of a weight, run with a test mask
            mask = np.array([[1.0, 0], [0, 0]])
            s = self.task_init_function(0.3)
            rec["cv"] = self.task_exec_function(s, mask)
            rec["plain"] = self.task_exec_function(self.task_init_function(0.3), None)
            return losses, losses * 0, np.zeros((3, 1))

        def fit_loss_min(self, values, avgs):
            rec["fit"] = ([float(v) for v in values], avgs)
            return best, 0.0

    import scipy.signal as spsig

    def medfilt(x, kernel_size=None):
        rec["med"] = (x, kernel_size)
        return med

    with patched(param_tuning, CrossValidation=CV), patched(spsig, medfilt2d=medfilt):
        got, w = denoisers.denoise_image(img, weights, pix_weights=pix, iterations=1, regularizer=R, verbose=False)
    c.check("shape", rec["shape"] == sh and rec["values"] == weights and rec["fit"][0] == weights)
    c.close("losses", rec["fit"][1], losses, tol=0)
    c.close("best", w, best, tol=1e-6)
    ref, _ = reference(c, i0, best, None, pix, 1, R, None)
    c.close("x", got, ref, tol=1e-4)
    c.close("input", img, i0, tol=0)
    c.close("median", rec["med"][0], i0, tol=0)
    mask = np.array([[1.0, 0], [0, 0]])
    start = i0.copy()
    start[0, 0] = med[0, 0]
    # the value of the test pixel does not matter for the image
    data = i0.copy()
    data[0, 0] = other[0, 0]
    x, info = reference(c, data, 0.3, None, pix, 1, R, None, mask=mask, x0=start)
    c.close("cv_x", rec["cv"][0], x, tol=1e-4)
    xt, infot = reference(c, i0, 0.3, None, pix, 1, R, None, mask=mask, x0=start)
    c.close("cv_res", rec["cv"][1].residuals_cv, infot.residuals_cv, tol=1e-4)
    xp, _ = reference(c, i0, 0.3, None, pix, 1, R, None)
    c.close("plain", rec["plain"][0], xp, tol=1e-4)


@case("P26")
def default_regularizer(c):
    """By default the regularization is the l1 norm of the decimated bior4.4 wavelet decomposition of 3 levels with the given weight; any weight."""
    from corrct import denoisers, regularizers

    w = c.real("w", 0, 1)
    r = denoisers._default_regularizer_l1dwl(w)
    c.check("type", type(r) is regularizers.Regularizer_l1dwl and r.wavelet == "bior4.4" and r.level == 3)
    c.close("weight", r.weight, w, tol=0)


@case("P26", params=[dict(dtype=d) for d in ("int64", "uint16")])
def integer_images(c, dtype):
    """Images of integers (camera counts) are denoised as the numbers they are; any counts."""
    from corrct import denoisers

    n = c.intarray("n", (2, 2), 0, 9, dtype=np.dtype(dtype))
    kw = dict(iterations=2, regularizer=regs()["tv"], verbose=False)
    c.close("x", denoisers.denoise_image(n, 0.5, **kw), denoisers.denoise_image(n * 1.0, 0.5, **kw), tol=1e-4)
