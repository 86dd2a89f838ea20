"""Library boundary: array creation, linear third-party kernels, contracts."""

from __future__ import annotations

import builtins
import functools
import math
import numbers
import sys

import numpy as np

import z3

from . import arr as A
from . import core as C
from .arr import SymArray, raw, wrap, to_obj, any_sym, all_conc, concrete, conc_tree
from .core import Cx, Sym, SymBool, Unsupported

# modules in which numpy creation functions keep symbolic values
ACTIVE = ("corrct", "harness", "scipy.sparse.linalg._interface")
NPFN: dict = {}
LIN_CALLS: set = set()
_lin_cache: dict = {}


# -- linear third-party kernels ----------------------------------------------
def _flatten(o, out, spec):
    """pytree of native arrays -> list of arrays + rebuild function."""
    if isinstance(o, np.ndarray) or np.isscalar(o):
        a = np.asarray(o)
        out.append(a)
        i = len(out) - 1
        return lambda xs: xs[i]
    if isinstance(o, dict):
        ks = {k: _flatten(v, out, spec) for k, v in o.items()}
        return lambda xs: {k: f(xs) for k, f in ks.items()}
    if isinstance(o, tuple):
        fs = [_flatten(v, out, spec) for v in o]
        return lambda xs: tuple(f(xs) for f in fs)
    if isinstance(o, list):
        fs = [_flatten(v, out, spec) for v in o]
        return lambda xs: [f(xs) for f in fs]
    if o is None:
        return lambda xs: None
    raise Unsupported(f"linear kernel output {type(o)}")


def linear(f, *args, tag=None, dtype=np.float64):
    """Apply a third-party function that is linear in its (array) arguments.

    The matrix is read off the real function on basis vectors, at every run.
    args may be SymArrays or nested containers of them.
    """
    leaves: list = []
    builds = [_flatten_sym(a, leaves) for a in args]
    arrs = [to_obj(l) for l in leaves]
    cplx_in = builtins.any(isinstance(v, (Cx, complex)) for a in arrs for v in a.flat)
    sizes = [a.size for a in arrs]
    n = builtins.sum(sizes)
    vals = [v for a in arrs for v in a.flat]

    def native(vec):
        xs, p = [], 0
        for a in arrs:
            xs.append(vec[p : p + a.size].reshape(a.shape))
            p += a.size
        return f(*[b(xs) for b in builds])

    dt = complex if cplx_in else dtype
    base = native(np.zeros(n, dtype=dt))
    outs0: list = []
    rebuild = _flatten(base, outs0, None)
    cols, icols = [], []
    half = cplx_in and builtins.any(b.dtype.kind != "c" for b in outs0)  # real-linear only (e.g. irfft)
    for j in range(n):
        if C.is_conc(vals[j]) and vals[j] == 0:
            cols.append(None)
            icols.append(None)
            continue
        e = np.zeros(n, dtype=dt)
        e[j] = 1
        o: list = []
        _flatten(native(e), o, None)
        cols.append([np.asarray(x) - np.asarray(b) for x, b in zip(o, outs0)])
        if half:
            e[j] = 1j
            o = []
            _flatten(native(e), o, None)
            icols.append([np.asarray(x) - np.asarray(b) for x, b in zip(o, outs0)])
    res = []
    LIN_CALLS.add(tag or getattr(f, "__name__", "linear"))
    for k, b0 in enumerate(outs0):
        shp = b0.shape
        ocplx = b0.dtype.kind == "c"
        out = np.empty(shp, dtype=object)
        flat = out.reshape(-1) if out.ndim else out
        bflat = b0.reshape(-1)
        cm = [None if c is None else c[k].reshape(-1) for c in cols]
        im = [None if c is None else c[k].reshape(-1) for c in icols] if half else None
        for i in range(bflat.size):
            terms_re, terms_im = [], []
            cst = bflat[i]
            for j in range(n):
                if cm[j] is None:
                    continue
                w = cm[j][i]
                v = vals[j]
                if cplx_in and not ocplx:
                    v2 = Cx.of(v)
                    if abs(w) >= 1e-13:
                        terms_re.append(C.mul(v2.re, float(w)))
                    if abs(im[j][i]) >= 1e-13:
                        terms_re.append(C.mul(v2.im, float(im[j][i])))
                    continue
                if abs(w) < 1e-13:
                    continue
                if ocplx or cplx_in:
                    v2 = Cx.of(v)
                    wr, wi = float(np.real(w)), float(np.imag(w))
                    wr = 0.0 if abs(wr) < 1e-13 else wr
                    wi = 0.0 if abs(wi) < 1e-13 else wi
                    terms_re += [C.mul(v2.re, wr), C.mul(v2.im, -wi)]
                    terms_im += [C.mul(v2.re, wi), C.mul(v2.im, wr)]
                else:
                    terms_re.append(C.mul(v, float(w)))
            re = A._sum(terms_re + [float(np.real(cst))]) if terms_re else float(np.real(cst))
            if ocplx:
                val = Cx(re, A._sum(terms_im + [float(np.imag(cst))]) if terms_im else float(np.imag(cst)))
            else:
                val = re
            if out.ndim:
                flat[i] = val
            else:
                out[()] = val
        res.append(wrap(out, complex if ocplx else np.float64) if out.ndim else out[()])
    return rebuild(res)


def _flatten_sym(o, leaves):
    if isinstance(o, (SymArray, Sym)) or (isinstance(o, np.ndarray)):
        leaves.append(o)
        i = len(leaves) - 1
        return lambda xs: xs[i]
    if isinstance(o, dict):
        ks = {k: _flatten_sym(v, leaves) for k, v in o.items()}
        return lambda xs: {k: g(xs) for k, g in ks.items()}
    if isinstance(o, tuple):
        gs = [_flatten_sym(v, leaves) for v in o]
        return lambda xs: tuple(g(xs) for g in gs)
    if isinstance(o, list):
        gs = [_flatten_sym(v, leaves) for v in o]
        return lambda xs: [g(xs) for g in gs]
    return lambda xs: o


# -- FFT through numpy dispatch ----------------------------------------------
for _n in ("fft", "ifft", "rfft", "irfft", "hfft", "ihfft", "fft2", "ifft2", "rfft2", "irfft2", "fftn", "ifftn", "rfftn", "irfftn"):

    def _mk(n):
        def g(a, *args, **kw):
            kw.pop("out", None)
            fn = getattr(np.fft, n)
            args2, kw2 = conc_tree(args), conc_tree(kw)
            return linear(lambda x: fn(x, *args2, **kw2), a, tag="np.fft." + n)

        return g

    NPFN["fft." + _n] = _mk(_n)


def svd_contract(a, full_matrices, compute_uv):
    """Arbitrary U, s, Vt obeying the SVD contract (only small sizes)."""
    E = C.eng()
    ao = to_obj(a)
    if ao.ndim > 2:
        us, ss, vs = [], [], []
        lead = ao.shape[:-2]
        fl = ao.reshape((-1,) + ao.shape[-2:])
        for k in range(fl.shape[0]):
            u, s, v = svd_contract(wrap(fl[k]), full_matrices, True)
            us.append(raw(u)), ss.append(raw(s)), vs.append(raw(v))
        mk = lambda xs: wrap(np.array(xs, dtype=object).reshape(lead + xs[0].shape), np.float64)
        if not compute_uv:
            return mk(ss)
        return mk(us), mk(ss), mk(vs)
    m, n = ao.shape
    k = min(m, n)
    if full_matrices and m != n:
        raise Unsupported("full SVD")

    def var(nm, *shape):
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = Sym(E.fresh(nm))
        return o

    U, s, V = var("svdU", m, k), var("svdS", k), var("svdV", k, n)
    for i in range(k):
        E.axiom(s[i].e >= 0)
        if i:
            E.axiom(s[i - 1].e >= s[i].e)
    for i in range(k):
        for j in range(i, k):
            d = 1 if i == j else 0
            E.axiom(C.lift(A._dot(U[:, i], U[:, j]))[0] == d)
            E.axiom(C.lift(A._dot(V[i], V[j]))[0] == d)
    for i in range(m):
        for j in range(n):
            t = A._sum([C.mul(C.mul(U[i, q], s[q]), V[q, j]) for q in range(k)])
            E.axiom(t.e == C.lift(ao[i, j])[0])
    if not compute_uv:
        return wrap(s, np.float64)
    return wrap(U, np.float64), wrap(s, np.float64), wrap(V, np.float64)


# -- creation functions as seen by the code under test -------------------------
def _in_scope(depth=2) -> bool:
    if C.ENG is None:
        return False
    n = sys._getframe(depth).f_globals.get("__name__", "")
    return n.startswith(ACTIVE)


_orig: dict = {}


class SymFloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, float) or isinstance(o, Sym)

    def __call__(cls, x=0.0):
        if isinstance(x, (Sym,)):
            return x
        if isinstance(x, SymBool):
            return x.num()
        if isinstance(x, SymArray):
            if x.ndim > 0:
                raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
            return x._scalar()
        return float(x)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class SymFloat(metaclass=SymFloatMeta):
    """Stands for the builtin ``float`` in the modules under test."""

    _is_symfloat = True
    dtype = np.dtype(np.float64)
    fromhex = float.fromhex


def _dt(dtype):
    if dtype is None:
        return None
    if dtype is SymFloat:
        return np.dtype(np.float64)
    return np.dtype(dtype)


def _floaty(dt):
    return dt is None or dt.kind in "fc"


def _patch(name):
    def deco(f):
        o = getattr(np, name)
        _orig[name] = o

        @functools.wraps(o)
        def g(*a, **k):
            if C.ENG is None:
                return o(*a, **k)
            nm = sys._getframe(1).f_globals.get("__name__", "")
            if not nm.startswith(ACTIVE):
                return o(*a, **k)
            if "dtype" in k and k["dtype"] is SymFloat:
                k["dtype"] = np.float64
            a = tuple(np.float64 if x is SymFloat else x for x in a)
            return f(o, *a, **k)

        setattr(np, name, g)
        return f

    return deco


def _int_shape(shape):
    if isinstance(shape, (Sym, SymArray)):
        return tuple(np.atleast_1d(A._force_index(shape if isinstance(shape, SymArray) else A.asym([shape]))))
    if isinstance(shape, (list, tuple)):
        return tuple(int(s) for s in shape)
    return shape


def install():
    """Patch numpy creation functions and third-party kernels (idempotent)."""
    if _orig:
        return
    _install_linop()
    _install_random()

    @_patch("zeros")
    def _zeros(o, shape, dtype=float, order="C", **k):
        d = _dt(dtype)
        return A.mk(_int_shape(shape), 0.0, d) if _floaty(d) else o(_int_shape(shape), dtype=dtype)

    @_patch("empty")
    def _empty(o, shape, dtype=float, order="C", **k):
        d = _dt(dtype)
        if not _floaty(d):
            return o(_int_shape(shape), dtype=dtype)
        r = A.mk(_int_shape(shape), 0.0, d)
        # uninitialised memory: arbitrary contents
        ro = raw(r)
        for ix in np.ndindex(*ro.shape):
            ro[ix] = Sym(C.eng().fresh("uninit"))
        return r

    @_patch("ones")
    def _ones(o, shape, dtype=None, order="C", **k):
        d = _dt(dtype)
        return A.mk(_int_shape(shape), 1.0, d or np.float64) if _floaty(d) else o(_int_shape(shape), dtype=dtype)

    @_patch("full")
    def _full(o, shape, fill_value, dtype=None, order="C", **k):
        d = _dt(dtype)
        if d is None:
            d = A.lie(fill_value)
        if not _floaty(d):
            return o(_int_shape(shape), fill_value, dtype=d)
        if isinstance(fill_value, np.ndarray):
            r = A.mk(_int_shape(shape), 0.0, d)
            r[...] = fill_value
            return r
        return A.mk(_int_shape(shape), A.cast_elem(fill_value, d), d)

    def _eye(o, *a, **k):
        r = o(*a, **k)
        return A.rewrap(r)

    for nm in ("eye", "identity", "linspace", "logspace", "geomspace"):
        _patch(nm)(_eye if nm != "linspace" else _linspace)

    @_patch("arange")
    def _arange(o, *a, **k):
        if builtins.any(isinstance(x, (Sym, SymArray)) for x in a):
            a = tuple(C.concretize_int(x) if isinstance(x, Sym) else (A._force_index(x)[()] if isinstance(x, SymArray) else x) for x in a)
        return o(*a, **k)

    def _array(o, x, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None, **kk):
        d = _dt(dtype)
        return _mkarray(o, x, d, copy, ndmin)

    _patch("array")(_array)

    def _asarray(o, x, dtype=None, order=None, **k):
        d = _dt(dtype)
        if isinstance(x, SymArray) and (d is None or d == x._ld):
            return x
        if isinstance(x, np.ndarray) and not isinstance(x, SymArray) and (d is None or d == x.dtype):
            return x
        return _mkarray(_orig["array"], x, d, True, 0)

    for nm in ("asarray", "asanyarray", "asfarray", "asarray_chkfinite"):
        if hasattr(np, nm):
            _patch(nm)(_asarray)

    def _ascont(o, x, dtype=None, **k):
        r = _asarray(o, x, dtype)
        if isinstance(r, SymArray) and not raw(r).flags.c_contiguous:
            return wrap(np.ascontiguousarray(raw(r)), r._ld)
        if r.ndim == 0:
            r = r.reshape(1)
        return r

    _patch("ascontiguousarray")(_ascont)
    _patch("asfortranarray")(_asarray)

    @_patch("isscalar")
    def _isscalar(o, x):
        return True if isinstance(x, (Sym, SymBool, Cx)) else o(x)

    # reductions of a list of arrays: numpy does not dispatch these to SymArray
    def _of_list(nm):
        def f(o, x, *a, **k):
            if isinstance(x, (list, tuple)) and _has_symarr(x):
                x = wrap(A._stack_list(x))
            return o(x, *a, **k)

        _patch(nm)(f)

    for nm in ("mean", "std", "var", "sum", "prod", "min", "max", "amin", "amax", "argmin", "argmax", "median", "cumsum", "any", "all", "average", "ptp", "sort", "argsort"):
        _of_list(nm)

    numbers.Real.register(Sym)
    _install_scipy()


def _linspace(o, start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if any_sym(start) or any_sym(stop):
        n = int(num)
        dv = (n - 1) if endpoint else n
        step = (stop - start) / dv if dv else 0.0
        vals = [start + step * i for i in range(n)]
        r = wrap(A._stack_list(vals), np.float64)
        return (r, step) if retstep else r
    r = o(conc_tree(start), conc_tree(stop), conc_tree(num), endpoint=endpoint, retstep=retstep, dtype=_dt(dtype), axis=axis)
    return A.rewrap_tree(r)


def _mkarray(o, x, d, copy, ndmin):
    def nd(r):
        if ndmin and r.ndim < ndmin:
            r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
        return r

    if isinstance(x, SymArray):
        r = x.copy() if copy or d is not None and d != x._ld else x
        if d is not None and d != x._ld:
            r = r.astype(d)
        return nd(r)
    if isinstance(x, (Sym, SymBool, Cx)):
        r = wrap(C._obj0(x), x.dtype)
        if d is not None:
            r = r.astype(d)
        return nd(r)
    if isinstance(x, (list, tuple)) and _has_symarr(x):
        r = wrap(A._stack_list(x))
        if d is not None:
            r = r.astype(d)
        return nd(r)
    if not isinstance(x, (list, tuple, np.ndarray, int, float, np.generic, range, complex)) and hasattr(x, "__iter__") and not hasattr(x, "__array__"):
        pass
    k = {} if d is None else {"dtype": d}
    r = o(x, ndmin=ndmin, **k) if copy else o(x, ndmin=ndmin, copy=None, **k)
    if r.dtype.kind in "fc":
        return wrap(r.astype(object), r.dtype)
    return r


def _has_symarr(x):
    for v in x:
        if isinstance(v, (Sym, SymBool, Cx, SymArray)):
            return True
        if isinstance(v, (list, tuple)) and _has_symarr(v):
            return True
    return False


# -- third-party kernels -------------------------------------------------------
def _lin_in(func, pos=(0,), kwnames=(), tag=None):
    """Wrapper: when the argument at ``pos`` is symbolic, use its linear matrix."""
    import inspect

    try:
        params = list(inspect.signature(func).parameters)
    except (TypeError, ValueError):
        params = []

    @functools.wraps(func)
    def g(*args, **kw):
        if C.ENG is None or not (_has_sa(args) or _has_sa(tuple(kw.values()))):
            return func(*args, **kw)
        # move named linear args to positional
        args = list(args)
        for p in pos:
            if p < len(params) and params[p] in kw:
                while len(args) < p:
                    raise Unsupported("keyword order")
                args.insert(p, kw.pop(params[p]))
        sym_pos = [p for p in pos if p < len(args) and any_sym(args[p])]
        others = [i for i in range(len(args)) if i not in sym_pos]
        if builtins.any(any_sym(args[i]) for i in others) or any_sym(kw):
            raise Unsupported(f"{func.__name__}: symbolic non-linear argument")
        base = [conc_tree(a) if i in others else a for i, a in enumerate(args)]
        kw = conc_tree(kw)
        if not sym_pos:
            return A.rewrap_tree_deep(func(*base, **kw))
        if len(sym_pos) > 1:
            raise Unsupported(f"{func.__name__}: bilinear symbolic call")
        p = sym_pos[0]

        def f(x):
            b = list(base)
            b[p] = x
            return func(*b, **kw)

        r = linear(f, args[p], tag=tag or f"{func.__module__}.{func.__name__}")
        ld = args[p]._ld if isinstance(args[p], SymArray) else None
        if ld is not None and ld.kind in "iu":
            # what the libraries do with integer images: scikit-image rescales them, scipy.ndimage rounds its results
            if func.__module__.startswith("skimage") and not kw.get("preserve_range"):
                r = r / float(np.iinfo(ld).max)
            elif "ndimage" in func.__module__ and kw.get("output") is None:
                r = np.floor(r + 0.5).astype(ld)
        return r

    g.__wrapped__ = func
    return g


def _has_sa(o):
    if isinstance(o, (SymArray, Sym, SymBool, Cx)):
        return True
    if isinstance(o, (list, tuple)):
        return builtins.any(_has_sa(v) for v in o)
    if isinstance(o, dict):
        return builtins.any(_has_sa(v) for v in o.values())
    return False


def _rewrap_deep(r):
    if isinstance(r, np.ndarray):
        return A.rewrap(r)
    if isinstance(r, dict):
        return {k: _rewrap_deep(v) for k, v in r.items()}
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(_rewrap_deep(x) for x in r)
    if isinstance(r, list):
        return [_rewrap_deep(x) for x in r]
    return r


A.rewrap_tree_deep = _rewrap_deep


def _bilinear_conv(func, tag):
    """fftconvolve / convolve(full) with both arguments symbolic: definition."""
    lin0 = _lin_in(func, (0,), tag=tag)
    lin1 = _lin_in(func, (1,), tag=tag)

    @functools.wraps(func)
    def g(a, b, *args, **kw):
        if C.ENG is None or not (_has_sa(a) or _has_sa(b)):
            return func(a, b, *args, **kw)
        if not any_sym(b):
            return lin0(a, b, *args, **kw)
        if not any_sym(a):
            return lin1(a, b, *args, **kw)
        # bilinear: sum over entries of b of b_j * lin(a, e_j)
        bo = to_obj(b)
        tot = None
        for ix in np.ndindex(*bo.shape):
            e = np.zeros(bo.shape)
            e[ix] = 1.0
            t = lin0(a, e, *args, **kw) * bo[ix]
            tot = t if tot is None else tot + t
        return tot

    return g


def _install_random():
    """The C code of numpy.random allocates through numpy's own functions: call it from here, where they are native."""

    def mk(f):
        @functools.wraps(f)
        def g(*a, **k):
            if C.ENG is None:
                return f(*a, **k)
            return A.rewrap(f(*[conc_tree(x) for x in a], **{q: conc_tree(w) for q, w in k.items()}))

        return g

    for n in ("rand", "random", "randn", "randint", "normal", "uniform", "permutation", "standard_normal", "poisson", "random_sample"):
        setattr(np.random, n, mk(getattr(np.random, n)))


def _install_scipy():
    import pywt
    import scipy
    import scipy.linalg
    import scipy.ndimage
    import scipy.signal
    import scipy.fft
    import scipy.optimize
    import scipy.spatial.transform
    import skimage.measure
    import skimage.transform

    for n in ("fftconvolve", "convolve", "correlate", "oaconvolve"):
        setattr(scipy.signal, n, _bilinear_conv(getattr(scipy.signal, n), "scipy.signal." + n))
    for n in (
        "convolve", "convolve1d", "correlate", "correlate1d", "gaussian_filter", "gaussian_filter1d", "uniform_filter", "zoom", "shift",
        "rotate", "fourier_shift", "map_coordinates", "laplace", "sobel", "spline_filter", "affine_transform",
    ):  # fmt: skip
        setattr(scipy.ndimage, n, _lin_in(getattr(scipy.ndimage, n), (0,)))
    _o_mf = scipy.ndimage.median_filter

    @functools.wraps(_o_mf)
    def median_filter(input, size=None, footprint=None, output=None, mode="reflect", cval=0.0, origin=0, **k):
        if C.ENG is None or not _has_sa(input):
            return _o_mf(input, size, footprint, output, mode, cval, origin, **k)
        if not any_sym(input):
            return A.rewrap(_o_mf(conc_tree(input), size, footprint, output, mode, cval, origin, **k))
        if footprint is not None or mode != "reflect" or origin != 0:
            raise Unsupported("median_filter options")
        o = to_obj(input)
        sz = [int(size)] * o.ndim if np.isscalar(size) else [int(x) for x in size]
        pad = [(q // 2, q - 1 - q // 2) for q in sz]
        ip = np.pad(np.arange(o.size).reshape(o.shape), pad, mode="symmetric")
        flat = o.reshape(-1)
        res = np.empty(o.shape, dtype=object)
        for ix in np.ndindex(*o.shape):
            win = ip[tuple(slice(i, i + q) for i, q in zip(ix, sz))].reshape(-1)
            st = A._sort1([flat[j] for j in win])
            res[ix] = st[len(st) // 2]
        return wrap(res, input.dtype)

    scipy.ndimage.median_filter = median_filter
    for n in ("fft", "ifft", "rfft", "irfft", "fftn", "ifftn", "rfftn", "irfftn", "fft2", "ifft2", "dct", "idct"):
        setattr(scipy.fft, n, _lin_in(getattr(scipy.fft, n), (0,)))
    for n in (
        "dwt", "dwtn", "wavedec", "wavedecn", "swt", "swtn", "swt2", "dwt2", "wavedec2", "waverec", "waverecn", "iswt", "iswtn",
        "idwtn", "idwt", "idwt2", "waverec2", "iswt2", "coeffs_to_array",
    ):  # fmt: skip
        if n == "coeffs_to_array":
            continue
        setattr(pywt, n, _lin_in(getattr(pywt, n), (0,)))
    _fix_pywt_helpers(pywt)
    for n in ("radon", "iradon", "rotate", "rescale", "resize"):
        setattr(skimage.transform, n, _lin_in(getattr(skimage.transform, n), (0,)))
    _o_br = skimage.measure.block_reduce

    @functools.wraps(_o_br)
    def block_reduce(image, block_size=2, func=np.sum, cval=0, func_kwargs=None):
        if C.ENG is None or not _has_sa(image):
            return _o_br(image, block_size, func, cval, func_kwargs)
        if not any_sym(image):
            return A.rewrap(_o_br(conc_tree(image), conc_tree(block_size), func, cval, func_kwargs))
        if func in (np.sum, np.mean):
            return linear(lambda x: _o_br(x, conc_tree(block_size), func, cval, func_kwargs), image, tag="skimage.block_reduce")
        bs = np.broadcast_to(block_size, image.ndim)
        o = image
        pad = [(0, (-s) % int(b)) for s, b in zip(image.shape, bs)]
        o = A.fn_pad(o, pad, constant_values=cval)
        shp = []
        for s, b in zip(o.shape, bs):
            shp += [s // int(b), int(b)]
        return func(o.reshape(shp), axis=tuple(range(1, 2 * image.ndim, 2)))

    skimage.measure.block_reduce = block_reduce

    # scipy.linalg.lstsq on symbolic right-hand side / matrix: normal equations
    _o_lstsq = scipy.linalg.lstsq

    @functools.wraps(_o_lstsq)
    def lstsq(a, b, *args, **kw):
        if C.ENG is None or not (_has_sa(a) or _has_sa(b)):
            return _o_lstsq(a, b, *args, **kw)
        if not any_sym(a):
            P = np.linalg.pinv(np.asarray(conc_tree(a), dtype=float))
            x = A.fn_dot(wrap(P.astype(object), np.float64), b)
            return x, None, None, None
        return A.fn_lstsq(a, b)

    scipy.linalg.lstsq = lstsq
    for n in ("inv", "solve", "norm", "det", "svd"):
        o = getattr(scipy.linalg, n)
        impl = A.FN["linalg." + n]

        def mk(o, impl):
            @functools.wraps(o)
            def g(*a, **k):
                if C.ENG is None or not _has_sa(a):
                    return o(*a, **k)
                if not any_sym(a):
                    return _rewrap_deep(o(*conc_tree(a), **k))
                return impl(*a, **{q: w for q, w in k.items() if q not in ("overwrite_a", "check_finite", "overwrite_b")})

            return g

        setattr(scipy.linalg, n, mk(o, impl))

    # Polynomial.fit on symbolic data: exact interpolation / least squares
    import numpy.polynomial.polynomial as npp
    from numpy.polynomial import Polynomial

    _o_fit = Polynomial.fit.__func__

    def fit(cls, x, y, deg, domain=None, rcond=None, full=False, w=None, window=None, symbol="x"):
        if C.ENG is None or not (_has_sa(x) or _has_sa(y) or _has_sa(w)):
            return _o_fit(cls, x, y, deg, domain=domain, rcond=rcond, full=full, w=w, window=window, symbol=symbol)
        return SymPoly(_polyfit(x, y, int(deg), w))

    Polynomial.fit = classmethod(fit)
    _o_pf = npp.polyfit

    def polyfit(x, y, deg, rcond=None, full=False, w=None):
        if C.ENG is None or not (_has_sa(x) or _has_sa(y)):
            return _o_pf(x, y, deg, rcond=rcond, full=full, w=w)
        return _polyfit(x, y, int(deg), w)

    npp.polyfit = polyfit
    _o_pv = npp.polyval

    def polyval(x, c, tensor=True):
        if C.ENG is None or not (_has_sa(x) or _has_sa(c)):
            return _o_pv(x, c, tensor)
        r = 0.0
        for k in reversed(list(to_obj(c))):
            r = x * r + k
        return r

    npp.polyval = polyval

    class _ScRot:
        pass

    _install_rotation(scipy.spatial.transform)
    _install_special()


def _install_special():
    import scipy.special

    for n, f in (("xlogy", None),):
        o = scipy.special.xlogy

        @functools.wraps(o)
        def xlogy(x, y, *a, **k):
            if C.ENG is None or not (_has_sa(x) or _has_sa(y)):
                return o(x, y, *a, **k)

            def g(p, q):
                if C.is_conc(p) and p == 0:
                    return 0.0
                pz = p == 0
                return C.ite(pz, 0.0, C.mul(p, C.log(C.ite(pz, 1.0, q))))

            return A.wrap_any(A._vec(g)(x, y), np.float64)

        scipy.special.xlogy = xlogy


class SymPoly:
    """Stands for numpy.polynomial.Polynomial with symbolic coefficients."""

    def __init__(self, coef):
        self.coef = coef

    def convert(self, *a, **k):
        return self

    def __call__(self, x):
        r = 0.0
        for k in reversed(list(to_obj(self.coef))):
            r = x * r + k
        return r

    def degree(self):
        return len(self.coef) - 1

    def deriv(self, m=1):
        c = list(to_obj(self.coef))
        for _ in range(m):
            c = [C.mul(c[i], float(i)) for i in range(1, len(c))]
        return SymPoly(wrap(A._stack_list(c), np.float64))

    def roots(self):
        c = list(to_obj(self.coef))
        if len(c) == 2:
            return wrap(A._stack_list([C.div(C.sub(0.0, c[0]), c[1])]), np.float64)
        raise Unsupported("roots of degree > 1")

    def __iter__(self):
        return iter(self.coef)


def _polyfit(x, y, deg, w=None):
    """Least squares by normal equations (exact interpolation when square)."""
    xo = list(to_obj(A.asym(x)).reshape(-1))
    yo = to_obj(A.asym(y))
    n = len(xo)
    V = np.empty((n, deg + 1), dtype=object)
    for i in range(n):
        for j in range(deg + 1):
            V[i, j] = C.power(xo[i], j) if j > 1 else (1.0 if j == 0 else xo[i])
    Y = yo.reshape(n, -1)
    if w is not None:
        wo = to_obj(A.asym(w)).reshape(-1)
        V = A._vec(C.mul)(V, wo[:, None])
        Y = A._vec(C.mul)(Y, wo[:, None])
    if not builtins.any(C.is_sym(v) for v in V.flat):
        P = np.linalg.pinv(V.astype(float))
        P = np.where(np.abs(P) < 1e-14, 0.0, P)
        r = A._dot(P.astype(object), Y)
    elif n == deg + 1:
        r = A._solve(V, Y.copy())
    else:
        Vt = V.T
        r = A._solve(A._dot(Vt, V), A._dot(Vt, Y))
    return wrap(r[:, 0] if yo.ndim == 1 else r, np.float64)


def _install_rotation(mod):
    """scipy Rotation for symbolic input: Rodrigues / Euler / matrix definitions."""
    R0 = mod.Rotation

    class RotationShim:
        """Dispatches to scipy for numbers, to exact definitions for symbols."""

        def __init__(self, m):
            self.m = m

        def as_matrix(self):
            return self.m

        def apply(self, v, inverse=False):
            m = self.m if not inverse else np.swapaxes(self.m, -1, -2)
            v = A.asym(v)
            if v.ndim == 1:
                return A.fn_dot(m, v)
            if m.ndim == 2:
                return A.fn_dot(v, m.T)
            if builtins.len(m) != builtins.len(v) and 1 not in (builtins.len(m), builtins.len(v)):
                raise ValueError("Expected equal number of rotations and vectors, or a single one of either")
            k = builtins.max(builtins.len(m), builtins.len(v))
            m = [m[i] if builtins.len(m) > 1 else m[0] for i in builtins.range(k)]
            v = [v[i] if builtins.len(v) > 1 else v[0] for i in builtins.range(k)]
            return np.stack([A.fn_dot(mm, vv) for mm, vv in builtins.zip(m, v)])

        def inv(self):
            return RotationShim(np.swapaxes(self.m, -1, -2))

        def __mul__(self, o):
            return RotationShim(np.matmul(self.m, o.as_matrix()))

    def rodrigues(v):
        v = [C._num(x) for x in v]
        nz = [i for i in range(3) if not (C.is_conc(v[i]) and v[i] == 0)]
        if not nz:
            return np.eye(3).astype(object)
        if len(nz) == 1:
            th = v[nz[0]]
            k = [0.0, 0.0, 0.0]
            k[nz[0]] = 1.0
            c, s = C.cossin(th)
        else:
            # direction: try v = theta * unit concrete axis
            th, k = _split_axis(v)
            c, s = C.cossin(th)
        K = np.array([[0.0, C.sub(0.0, k[2]), k[1]], [k[2], 0.0, C.sub(0.0, k[0])], [C.sub(0.0, k[1]), k[0], 0.0]], dtype=object)
        K2 = A._dot(K, K)
        I = np.eye(3).astype(object)
        f = lambda i, a, b: C.add(C.add(i, C.mul(s, a)), C.mul(C.sub(1.0, c), b))
        return A._vec(f)(I, K, K2)

    class RotMeta(type):
        def __instancecheck__(cls, o):
            return isinstance(o, (R0, RotationShim))

        def __getattr__(cls, n):
            return getattr(R0, n)

    class Rotation(metaclass=RotMeta):
        def __new__(cls, *a, **k):
            return R0(*a, **k)

        @staticmethod
        def from_rotvec(v, degrees=False):
            if C.ENG is None:
                return R0.from_rotvec(v, degrees=degrees)
            if not any_sym(v):
                return RotationShim(wrap(R0.from_rotvec(np.asarray(conc_tree(v), dtype=float), degrees=degrees).as_matrix().astype(object), np.float64))
            o = to_obj(v)
            if degrees:
                o = A._vec(lambda x: C.mul(x, math.pi / 180))(o)
            if o.ndim == 1:
                return RotationShim(wrap(rodrigues(o), np.float64))
            return RotationShim(wrap(np.stack([rodrigues(r) for r in o]), np.float64))

        @staticmethod
        def from_matrix(m, **k):
            if C.ENG is None:
                return R0.from_matrix(m, **k)
            return RotationShim(A.asym(m))

        @staticmethod
        def from_euler(seq, angles, degrees=False):
            if C.ENG is None:
                return R0.from_euler(seq, angles, degrees=degrees)
            if not any_sym(angles):
                return RotationShim(wrap(R0.from_euler(seq, conc_tree(angles), degrees=degrees).as_matrix().astype(object), np.float64))
            ang = list(to_obj(angles).reshape(-1)) if not C.is_sym(angles) else [angles]
            m = np.eye(3).astype(object)
            for ch, a in zip(seq, ang):
                if degrees:
                    a = C.mul(a, math.pi / 180)
                v = [0.0, 0.0, 0.0]
                v["xyz".index(ch.lower())] = a
                r = rodrigues(v)
                m = A._dot(m, r) if ch.isupper() else A._dot(r, m)
            return RotationShim(wrap(m, np.float64))

    mod.Rotation = Rotation


def _split_axis(v):
    """v = theta * axis with a concrete unit axis, or symbolic normalisation."""
    ref = None
    for x in v:
        if C.is_sym(x):
            ref = x
            break
    ratios = []
    for x in v:
        if C.is_conc(x):
            if x != 0:
                ratios = None
                break
            ratios.append(0.0)
            continue
        ra, ca = C._affine(x.e)
        rr, cr = C._affine(ref.e)
        if ca != 0 or cr != 0 or len(ra) != 1 or set(ra) != set(rr):
            ratios = None
            break
        (i, (_, ka)), (_, (_, kr)) = list(ra.items())[0], list(rr.items())[0]
        ratios.append(float(ka / kr))
    if ratios is not None:
        n = math.sqrt(builtins.sum(r * r for r in ratios))
        return C.mul(ref, n), [r / n for r in ratios]
    n = C.sqrt(A._sum([C.mul(x, x) for x in v]))
    return n, [C.div(x, n) for x in v]


def _fix_pywt_helpers(pywt):
    """pywt.coeffs_to_array & co call np.asarray on coefficient blocks: linear maps too."""
    for n in ("coeffs_to_array", "ravel_coeffs"):
        o = getattr(pywt, n)

        def mk(o):
            @functools.wraps(o)
            def g(coeffs, *a, **k):
                if C.ENG is None or not _has_sa(coeffs):
                    return o(coeffs, *a, **k)
                cz = _map_leaves(coeffs, lambda x: np.zeros(x.shape))
                sl = o(cz, *a, **k)
                r = linear(lambda c: o(c, *a, **k)[0], coeffs, tag="pywt." + o.__name__)
                return (r, *sl[1:])

            return g

        setattr(pywt, n, mk(o))
    for n in ("array_to_coeffs", "unravel_coeffs"):
        o = getattr(pywt, n)

        def mk2(o):
            @functools.wraps(o)
            def g(x, *a, **k):
                if C.ENG is None or not _has_sa(x):
                    return o(x, *a, **k)
                return linear(lambda c: o(c, *a, **k), x, tag="pywt." + o.__name__)

            return g

        setattr(pywt, n, mk2(o))


def _install_linop():
    from scipy.sparse.linalg._interface import LinearOperator

    o = LinearOperator.dot

    @functools.wraps(o)
    def dot(self, x):
        if C.ENG is None or not isinstance(x, SymArray):
            return o(self, x)
        n = self.shape[-1]
        if x.shape == (n,):
            return self.matvec(x)
        if x.ndim >= 2 and x.shape[-2] == n:
            return self.matmat(x)
        raise ValueError(f"Dimension mismatch: {x.shape} for operator {self.shape}")

    LinearOperator.dot = dot


def _map_leaves(o, f):
    if isinstance(o, np.ndarray):
        return f(o)
    if isinstance(o, dict):
        return {k: _map_leaves(v, f) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return type(o)(_map_leaves(v, f) for v in o)
    return o


def after_import():
    """Give the modules under test the symbolic-aware ``float``."""
    for n, m in list(sys.modules.items()):
        if n == "corrct" or n.startswith("corrct."):
            if m is not None and "float" not in m.__dict__:
                m.__dict__["float"] = SymFloat
