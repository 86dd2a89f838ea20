"""SymArray: an object-dtype ndarray subclass that the real numpy code runs on."""

from __future__ import annotations

import builtins
import sys
import math

import numpy as np
import numpy.linalg as _npl  # noqa: F401

import z3

from . import core as C
from .core import Cx, Sym, SymBool, Unsupported, ite

_ndarray = np.ndarray
_orig_array = np.array
_orig_asarray = np.asarray
_orig_empty = np.empty
_orig_zeros = np.zeros
_orig_ones = np.ones
_orig_full = np.full

F64 = np.dtype(np.float64)
BOOL = np.dtype(bool)
OBJ = np.dtype(object)


def raw(a):
    """SymArray -> plain object ndarray (a view)."""
    if isinstance(a, SymArray):
        return a.view(_ndarray)
    return a


def lie(a) -> np.dtype:
    if isinstance(a, SymArray):
        return a._ld
    if isinstance(a, (Sym, SymBool, Cx)):
        return a.dtype
    if isinstance(a, _ndarray):
        if _ndarray.dtype.__get__(a) == OBJ:
            return F64
        return a.dtype
    if isinstance(a, (bool, np.bool_)):
        return BOOL
    if isinstance(a, np.generic):
        return a.dtype
    if isinstance(a, int):
        return np.dtype(int)
    if isinstance(a, complex):
        return np.dtype(complex)
    return F64


def infer_ld(o: np.ndarray) -> np.dtype:
    """Apparent dtype of an object array of elements."""
    kind = 0
    for v in o.flat:
        if isinstance(v, (Cx, complex, np.complexfloating)):
            return np.dtype(complex)
        if isinstance(v, (SymBool, bool, np.bool_)):
            kind = builtins.max(kind, 1)
        elif isinstance(v, (int, np.integer)):
            kind = builtins.max(kind, 2)
        else:
            kind = builtins.max(kind, 3)
    return {0: F64, 1: BOOL, 2: np.dtype(int), 3: F64}[kind]


def wrap(o, ld=None):
    """Plain object array -> SymArray (scalars pass through)."""
    if isinstance(o, SymArray):
        if ld is not None:
            o._ld = np.dtype(ld)
        return o
    if not isinstance(o, _ndarray):
        return o
    if o.dtype != OBJ:
        o = to_obj(o)
    r = o.view(SymArray)
    r._ld = np.dtype(ld) if ld is not None else infer_ld(o)
    return r


def to_obj(a) -> np.ndarray:
    """Anything array-like -> plain object ndarray."""
    if isinstance(a, SymArray):
        return a.view(_ndarray)
    if isinstance(a, _ndarray):
        if a.dtype == OBJ:
            return a
        return a.astype(object)
    if isinstance(a, (Sym, SymBool, Cx)):
        return C._obj0(a)
    if isinstance(a, (list, tuple)):
        return _stack_list(a)
    return _orig_array(a, dtype=object)


def _stack_list(seq):
    items = [to_obj(v) if not C.is_conc(v) else C._obj0(v) for v in seq]
    if not items:
        return _orig_array([], dtype=object)
    shp = items[0].shape
    for it in items:
        if it.shape != shp:
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
    out = _orig_empty((len(items), *shp), dtype=object)
    for i, it in enumerate(items):
        out[i, ...] = it if it.ndim else it[()]
    return out


def any_sym(o) -> bool:
    """Does this (nested) value hold symbolic elements or SymArrays with symbols?"""
    if isinstance(o, (Sym, SymBool, Cx)):
        return True
    if isinstance(o, SymArray):
        return not all_conc(o)
    if isinstance(o, (list, tuple)):
        return builtins.any(any_sym(v) for v in o)
    if isinstance(o, dict):
        return builtins.any(any_sym(v) for v in o.values())
    if isinstance(o, _ndarray) and o.dtype == OBJ:
        return builtins.any(any_sym(v) for v in o.flat)
    return False


def all_conc(a) -> bool:
    for v in raw(a).flat:
        if isinstance(v, (Sym, SymBool, Cx)):
            return False
    return True


def concrete(a):
    """SymArray with only numbers -> native array of its apparent dtype."""
    o = raw(a)
    ld = a._ld
    out = _orig_empty(o.shape, dtype=ld)
    if o.size:
        out[...] = o.astype(ld)
    return out


def conc_tree(o):
    if isinstance(o, SymArray):
        return concrete(o)
    if isinstance(o, list):
        return [conc_tree(v) for v in o]
    if isinstance(o, tuple):
        return tuple(conc_tree(v) for v in o)
    if isinstance(o, dict):
        return {k: conc_tree(v) for k, v in o.items()}
    return o


def cast_elem(v, dt):
    k = dt.kind
    if k == "b":
        if isinstance(v, SymBool):
            return v
        if isinstance(v, Sym):
            return v != 0
        if isinstance(v, Cx):
            return v != 0
        return bool(v)
    if k in "iu":
        if isinstance(v, SymBool):
            return v.num()
        if isinstance(v, Sym):
            return C.trunc(v)
        return int(v)
    if k == "c":
        return v if isinstance(v, Cx) else (Cx.of(v) if C.is_sym(v) else complex(v))
    if k == "f":
        if isinstance(v, SymBool):
            return v.num()
        if isinstance(v, Cx):
            return v.re
        if isinstance(v, complex):
            return float(v.real)
        if isinstance(v, Sym):
            return v
        return float(v)
    return v


def _vec(f, nout=1):
    def g(*xs):
        xs = [to_obj(x) if not C.is_conc(x) and not isinstance(x, complex) else x for x in xs]
        if builtins.all(not isinstance(x, _ndarray) for x in xs):
            return f(*xs)
        bs = np.broadcast(*[x if isinstance(x, _ndarray) else C._obj0(x) for x in xs])
        out = _orig_empty(bs.shape, dtype=object)
        fl = out.reshape(-1) if out.ndim else None
        i = 0
        for vals in bs:
            r = f(*vals)
            if fl is None:
                out[()] = r
            else:
                fl[i] = r
            i += 1
        return out

    return g


def _b_and(a, b):
    r = C.zor()
    la, lb = SymBool.lift(a), SymBool.lift(b)
    return C.mkbool(z3.simplify(z3.And(la, lb)), C.zor(getattr(a, "pz", None), getattr(b, "pz", None)))


def _b_or(a, b):
    la, lb = SymBool.lift(a), SymBool.lift(b)
    return C.mkbool(z3.simplify(z3.Or(la, lb)), C.zor(getattr(a, "pz", None), getattr(b, "pz", None)))


def _b_not(a):
    return C.mkbool(z3.simplify(z3.Not(SymBool.lift(a))), getattr(a, "pz", None))


def _b_xor(a, b):
    return C.mkbool(z3.simplify(z3.Xor(SymBool.lift(a), SymBool.lift(b))))


def _conc_bool(v):
    return isinstance(v, (bool, np.bool_))


def _and(a, b):
    if C.is_conc(a) and C.is_conc(b):
        return a & b
    return _b_and(a, b)


def _or(a, b):
    if C.is_conc(a) and C.is_conc(b):
        return a | b
    return _b_or(a, b)


def _inv(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if C.is_conc(a):
        return ~a
    return _b_not(a)


def _isnan(a):
    if isinstance(a, Cx):
        return _or(_isnan(a.re), _isnan(a.im))
    if isinstance(a, Sym):
        if a.pz is None:
            return False
        return C.mkbool(z3.And(a.pz, C.eng().fresh_bool("isnan")))
    if isinstance(a, SymBool):
        return False
    return bool(np.isnan(a))


def _isfinite(a):
    if isinstance(a, Cx):
        return _and(_isfinite(a.re), _isfinite(a.im))
    if isinstance(a, Sym):
        if a.pz is None:
            return True
        return C.mkbool(z3.Not(a.pz))
    if isinstance(a, SymBool):
        return True
    return bool(np.isfinite(a))


def _isinf(a):
    if isinstance(a, Sym):
        if a.pz is None:
            return False
        return C.mkbool(z3.And(a.pz, C.eng().fresh_bool("isinf")))
    return bool(np.isinf(a))


def _clean(f):
    """Elementwise op on numbers falls through to Python/NumPy arithmetic."""
    return f


def _pow(a, b):
    if C.is_conc(a) and C.is_conc(b):
        with np.errstate(all="ignore"):
            return np.power(a, b) if not (isinstance(a, int) and isinstance(b, int)) else a**b
    return C.power(a, b)


def _floordiv(a, b):
    if C.is_conc(a) and C.is_conc(b):
        return np.floor_divide(a, b)
    return C.floor(C.div(a, b))


def _c1(npf, symf):
    def f(a):
        if C.is_conc(a) or isinstance(a, complex):
            with np.errstate(all="ignore"):
                return npf(a)
        return symf(a)

    return f


def _eq(a, b):
    return a == b


def _hyp(a, b):
    return C.sqrt(C.add(C.mul(a, a), C.mul(b, b)))


def _sq(a):
    return C.mul(a, a)


def _copysign(a, b):
    return ite(b < 0, -C.sabs(a), C.sabs(a))


UF = {
    "add": C.add,
    "subtract": C.sub,
    "multiply": C.mul,
    "divide": C.div,
    "true_divide": C.div,
    "floor_divide": _floordiv,
    "remainder": C.mod,
    "mod": C.mod,
    "fmod": C.mod,
    "power": _pow,
    "float_power": _pow,
    "negative": lambda a: -a if not isinstance(a, SymBool) else -a.num(),
    "positive": lambda a: a,
    "absolute": C.sabs,
    "fabs": C.sabs,
    "fmax": C.smax,
    "maximum": C.smax,
    "fmin": C.smin,
    "minimum": C.smin,
    "sqrt": C.sqrt,
    "cbrt": lambda a: C.nroot(a, 3),
    "square": _sq,
    "reciprocal": lambda a: C.div(1.0, a),
    "exp": C.exp,
    "exp2": lambda a: C.exp_base(2.0, a),
    "expm1": lambda a: C.sub(C.exp(a), 1.0),
    "cosh": lambda a: C.mul(C.add(C.exp(a), C.exp(C.mul(a, -1.0))), 0.5),
    "sinh": lambda a: C.mul(C.sub(C.exp(a), C.exp(C.mul(a, -1.0))), 0.5),
    "log": C.log,
    "log10": lambda a: C.div(C.log(a), C.LN10) if not C.is_conc(a) else np.log10(a),
    "log2": lambda a: C.div(C.log(a), C.LN2) if not C.is_conc(a) else np.log2(a),
    "log1p": lambda a: C.log(C.add(a, 1.0)),
    "sin": C.sin,
    "cos": C.cos,
    "tan": C.tan,
    "arctan2": C.arctan2,
    "arctan": C.arctan,
    "arcsin": C.arcsin,
    "arccos": C.arccos,
    "deg2rad": lambda a: C.mul(a, math.pi / 180),
    "radians": lambda a: C.mul(a, math.pi / 180),
    "rad2deg": lambda a: C.mul(a, 180 / math.pi),
    "degrees": lambda a: C.mul(a, 180 / math.pi),
    "hypot": _hyp,
    "sign": C.sign,
    "floor": C.floor,
    "ceil": C.ceil,
    "trunc": C.trunc,
    "rint": C.rint,
    "conjugate": lambda a: a.conj() if isinstance(a, (Cx,)) else (np.conj(a) if isinstance(a, complex) else a),
    "less": lambda a, b: a < b,
    "less_equal": lambda a, b: a <= b,
    "greater": lambda a, b: a > b,
    "greater_equal": lambda a, b: a >= b,
    "equal": _eq,
    "not_equal": lambda a, b: a != b,
    "logical_and": _b_and,
    "logical_or": _b_or,
    "logical_not": _b_not,
    "logical_xor": _b_xor,
    "bitwise_and": _and,
    "bitwise_or": _or,
    "bitwise_xor": _b_xor,
    "invert": _inv,
    "isnan": _isnan,
    "isfinite": _isfinite,
    "isinf": _isinf,
    "copysign": _copysign,
    "heaviside": lambda a, b: ite(a < 0, 0.0, ite(a > 0, 1.0, b)),
    "signbit": lambda a: a < 0,
}
BOOL_UF = {
    "less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or", "logical_not",
    "logical_xor", "isnan", "isfinite", "isinf", "signbit",
}  # fmt: skip
FLOAT_UF = {"divide", "true_divide", "sqrt", "exp", "log", "log10", "sin", "cos", "arctan2", "deg2rad", "float_power"}
REDUCE_INIT = {"add": 0.0, "multiply": 1.0, "logical_and": True, "logical_or": False, "bitwise_and": True, "bitwise_or": False}


def wrapint(r, ld):
    """Integer results wrap around (64-bit signed ones are taken as unbounded)."""
    if ld.kind not in "iu" or (ld.kind == "i" and ld.itemsize == 8):
        return r
    n = 2 ** (8 * ld.itemsize)
    lo = 0 if ld.kind == "u" else -(n // 2)
    terms = [v.e for v in (r.reshape(-1) if isinstance(r, _ndarray) else [r]) if isinstance(v, C.Sym)]
    if terms and C.eng().quick(z3.Or([z3.Or(t < lo, t >= lo + n) for t in terms])) == z3.unsat:
        return _vec(lambda v: v if isinstance(v, C.Sym) else (v - lo) % n + lo)(r)
    return _vec(lambda v: C.add(C.mod(C.sub(v, lo), n), lo))(r)


def _result_ld(name, inputs):
    if name in BOOL_UF:
        return BOOL
    lds = []
    weak = False
    cplx = False
    for i in inputs:
        if isinstance(i, (Cx, complex)):
            cplx = True
        if isinstance(i, (int, float)) and not isinstance(i, (bool, np.generic)):
            weak = weak or isinstance(i, float)
            continue
        if isinstance(i, (Sym,)):
            weak = True
            continue
        lds.append(lie(i))
    d = np.result_type(*lds) if lds else (F64 if weak else np.dtype(int))
    if d.kind in "biu" and (weak or name in FLOAT_UF):
        d = F64
    if d.kind == "b" and name in ("add", "multiply", "subtract") and weak is False:
        d = np.dtype(int) if name == "subtract" else d
    if cplx and d.kind != "c":
        d = np.dtype(complex)
    if name in ("absolute",) and d.kind == "c":
        d = F64
    return d


def array_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    kw = dict(kw)
    out = kw.pop("out", None)
    where = kw.pop("where", True)
    dtype = kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    if out is not None and isinstance(out, tuple) and len(out) == 1:
        out = out[0]
    # all concrete -> native
    if not builtins.any(any_sym(i) for i in inputs) and not isinstance(out, SymArray) and not any_sym(where):
        ins = [conc_tree(i) for i in inputs]
        kk = {q: v for q, v in kw.items() if not (q == "initial" and v is None)}
        if out is not None:
            kk["out"] = out
        if where is not True:
            kk["where"] = conc_tree(where)
        if dtype is not None:
            kk["dtype"] = dtype
        r = getattr(ufunc, method)(*ins, **kk)
        if out is not None:
            return out
        if isinstance(r, tuple):
            return tuple(rewrap(x) for x in r)
        return rewrap(r)
    if name == "matmul":
        if method != "__call__":
            raise Unsupported("matmul method")
        r = np.matmul(to_obj(inputs[0]), to_obj(inputs[1]))
        return _finish(r, _result_ld("multiply", inputs), out, where, dtype)
    if name in ("vecdot", "matvec", "vecmat"):
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        r = (a * b).sum(axis=-1) if name == "vecdot" else getattr(np, name)(a, b)
        return _finish(r, _result_ld("multiply", inputs), out, where, dtype)
    if name == "divmod":
        q = array_ufunc(np.floor_divide, "__call__", inputs, {})
        return q, array_ufunc(np.remainder, "__call__", inputs, {})
    if name == "modf":
        t = array_ufunc(np.trunc, "__call__", inputs, {})
        return inputs[0] - t, t
    f = UF.get(name)
    if f is None:
        raise Unsupported(f"ufunc {name}")
    ld = np.dtype(dtype) if dtype is not None else _result_ld(name, inputs)
    if method == "__call__":
        r = _vec(f)(*inputs)
        if name in ("negative",) and ld.kind == "b":
            ld = F64
        if name in ("add", "subtract", "multiply", "negative"):
            ud = out._ld if isinstance(out, SymArray) else ld
            if ld.kind in "iu":
                r = wrapint(r, ud)
    elif method == "reduce":
        r = _reduce(name, f, inputs[0], **kw)
        if where is not True:
            raise Unsupported("reduce where")
        where = True
        if name == "add" and ld.kind == "b":
            ld = np.dtype(int)
    elif method == "accumulate":
        a = to_obj(inputs[0])
        axis = kw.get("axis", 0)
        a2 = np.moveaxis(a, axis, 0)
        o = _orig_empty(a2.shape, dtype=object)
        if len(a2):
            o[0] = a2[0]
            g = _vec(f)
            for i in range(1, len(a2)):
                v = g(o[i - 1], a2[i])
                o[i] = v.item() if o.ndim == 1 and isinstance(v, _ndarray) else v
        r = np.moveaxis(o, 0, axis)
    elif method == "outer":
        a, b = to_obj(inputs[0]), to_obj(inputs[1])
        r = _vec(f)(a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == "at":
        a, idx = inputs[0], inputs[1]
        b = to_obj(inputs[2]) if len(inputs) > 2 else None
        ra = raw(a)
        ids = _orig_empty(ra.shape, dtype=int)
        ids[...] = np.arange(ra.size).reshape(ra.shape)
        sel = ids[conc_tree(idx) if not isinstance(idx, tuple) else tuple(conc_tree(i) for i in idx)]
        flat = ra.reshape(-1)
        if flat.base is not ra and flat is not ra and not np.shares_memory(flat, ra):
            raise Unsupported("ufunc.at on non-contiguous")
        bb = np.broadcast_to(b, sel.shape) if b is not None else None
        for n, p in enumerate(sel.reshape(-1)):
            flat[p] = f(flat[p], bb.reshape(-1)[n]) if bb is not None else f(flat[p])
        return None
    else:
        raise Unsupported(f"ufunc method {method}")
    return _finish(r, ld, out, where, None)


def _finish(r, ld, out, where, dtype):
    if dtype is not None:
        ld = np.dtype(dtype)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        if not isinstance(out, SymArray):
            if isinstance(r, _ndarray) and not any_sym(wrap(r)):
                out[...] = r.astype(out.dtype)
                return out
            raise Unsupported("symbolic result written into a native array")
        if where is not True:
            cur = raw(out)
            r = _vec(lambda c, a, b: ite(c, a, b))(where, r, cur)
        if out._ld.kind in "iu" and ld.kind in "fc":
            raise np._core._exceptions._UFuncOutputCastingError(np.add, "same_kind", ld, out._ld, 0)
        if out._ld.kind == "f" and ld.kind == "c":
            raise np._core._exceptions._UFuncOutputCastingError(np.add, "same_kind", ld, out._ld, 0)
        ro = raw(out)
        if ro.ndim == 0:
            ro[()] = r[()] if isinstance(r, _ndarray) else r
        else:
            ro[...] = r
        return out
    if where is not True:
        raise Unsupported("ufunc where without out")
    if isinstance(r, _ndarray):
        if r.ndim == 0:
            return r[()]
        return wrap(r, ld)
    return r


def rewrap(r):
    """Native float result inside symbolic execution: back to SymArray, so later in-place updates can hold symbols."""
    if isinstance(r, _ndarray) and not isinstance(r, SymArray) and r.dtype.kind in "fc" and r.ndim > 0:
        return wrap(r.astype(object), r.dtype)
    return r


def rewrap_tree(r):
    if isinstance(r, _ndarray):
        return rewrap(r)
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(rewrap_tree(x) for x in r)
    if isinstance(r, list):
        return [rewrap_tree(x) for x in r]
    return r


def _norm_axes(axis, nd):
    if axis is None:
        return tuple(range(nd))
    if not isinstance(axis, (tuple, list, _ndarray)):
        axis = (axis,)
    out = []
    for a in axis:
        a = int(a)
        if a < -nd or a >= nd:
            raise np.exceptions.AxisError(a, nd)
        out.append(a % nd)
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def _reduce(name, f, a, axis=0, keepdims=False, initial=None, **_):
    a = to_obj(a)
    if keepdims is np._NoValue:
        keepdims = False
    if initial is np._NoValue:
        initial = None
    axes = _norm_axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
    out = _orig_empty(b.shape[:-1], dtype=object)
    init = REDUCE_INIT.get(name)
    for ix in np.ndindex(*b.shape[:-1]):
        vals = list(b[ix])
        if initial is not None:
            vals = [initial] + vals
        if not vals:
            if init is None:
                raise ValueError(f"zero-size array to reduction operation {name} which has no identity")
            out[ix] = init
            continue
        if name == "add" and len(vals) > 4:
            out[ix] = _sum(vals)
            continue
        if name in ("logical_and", "logical_or"):
            ls = [SymBool.lift(v) for v in vals]
            out[ix] = C.mkbool(z3.simplify(z3.And(*ls) if name == "logical_and" else z3.Or(*ls)))
            continue
        acc = vals[0]
        if len(vals) == 1 and name == "add":
            acc = C._num(acc)
        for v in vals[1:]:
            acc = f(acc, v)
        out[ix] = acc
    if keepdims:
        shp = [1 if i in axes else a.shape[i] for i in range(a.ndim)]
        return out.reshape(shp)
    if out.ndim == 0:
        return out[()]
    return out


def _sum(vals):
    es, pzs, const = [], [], 0
    for v in vals:
        v = C._num(v)
        if isinstance(v, Sym):
            es.append(v.e)
            if v.pz is not None:
                pzs.append(v.pz)
        elif isinstance(v, (Cx, complex)):
            acc = 0.0
            for w in vals:
                acc = C.add(acc, w)
            return acc
        else:
            const = const + v
    if not es:
        return const
    if C._nonfin(const):
        return C.poison()
    if const != 0:
        es.append(C.zq(const))
    return Sym(z3.Sum(es) if len(es) > 1 else es[0], C.zor(*pzs))


# --------------------------------------------------------------------------
class SymFlat:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        r = raw(self.a).flat[k]
        return wrap(r, self.a._ld) if isinstance(r, _ndarray) else r

    def __setitem__(self, k, v):
        raw(self.a).flat[k] = raw(v) if isinstance(v, SymArray) else v

    def __iter__(self):
        return iter(raw(self.a).flat)

    def __len__(self):
        return self.a.size

    def copy(self):
        return self.a.flatten()


class SymArray(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        if obj is None:
            self._ld = F64
        elif isinstance(obj, SymArray):
            self._ld = getattr(obj, "_ld", F64)
        else:
            self._ld = F64

    @property
    def dtype(self):
        return self._ld

    @property
    def flat(self):
        return SymFlat(self)

    @flat.setter
    def flat(self, v):
        raw(self).flat = to_obj(v)

    @property
    def real(self):
        if self._ld.kind == "c":
            return wrap(_vec(lambda v: v.re if isinstance(v, Cx) else np.real(v))(raw(self)), F64)
        return self

    @real.setter
    def real(self, v):
        raise Unsupported("assignment to .real")

    @property
    def imag(self):
        if self._ld.kind == "c":
            return wrap(_vec(lambda v: v.im if isinstance(v, Cx) else np.imag(v))(raw(self)), F64)
        return wrap(_vec(lambda v: 0.0)(raw(self)), F64)

    @property
    def itemsize(self):
        return self._ld.itemsize

    @property
    def nbytes(self):
        return self._ld.itemsize * self.size

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return array_function(func, types, args, kwargs)

    # -- element access
    def __getitem__(self, k):
        return _getitem(self, k)

    def __setitem__(self, k, v):
        _setitem(self, k, v)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self.shape[0]))

    def __bool__(self):
        if self.size == 1:
            return bool(raw(self).reshape(-1)[0])
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _scalar(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return raw(self).reshape(-1)[0]

    def __float__(self):
        if self.ndim > 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        v = self._scalar()
        if isinstance(v, Sym) and C._in_str_format(sys._getframe(1)):
            return 0.0
        return float(v)

    def __int__(self):
        if self.ndim > 0:
            raise TypeError("only 0-dimensional arrays can be converted to Python scalars")
        return int(self._scalar())

    def __index__(self):
        if self.ndim > 0:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        import operator

        return operator.index(self._scalar())

    def __contains__(self, v):
        return bool((self == v).any())

    def __repr__(self):
        return f"SymArray(shape={self.shape}, dtype={self._ld})"

    __str__ = __repr__

    def __format__(self, spec):
        return repr(self)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    # comparisons must not go through richcompare's object path
    def __eq__(self, o):
        return _bin(np.equal, self, o)

    def __ne__(self, o):
        return _bin(np.not_equal, self, o)

    def __lt__(self, o):
        return np.less(self, o)

    def __le__(self, o):
        return np.less_equal(self, o)

    def __gt__(self, o):
        return np.greater(self, o)

    def __ge__(self, o):
        return np.greater_equal(self, o)

    __hash__ = None

    def __pow__(self, o):
        return array_ufunc(np.power, "__call__", (self, o), {})

    def __rpow__(self, o):
        return array_ufunc(np.power, "__call__", (o, self), {})

    def __ipow__(self, o):
        return array_ufunc(np.power, "__call__", (self, o), {"out": (self,)})

    def __matmul__(self, o):
        return array_ufunc(np.matmul, "__call__", (self, o), {})

    def __rmatmul__(self, o):
        return array_ufunc(np.matmul, "__call__", (o, self), {})

    # -- methods
    def astype(self, dtype, order="K", casting="unsafe", subok=True, copy=True):
        if dtype is SymArray or dtype == OBJ and dtype is not float:
            dtype = self._ld
        dt = np.dtype(_fixdt(dtype))
        if not copy and dt == self._ld:
            return self
        return wrap(_vec(lambda v: cast_elem(v, dt))(raw(self).copy()), dt) if self.ndim else wrap(
            C._obj0(cast_elem(self._scalar(), dt)), dt
        )

    def copy(self, order="C"):
        return wrap(raw(self).copy(), self._ld)

    def item(self, *a):
        if a:
            return raw(self).item(*a)
        return self._scalar()

    def tolist(self):
        return raw(self).tolist()

    def fill(self, v):
        raw(self).fill(v[()] if isinstance(v, _ndarray) else v)

    def flatten(self, order="C"):
        return wrap(raw(self).flatten(order), self._ld)

    def view(self, *a, **k):
        if a and isinstance(a[0], type) and issubclass(a[0], _ndarray):
            return _ndarray.view(self, a[0])
        if not a and not k:
            r = _ndarray.view(self, SymArray)
            r._ld = self._ld
            return r
        raise Unsupported("view with dtype")

    def conj(self):
        return np.conjugate(self)

    conjugate = conj

    def dot(self, b, out=None):
        r = fn_dot(self, b)
        if out is not None:
            out[...] = r
            return out
        return r

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
        return fn_sum(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, initial=initial, where=where)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False):
        return array_ufunc(np.multiply, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, where=True):
        return fn_mean(self, axis=axis, dtype=dtype, out=out, keepdims=keepdims, where=where)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return fn_var(self, axis=axis, ddof=ddof, keepdims=keepdims)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
        return np.sqrt(fn_var(self, axis=axis, ddof=ddof, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, initial=None):
        return array_ufunc(np.maximum, "reduce", (self,), dict(axis=axis, keepdims=keepdims, initial=initial))

    def min(self, axis=None, out=None, keepdims=False, initial=None):
        return array_ufunc(np.minimum, "reduce", (self,), dict(axis=axis, keepdims=keepdims, initial=initial))

    def ptp(self, axis=None):
        return self.max(axis) - self.min(axis)

    def any(self, axis=None, out=None, keepdims=False):
        return array_ufunc(np.logical_or, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False):
        return array_ufunc(np.logical_and, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self if axis is not None else self.ravel()
        return array_ufunc(np.add, "accumulate", (a,), dict(axis=0 if axis is None else axis))

    def cumprod(self, axis=None, dtype=None, out=None):
        a = self if axis is not None else self.ravel()
        return array_ufunc(np.multiply, "accumulate", (a,), dict(axis=0 if axis is None else axis))

    def clip(self, min=None, max=None, out=None, **k):
        return fn_clip(self, min, max, out=out)

    def round(self, decimals=0, out=None):
        return fn_round(self, decimals)

    def argmax(self, axis=None, out=None, keepdims=False):
        return fn_argext(self, axis, True)

    def argmin(self, axis=None, out=None, keepdims=False):
        return fn_argext(self, axis, False)

    def argsort(self, axis=-1, **k):
        return fn_argsort(self, axis)

    def sort(self, axis=-1, **k):
        self[...] = fn_sort(self, axis)

    def nonzero(self):
        return fn_nonzero(self)

    def take(self, indices, axis=None, **k):
        return np.take(self, indices, axis=axis)

    def repeat(self, r, axis=None):
        return np.repeat(self, r, axis=axis)

    def trace(self, *a, **k):
        return wrap_any(raw(self).trace(*a, **k))

    def byteswap(self, *a):
        return self

    def tobytes(self, *a):
        raise Unsupported("tobytes of symbolic array")


def _bin(uf, a, b):
    if b is None or isinstance(b, str):
        return uf is np.not_equal
    return array_ufunc(uf, "__call__", (a, b), {})


def wrap_any(r, ld=None):
    if isinstance(r, _ndarray) and not isinstance(r, SymArray):
        if r.dtype == OBJ:
            return wrap(r, ld)
        return r
    if isinstance(r, tuple) and not hasattr(r, "_fields"):
        return tuple(wrap_any(x, ld) for x in r)
    if isinstance(r, list):
        return [wrap_any(x, ld) for x in r]
    return r


def _fixdt(dt):
    if dt is None:
        return F64
    if isinstance(dt, type) and getattr(dt, "_is_symfloat", False):
        return F64
    return dt


# -- indexing ---------------------------------------------------------------
def _is_symidx(k):
    if isinstance(k, (Sym, SymBool)):
        return True
    if isinstance(k, SymArray):
        return True
    if isinstance(k, (list, tuple)):
        return builtins.any(_is_symidx(x) for x in k)
    if isinstance(k, slice):
        return builtins.any(isinstance(x, (Sym, SymArray)) for x in (k.start, k.stop, k.step))
    return False


def _force_index(k):
    """Concretise an index by forking."""
    if isinstance(k, SymBool):
        return bool(k)
    if isinstance(k, Sym):
        return C.concretize_int(k)
    if isinstance(k, SymArray):
        o = raw(k)
        if k._ld.kind == "b":
            out = _orig_empty(o.shape, dtype=bool)
            for ix in np.ndindex(*o.shape):
                out[ix] = bool(o[ix])
            return out
        out = _orig_empty(o.shape, dtype=np.intp)
        if k._ld.kind not in "iu":
            raise IndexError("arrays used as indices must be of integer (or boolean) type")
        for ix in np.ndindex(*o.shape):
            v = o[ix]
            out[ix] = C.concretize_int(v) if isinstance(v, Sym) else int(v)
        return out
    if isinstance(k, tuple):
        return tuple(_force_index(x) for x in k)
    if isinstance(k, list):
        return [_force_index(x) for x in k]
    if isinstance(k, slice):
        return slice(*[(_force_index(x) if _is_symidx(x) else x) for x in (k.start, k.stop, k.step)])
    return k


def _getitem(self, k):
    if _is_symidx(k):
        k = _force_index(k)
    r = raw(self)[k]
    if isinstance(r, _ndarray) and r.dtype == OBJ:
        w = r.view(SymArray)
        w._ld = self._ld
        return w
    return r


def _setitem(self, k, v):
    o = raw(self)
    dt = self._ld
    if isinstance(v, (SymArray, _ndarray, list, tuple)):
        vo = to_obj(v)
    else:
        vo = v
    if dt.kind in "biuf":
        if isinstance(vo, _ndarray):
            if dt.kind != "f" or lie(v).kind != "f":
                if lie(v).kind == "c":
                    raise Unsupported("complex into real array")
                vo = _vec(lambda x: cast_elem(x, dt))(vo)
        elif vo is not None and not isinstance(vo, str):
            vo = cast_elem(vo, dt) if not (dt.kind == "f" and C.is_conc(vo)) else float(vo)
    if isinstance(k, SymArray) and k._ld.kind == "b" and not all_conc(k):
        return _masked_set(o, raw(k), vo)
    if isinstance(k, SymBool):
        return _masked_set(o, np.broadcast_to(C._obj0(k), o.shape), vo)
    if isinstance(k, SymArray) and k._ld.kind in "iu" and not all_conc(k) and o.ndim == 1:
        return _symidx_set(o, raw(k), vo)
    if isinstance(k, Sym) and o.ndim == 1:
        return _symidx_set(o, C._obj0(k), vo)
    if _is_symidx(k):
        k = _force_index(k)
    if isinstance(vo, _ndarray) and vo.ndim == 0:
        vo = vo[()]
    o[k] = vo


def _masked_set(o, m, vo):
    if m.shape != o.shape[: m.ndim]:
        raise IndexError("boolean index did not match indexed array")
    scalar = not isinstance(vo, _ndarray) or vo.ndim == 0
    if isinstance(vo, _ndarray) and vo.ndim == 0:
        vo = vo[()]
    if scalar:
        for ix in np.ndindex(*m.shape):
            c = m[ix]
            if C.is_conc(c):
                if c:
                    o[ix] = vo
                continue
            if o.ndim == m.ndim:
                o[ix] = ite(c, vo, o[ix])
            else:
                o[ix] = _vec(lambda x: ite(c, vo, x))(o[ix])
        return
    # value array: number of selected entries must be fixed -> fork
    mm = _orig_empty(m.shape, dtype=bool)
    for ix in np.ndindex(*m.shape):
        mm[ix] = bool(m[ix])
    o[mm] = vo


def _symidx_set(o, idx, vo):
    n = o.shape[0]
    flat = idx.reshape(-1)
    vals = np.broadcast_to(vo, idx.shape).reshape(-1) if isinstance(vo, _ndarray) else [vo] * len(flat)
    for i, v in zip(flat, vals):
        for p in range(n):
            c = i == p
            c2 = i == p - n
            o[p] = ite(_b_or(c, c2), v, o[p])


# -- functions ---------------------------------------------------------------
FN: dict = {}


def impl(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f

    return deco


def fname(func):
    mod = getattr(func, "__module__", "") or ""
    n = func.__name__
    if "linalg" in mod:
        return "linalg." + n
    if "fft" in mod:
        return "fft." + n
    return n


PASSTHRU = {
    "reshape", "transpose", "stack", "concatenate", "hstack", "vstack", "dstack", "column_stack", "roll", "flip", "fliplr",
    "flipud", "tile", "repeat", "expand_dims", "squeeze", "moveaxis", "rollaxis", "swapaxes", "broadcast_to",
    "broadcast_arrays", "delete", "insert", "append", "split", "array_split", "hsplit", "vsplit", "atleast_1d", "atleast_2d",
    "atleast_3d", "diag", "diagonal", "diagflat", "tril", "triu", "ravel", "take", "take_along_axis", "rot90", "ndim",
    "shape", "size", "copy", "meshgrid", "block", "resize", "matrix_transpose", "permute_dims", "unstack", "trim_zeros",
    "ix_", "concat", "astype",
}  # fmt: skip
OBJ_OK = {"tensordot", "inner", "outer", "vdot", "kron", "trace", "linalg.outer", "linalg.trace", "linalg.diagonal"}
FFTSHIFT = {"fft.fftshift", "fft.ifftshift"}


def _strip(o, lds):
    if isinstance(o, SymArray):
        lds.append(o._ld)
        return raw(o)
    if isinstance(o, (Sym, SymBool, Cx)):
        lds.append(o.dtype)
        return C._obj0(o)
    if isinstance(o, _ndarray) and not isinstance(o, SymArray):
        lds.append(o.dtype)
        return o
    if isinstance(o, list):
        return [_strip(x, lds) for x in o]
    if isinstance(o, tuple):
        return tuple(_strip(x, lds) for x in o)
    return o


def array_function(func, types, args, kwargs):
    name = fname(func)
    if not any_sym(args) and not any_sym(kwargs) and name not in ("copyto", "put", "place", "putmask", "fill_diagonal"):
        if name in PASSTHRU or name in FFTSHIFT:
            pass  # keep views/aliasing
        elif name in FN and name.endswith("_like"):
            pass
        else:
            return rewrap_tree(func(*conc_tree(args), **conc_tree(kwargs)))
    f = FN.get(name)
    if f is not None:
        return f(*args, **kwargs)
    if name in PASSTHRU or name in OBJ_OK or name in FFTSHIFT:
        lds: list = []
        a2 = _strip(tuple(args), lds)
        k2 = {k: _strip(v, lds) for k, v in kwargs.items()}
        k2.pop("dtype", None) if name in ("stack", "concatenate") else None
        r = func(*a2, **k2)
        ld = None
        if lds:
            try:
                fl = [d for d in lds if d != OBJ]
                ld = np.result_type(*fl) if fl else None
            except TypeError:
                ld = None
        return wrap_any(r, ld)
    from . import lib

    g = lib.NPFN.get(name)
    if g is not None:
        return g(*args, **kwargs)
    raise Unsupported(f"numpy function {name}")


def _val(v, d=None):
    return d if v is np._NoValue else v


@impl("sum")
def fn_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    keepdims, initial, where = _val(keepdims, False), _val(initial), _val(where, True)
    if where is not True:
        a = np.where(where, a, 0.0)
    r = array_ufunc(np.add, "reduce", (a,), dict(axis=axis, keepdims=keepdims, initial=initial))
    if dtype is not None and isinstance(r, SymArray):
        r = r.astype(dtype)
    if out is not None:
        out[...] = r
        return out
    return r


FN["prod"] = lambda a, axis=None, dtype=None, out=None, keepdims=False, **k: array_ufunc(
    np.multiply, "reduce", (a,), dict(axis=axis, keepdims=_val(keepdims, False))
)
FN["max"] = FN["amax"] = lambda a, axis=None, out=None, keepdims=False, initial=None, **k: array_ufunc(
    np.maximum, "reduce", (a,), dict(axis=axis, keepdims=_val(keepdims, False), initial=_val(initial))
)
FN["min"] = FN["amin"] = lambda a, axis=None, out=None, keepdims=False, initial=None, **k: array_ufunc(
    np.minimum, "reduce", (a,), dict(axis=axis, keepdims=_val(keepdims, False), initial=_val(initial))
)
FN["nanmax"], FN["nanmin"] = FN["max"], FN["min"]
FN["ptp"] = lambda a, axis=None, **k: FN["max"](a, axis) - FN["min"](a, axis)
FN["any"] = lambda a, axis=None, out=None, keepdims=False, **k: array_ufunc(
    np.logical_or, "reduce", (a,), dict(axis=axis, keepdims=_val(keepdims, False))
)
FN["all"] = lambda a, axis=None, out=None, keepdims=False, **k: array_ufunc(
    np.logical_and, "reduce", (a,), dict(axis=axis, keepdims=_val(keepdims, False))
)


def _count(shape, axis):
    n = 1
    for a in _norm_axes(axis, len(shape)):
        n *= shape[a]
    return n


@impl("mean")
def fn_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if not isinstance(a, _ndarray):
        a = asym(a)
    where = _val(where, True)
    if where is not True:
        n = fn_sum(wrap(to_obj(where)).astype(float), axis=axis, keepdims=_val(keepdims, False))
        return np.divide(fn_sum(a, axis=axis, keepdims=_val(keepdims, False), where=where), n)
    s = fn_sum(a, axis=axis, keepdims=_val(keepdims, False))
    r = np.divide(s, float(_count(a.shape, axis))) if isinstance(s, _ndarray) else C.div(s, float(_count(a.shape, axis)))
    if out is not None:
        out[...] = r
        return out
    return r


FN["nanmean"] = fn_mean
FN["nansum"] = fn_sum


@impl("average")
def fn_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return fn_mean(a, axis=axis)
    a = asym(a)
    w = asym(weights)
    if w.shape != a.shape:
        ax = _norm_axes(axis, a.ndim)[0]
        w = w.reshape([-1 if i == ax else 1 for i in range(a.ndim)])
        w = np.broadcast_to(w, a.shape)
    return np.divide(fn_sum(a * w, axis=axis), fn_sum(w, axis=axis))


@impl("var")
def fn_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    a = asym(a)
    m = fn_mean(a, axis=axis, keepdims=True)
    d = a - m
    d2 = d * d
    n = _count(a.shape, axis) - ddof
    s = fn_sum(d2, axis=axis, keepdims=_val(keepdims, False))
    return np.divide(s, float(n)) if isinstance(s, _ndarray) else C.div(s, float(n))


FN["std"] = lambda a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k: np.sqrt(
    fn_var(a, axis=axis, ddof=ddof, keepdims=_val(keepdims, False))
)


def asym(a):
    return a if isinstance(a, SymArray) else wrap(to_obj(a))


@impl("clip")
def fn_clip(a, a_min=None, a_max=None, out=None, *, min=None, max=None, **k):
    lo = _val(a_min) if a_min is not None and a_min is not np._NoValue else _val(min)
    hi = _val(a_max) if a_max is not None and a_max is not np._NoValue else _val(max)
    r = a
    if lo is not None:
        r = np.fmax(r, lo)
    if hi is not None:
        r = np.fmin(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r if r is not a else a.copy()


@impl("round", "around")
def fn_round(a, decimals=0, out=None):
    if decimals == 0:
        return np.rint(a)
    s = 10.0**decimals
    return np.rint(a * s) / s


FN["fix"] = lambda x, out=None: np.trunc(x)
FN["real"] = lambda a: a.real
FN["imag"] = lambda a: a.imag
FN["angle"] = lambda a, deg=False: wrap_any(_vec(C.arg)(a), F64)
FN["iscomplexobj"] = lambda a: lie(a).kind == "c"
FN["isrealobj"] = lambda a: lie(a).kind != "c"
FN["isreal"] = lambda a: wrap_any(_vec(lambda v: v.im == 0 if isinstance(v, Cx) else True)(a), BOOL)


@impl("where")
def fn_where(c, x=None, y=None):
    if x is None and y is None:
        return fn_nonzero(asym(c))
    ld = np.result_type(lie(x), lie(y)) if not (isinstance(x, (int, float)) or isinstance(y, (int, float))) else None
    if ld is None:
        ld = lie(x) if isinstance(y, (int, float)) else lie(y)
        if ld.kind in "biu" and (isinstance(x, float) or isinstance(y, float)):
            ld = F64
    r = _vec(ite)(c, x, y)
    return wrap_any(r, ld) if isinstance(r, _ndarray) and r.ndim else (wrap(r, ld) if isinstance(r, _ndarray) else r)


@impl("nonzero", "flatnonzero", "argwhere")
def fn_nonzero(a):
    a = asym(a)
    o = raw(a)
    m = _orig_empty(o.shape, dtype=bool)
    for ix in np.ndindex(*o.shape):
        m[ix] = bool(o[ix] != 0) if not isinstance(o[ix], (SymBool, bool, np.bool_)) else bool(o[ix])
    return np.nonzero(m)


FN["flatnonzero"] = lambda a: fn_nonzero(asym(a).ravel())[0]
FN["argwhere"] = lambda a: np.stack(fn_nonzero(a), axis=-1)


@impl("count_nonzero")
def fn_count_nonzero(a, axis=None, keepdims=False):
    return fn_sum(wrap(_vec(lambda v: ite(v != 0, 1, 0))(a), int), axis=axis, keepdims=keepdims)


def fn_argext(a, axis, is_max):
    o = raw(asym(a))
    if axis is None:
        return _argext1(list(o.reshape(-1)), is_max)
    axis = _norm_axes(axis, o.ndim)[0]
    b = np.moveaxis(o, axis, -1)
    out = _orig_empty(b.shape[:-1], dtype=np.intp)
    for ix in np.ndindex(*b.shape[:-1]):
        out[ix] = _argext1(list(b[ix]), is_max)
    return out if out.ndim else int(out)


def _argext1(vals, is_max):
    """Index of the extremum by forking (first among equals, as numpy)."""
    best = 0
    for i in range(1, len(vals)):
        c = (vals[i] > vals[best]) if is_max else (vals[i] < vals[best])
        if bool(c):
            best = i
    return np.intp(best)


FN["argmax"] = lambda a, axis=None, out=None, **k: fn_argext(a, axis, True)
FN["argmin"] = lambda a, axis=None, out=None, **k: fn_argext(a, axis, False)
FN["nanargmax"], FN["nanargmin"] = FN["argmax"], FN["argmin"]


def _sort1(vals):
    """Sorting network (no forks)."""
    v = list(vals)
    n = len(v)
    for i in range(n):
        for j in range(i % 2, n - 1, 2):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = C.smin(a, b), C.smax(a, b)
    return v


@impl("sort")
def fn_sort(a, axis=-1, **k):
    a = asym(a)
    o = raw(a)
    if axis is None:
        o = o.reshape(-1)
        axis = -1
    b = np.moveaxis(o, axis, -1)
    out = _orig_empty(b.shape, dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        for i, v in enumerate(_sort1(b[ix])):
            out[ix + (i,)] = v
    return wrap(np.moveaxis(out, -1, axis), a._ld)


@impl("argsort")
def fn_argsort(a, axis=-1, **k):
    import functools

    o = raw(asym(a))
    if axis is None:
        o = o.reshape(-1)
        axis = -1
    b = np.moveaxis(o, axis, -1)
    out = _orig_empty(b.shape, dtype=np.intp)
    for ix in np.ndindex(*b.shape[:-1]):
        vals = list(b[ix])
        out[ix] = sorted(range(len(vals)), key=functools.cmp_to_key(lambda i, j: -1 if bool(vals[i] < vals[j]) else (1 if bool(vals[j] < vals[i]) else 0)))
    return np.moveaxis(out, -1, axis)


@impl("median")
def fn_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return fn_percentile(a, 50, axis=axis, keepdims=keepdims)


@impl("percentile")
def fn_percentile(a, q, axis=None, out=None, overwrite_input=False, method="linear", keepdims=False, **k):
    a = asym(a)
    o = raw(a)
    axes = _norm_axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in axes]
    b = o.transpose(rest + list(axes)).reshape([o.shape[i] for i in rest] + [-1])
    qs = np.atleast_1d(np.asarray(conc_tree(q), dtype=float))
    n = b.shape[-1]
    res = _orig_empty((len(qs),) + b.shape[:-1], dtype=object)
    for ix in np.ndindex(*b.shape[:-1]):
        s = _sort1(b[ix])
        for i, qq in enumerate(qs):
            p = qq / 100 * (n - 1)
            lo = int(math.floor(p))
            hi = builtins.min(lo + 1, n - 1)
            w = p - lo
            res[(i,) + ix] = C.add(C.mul(s[lo], 1 - w), C.mul(s[hi], w)) if w else s[lo]
    if np.ndim(q) == 0:
        res = res[0]
    if keepdims:
        shp = [1 if i in axes else o.shape[i] for i in range(o.ndim)]
        res = res.reshape(shp if np.ndim(q) == 0 else [len(qs)] + shp)
    if isinstance(res, _ndarray) and res.ndim == 0:
        return res[()]
    return wrap_any(res, F64)


FN["quantile"] = lambda a, q, axis=None, **k: fn_percentile(a, np.asarray(q) * 100, axis=axis, **k)


def fn_dot(a, b):
    if not (isinstance(a, _ndarray) or isinstance(b, _ndarray)):
        return C.mul(a, b) if not isinstance(a, list) else fn_dot(asym(a), asym(b))
    ao, bo = to_obj(a), to_obj(b)
    if ao.ndim == 0 or bo.ndim == 0:
        return asym(a) * b
    ld = _result_ld("multiply", (a, b))
    return wrap_any(wrapint(_dot(ao, bo), ld), ld)


def _dot(a, b):
    if a.ndim == 1 and b.ndim == 1:
        if a.shape != b.shape:
            raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
        return _sum([C.mul(x, y) for x, y in zip(a, b)])
    bm = b if b.ndim == 1 else np.moveaxis(b, -2, 0)
    if a.shape[-1] != bm.shape[0]:
        raise ValueError(f"shapes {a.shape} and {b.shape} not aligned")
    outshape = a.shape[:-1] + (bm.shape[1:] if b.ndim > 1 else ())
    af = a.reshape(-1, a.shape[-1])
    bf = bm.reshape(bm.shape[0], -1)
    out = _orig_empty((af.shape[0], bf.shape[1]), dtype=object)
    for i in range(af.shape[0]):
        for j in range(bf.shape[1]):
            out[i, j] = _sum([C.mul(x, y) for x, y in zip(af[i], bf[:, j])]) if af.shape[1] else 0.0
    return out.reshape(outshape)


FN["dot"] = lambda a, b, out=None: fn_dot(a, b)


@impl("vdot")
def fn_vdot(a, b):
    return fn_dot(np.conjugate(asym(a)).ravel(), asym(b).ravel())


@impl("einsum")
def fn_einsum(*ops, **k):
    k.pop("optimize", None)
    k.pop("out", None)
    lds: list = []
    return wrap_any(np.einsum(*_strip(tuple(ops), lds), **k))


@impl("cross", "linalg.cross")
def fn_cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a = np.moveaxis(asym(a), axisa, -1)
    b = np.moveaxis(asym(b), axisb, -1)
    if a.shape[-1] == 2 and b.shape[-1] == 2:
        return a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0]
    r = [
        a[..., 1] * b[..., 2] - a[..., 2] * b[..., 1],
        a[..., 2] * b[..., 0] - a[..., 0] * b[..., 2],
        a[..., 0] * b[..., 1] - a[..., 1] * b[..., 0],
    ]
    r = np.stack([asym(x) if not isinstance(x, _ndarray) else x for x in r], axis=-1)
    return np.moveaxis(r, -1, axisc)


@impl("diff")
def fn_diff(a, n=1, axis=-1, prepend=np._NoValue, append=np._NoValue):
    a = asym(a)
    parts = []
    for p, pos in ((prepend, 0), (append, 1)):
        if p is not np._NoValue:
            p = np.asanyarray(p) if not isinstance(p, (SymArray, Sym)) else asym(p)
            if p.ndim == 0:
                shp = list(a.shape)
                shp[axis] = 1
                p = np.broadcast_to(p, tuple(shp))
            parts.append((p, pos))
    for p, pos in parts:
        a = np.concatenate([p, a] if pos == 0 else [a, p], axis=axis)
    for _ in range(n):
        s1 = [slice(None)] * a.ndim
        s2 = [slice(None)] * a.ndim
        s1[axis] = slice(1, None)
        s2[axis] = slice(None, -1)
        if a._ld.kind == "b":
            a = wrap(_vec(_b_xor)(a[tuple(s1)], a[tuple(s2)]), BOOL)
        else:
            a = a[tuple(s1)] - a[tuple(s2)]
            a = asym(a)
    return a


FN["ediff1d"] = lambda a, **k: fn_diff(asym(a).ravel())
FN["cumsum"] = lambda a, axis=None, dtype=None, out=None: asym(a).cumsum(axis)
FN["cumprod"] = lambda a, axis=None, dtype=None, out=None: asym(a).cumprod(axis)


@impl("gradient")
def fn_gradient(f, *varargs, axis=None, edge_order=1):
    if varargs or edge_order != 1:
        raise Unsupported("np.gradient options")
    f = asym(f)
    axes = _norm_axes(axis, f.ndim)
    outs = []
    for ax in axes:
        g = np.moveaxis(f, ax, 0)
        o = _orig_empty(g.shape, dtype=object)
        o[1:-1] = raw((g[2:] - g[:-2]) / 2.0)
        o[0] = raw(g[1] - g[0]) if g.ndim > 1 else g[1] - g[0]
        o[-1] = raw(g[-1] - g[-2]) if g.ndim > 1 else g[-1] - g[-2]
        outs.append(wrap(np.moveaxis(o, 0, ax), F64))
    return outs[0] if len(outs) == 1 else outs


@impl("pad")
def fn_pad(array, pad_width, mode="constant", **kwargs):
    a = asym(array)
    o = raw(a)
    pw = conc_tree(pad_width)
    if callable(mode):
        raise Unsupported("np.pad callable mode")
    if mode == "constant":
        cv = kwargs.pop("constant_values", 0)
        if any_sym(cv):
            if not isinstance(cv, (Sym, SymBool)) :
                raise Unsupported("np.pad symbolic constants")
            idx = np.pad(np.arange(1, o.size + 1).reshape(o.shape), pw, mode="constant", constant_values=0)
            f = o.reshape(-1)
            out = _orig_empty(idx.shape, dtype=object)
            for ix in np.ndindex(*idx.shape):
                out[ix] = f[idx[ix] - 1] if idx[ix] else cv
            return wrap(out, a._ld)
        return wrap(np.pad(o, pw, mode=mode, constant_values=conc_tree(cv), **kwargs), a._ld)
    if mode in ("edge", "wrap", "reflect", "symmetric"):
        idx = np.pad(np.arange(o.size).reshape(o.shape), pw, mode=mode, **kwargs)
        return wrap(o.reshape(-1)[idx], a._ld)
    from . import lib

    return lib.linear(lambda x: np.pad(x, pw, mode=mode, **kwargs), a)


@impl("zeros_like")
def fn_zeros_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _like(a, dtype, shape, 0)


@impl("empty_like")
def fn_empty_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    r = _like(a, dtype, shape, 0)
    if isinstance(r, SymArray) and C.ENG is not None:
        o = raw(r)
        for ix in np.ndindex(*o.shape):  # uninitialised memory: arbitrary contents
            o[ix] = Sym(C.eng().fresh("uninit"))
    return r


@impl("ones_like")
def fn_ones_like(a, dtype=None, order="K", subok=True, shape=None, **k):
    return _like(a, dtype, shape, 1)


@impl("full_like")
def fn_full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None, **k):
    return _like(a, dtype, shape, fill_value)


def _like(a, dtype, shape, v):
    dt = np.dtype(_fixdt(dtype)) if dtype is not None else lie(a)
    shp = a.shape if shape is None else shape
    if dt.kind in "biu" and not C.is_sym(v):
        return _orig_full(shp, v, dtype=dt)
    return mk(shp, cast_elem(v, dt), dt)


def mk(shape, v, dt):
    o = _orig_empty(shape, dtype=object)
    o.fill(v)
    r = o.view(SymArray)
    r._ld = np.dtype(dt)
    return r


@impl("result_type")
def fn_result_type(*xs):
    return np.result_type(*[lie(x) if isinstance(x, (SymArray, Sym, SymBool)) else x for x in xs])


FN["can_cast"] = lambda a, b, casting="safe": np.can_cast(lie(a) if isinstance(a, _ndarray) else a, b, casting)
FN["common_type"] = lambda *a: F64.type
FN["min_scalar_type"] = lambda a: lie(a)


@impl("isclose")
def fn_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return np.less_equal(np.abs(np.subtract(a, b)), np.add(atol, np.multiply(rtol, np.abs(b))))


@impl("allclose")
def fn_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = fn_isclose(a, b, rtol, atol)
    r = r.all() if isinstance(r, _ndarray) else r
    return bool(r)


@impl("array_equal")
def fn_array_equal(a, b, equal_nan=False):
    a, b = asym(a), asym(b)
    if a.shape != b.shape:
        return False
    return bool((a == b).all())


@impl("array_equiv")
def fn_array_equiv(a, b):
    return bool((asym(a) == b).all())


@impl("nan_to_num")
def fn_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        if isinstance(v, Sym):
            if v.pz is None:
                return v
            return Sym(z3.If(v.pz, C.eng().fresh("nn"), v.e))
        return np.nan_to_num(v)

    return wrap_any(_vec(f)(x), lie(x))


@impl("copyto")
def fn_copyto(dst, src, casting="same_kind", where=True):
    if not isinstance(dst, SymArray):
        raise Unsupported("copyto native")
    if where is True:
        dst[...] = src
    else:
        raw(dst)[...] = _vec(ite)(where, src, dst)


@impl("fill_diagonal")
def fn_fill_diagonal(a, val, wrap=False):
    o = raw(a)
    for i in range(builtins.min(o.shape)):
        o[(i,) * o.ndim] = val


@impl("trapezoid", "trapz")
def fn_trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(asym(y), axis, -1)
    d = dx if x is None else np.diff(x, axis=-1)
    return fn_sum((y[..., 1:] + y[..., :-1]) * d / 2.0, axis=-1)


@impl("interp")
def fn_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("interp period")
    xp, fp = list(to_obj(xp).reshape(-1)), list(to_obj(fp).reshape(-1))

    def f(v):
        r = fp[-1] if right is None else right
        if right is not None:
            r = ite(v == xp[-1], fp[-1], right)
        for i in range(len(xp) - 2, -1, -1):
            t = C.div(C.sub(v, xp[i]), C.sub(xp[i + 1], xp[i]))
            seg = C.add(C.mul(fp[i], C.sub(1.0, t)), C.mul(fp[i + 1], t))
            r = ite(v < xp[i + 1], seg, r)
        return ite(v < xp[0], fp[0] if left is None else left, r)

    return wrap_any(_vec(f)(x), F64)


@impl("bincount")
def fn_bincount(x, weights=None, minlength=0):
    if any_sym(x):
        x = _force_index(asym(x))
    x = np.asarray(conc_tree(x))
    n = builtins.max(int(x.max()) + 1 if x.size else 0, minlength)
    if weights is None:
        return np.bincount(x, minlength=minlength)
    w = to_obj(weights)
    if w.shape != x.shape:
        raise ValueError("The weights and list don't have the same length.")
    groups = [[] for _ in range(n)]
    for i, v in zip(x, w):
        groups[i].append(v)
    out = _orig_empty(n, dtype=object)
    for i in range(n):
        out[i] = _sum(groups[i]) if groups[i] else 0.0
    return wrap(out, F64)


@impl("searchsorted")
def fn_searchsorted(a, v, side="left", sorter=None):
    ao = list(to_obj(a))

    def f(x):
        n = 0
        for y in ao:
            c = (y < x) if side == "left" else (y <= x)
            n = C.add(n, ite(c, 1, 0))
        return n

    r = _vec(f)(v)
    return wrap_any(r, np.dtype(int))


@impl("unravel_index")
def fn_unravel_index(indices, shape, order="C"):
    if order != "C":
        raise Unsupported("unravel_index order")
    shape = (shape,) if isinstance(shape, int) else tuple(int(q) for q in shape)
    res, rest = [], indices
    for q in shape[:0:-1]:
        res.append(rest % q)
        rest = rest // q
    return tuple([rest] + res[::-1])


@impl("unique")
def fn_unique(*a, **k):
    raise Unsupported("np.unique of symbolic values")


@impl("select")
def fn_select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = np.where(c, v, r)
    return r


@impl("apply_along_axis")
def fn_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    a = np.moveaxis(asym(arr), axis, -1)
    res = None
    for ix in np.ndindex(*a.shape[:-1]):
        r = func1d(a[ix], *args, **kwargs)
        ro = to_obj(r) if not C.is_conc(r) else C._obj0(r)
        if res is None:
            res = _orig_empty(a.shape[:-1] + ro.shape, dtype=object)
        res[ix] = ro if ro.ndim else ro[()]
    w = wrap(res)
    return np.moveaxis(w, -1, axis) if w.ndim == a.ndim else w


@impl("polyval")
def fn_polyval(p, x):
    r = 0.0
    for c in p:
        r = r * x + c
    return r


@impl("vander")
def fn_vander(x, N=None, increasing=False):
    x = asym(x)
    N = N or len(x)
    cols = [x**i for i in range(N)]
    cols = [asym(c) if isinstance(c, _ndarray) else mk(x.shape, 1.0, F64) for c in cols]
    return np.stack(cols if increasing else cols[::-1], axis=-1)


# linear algebra -------------------------------------------------------------
@impl("linalg.norm")
def fn_norm(x, ord=None, axis=None, keepdims=False):
    x = asym(x)
    if axis is None:
        if ord is None or (ord in ("fro", "f") and x.ndim == 2) or (ord == 2 and x.ndim == 1):
            v = x.ravel()
            r = C.sqrt(_sum([_abs2(e) for e in raw(v)]))
            return wrap(C._obj0(r), F64).reshape((1,) * x.ndim) if keepdims else r
        if x.ndim == 1:
            axis = 0
        elif x.ndim == 2:
            if ord == 1:
                return np.abs(x).sum(axis=0).max()
            if ord == np.inf:
                return np.abs(x).sum(axis=1).max()
            if ord == 2 or ord == -2 or ord == "nuc":
                raise Unsupported("matrix 2-norm")
            raise Unsupported(f"matrix norm {ord}")
        else:
            raise ValueError("Improper number of dimensions to norm.")
    if isinstance(axis, (tuple, list)) and len(axis) == 2:
        if ord in (None, "fro", "f"):
            s = fn_sum(wrap(_vec(_abs2)(x), F64), axis=tuple(axis), keepdims=keepdims)
            return np.sqrt(s)
        raise Unsupported("matrix norm over axes")
    if isinstance(axis, (tuple, list)):
        axis = axis[0]
    if ord is None or ord == 2:
        s = fn_sum(wrap(_vec(_abs2)(x), F64), axis=axis, keepdims=keepdims)
        return np.sqrt(s)
    a = np.abs(x)
    if ord == 1:
        return fn_sum(a, axis=axis, keepdims=keepdims)
    if ord == np.inf:
        return a.max(axis=axis, keepdims=keepdims)
    if ord == -np.inf:
        return a.min(axis=axis, keepdims=keepdims)
    if ord == 0:
        return fn_sum(wrap(_vec(lambda v: ite(v != 0, 1.0, 0.0))(x), F64), axis=axis, keepdims=keepdims)
    return np.power(fn_sum(np.power(a, ord), axis=axis, keepdims=keepdims), 1.0 / ord)


FN["linalg.vector_norm"] = lambda x, axis=None, keepdims=False, ord=2: fn_norm(
    asym(x).ravel() if axis is None else x, ord=ord, axis=0 if axis is None else axis, keepdims=keepdims
)


def _abs2(e):
    if isinstance(e, Cx):
        return e.abs2()
    if isinstance(e, complex):
        return abs(e) ** 2
    return C.mul(e, e)


def _solve(A, B):
    """Exact Gaussian elimination with symbolic pivoting by forking on zero pivots."""
    n = A.shape[0]
    A = A.copy()
    B = B.copy()
    for i in range(n):
        p = None
        for r in range(i, n):
            v = A[r, i]
            if C.is_conc(v):
                if v != 0 and (p is None):
                    p = r
                    break
            else:
                if bool(v != 0):
                    p = r
                    break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if p != i:
            A[[i, p]] = A[[p, i]]
            B[[i, p]] = B[[p, i]]
        piv = A[i, i]
        for r in range(n):
            if r == i:
                continue
            fct = C.div(A[r, i], piv)
            if C.is_conc(fct) and fct == 0:
                continue
            for c in range(i + 1, n):
                A[r, c] = C.sub(A[r, c], C.mul(fct, A[i, c]))
            A[r, i] = 0.0
            for c in range(B.shape[1]):
                B[r, c] = C.sub(B[r, c], C.mul(fct, B[i, c]))
    for i in range(n):
        for c in range(B.shape[1]):
            B[i, c] = C.div(B[i, c], A[i, i])
    return B


@impl("linalg.solve")
def fn_solve(a, b):
    ao, bo = to_obj(a), to_obj(b)
    if ao.ndim != 2:
        raise Unsupported("batched solve")
    v = bo.ndim == 1
    r = _solve(ao, bo.reshape(bo.shape[0], -1))
    return wrap(r[:, 0] if v else r, F64)


@impl("linalg.inv")
def fn_inv(a):
    ao = to_obj(a)
    if ao.ndim != 2:
        out = _orig_empty(ao.shape, dtype=object)
        for ix in np.ndindex(*ao.shape[:-2]):
            out[ix] = raw(fn_inv(wrap(ao[ix])))
        return wrap(out, F64)
    return wrap(_solve(ao, np.eye(ao.shape[0]).astype(object)), F64)


@impl("linalg.det")
def fn_det(a):
    ao = to_obj(a)
    n = ao.shape[0]
    if n == 1:
        return ao[0, 0]
    r = 0.0
    for j in range(n):
        minor = np.delete(ao[1:], j, axis=1)
        t = C.mul(ao[0, j], fn_det(minor))
        r = C.add(r, t) if j % 2 == 0 else C.sub(r, t)
    return r


@impl("linalg.lstsq")
def fn_lstsq(a, b, rcond=None):
    """Normal equations (full column rank contract); residual is exact."""
    ao, bo = asym(a), asym(b)
    v = bo.ndim == 1
    B = bo.reshape(bo.shape[0], -1)
    At = ao.T
    x = _solve(raw(fn_dot(At, ao)), raw(fn_dot(At, B)))
    x = wrap(x, F64)
    res = fn_sum((fn_dot(ao, x) - B) ** 2, axis=0)
    if v:
        x = x[:, 0]
    return x, res, ao.shape[1], np.ones(ao.shape[1])


@impl("linalg.pinv")
def fn_pinv(a, *k, **kw):
    raise Unsupported("pinv of symbolic matrix")


@impl("linalg.svd")
def fn_svd(a, full_matrices=True, compute_uv=True, hermitian=False):
    from . import lib

    return lib.svd_contract(asym(a), full_matrices, compute_uv)


@impl("linalg.qr")
def fn_qr(a, mode="reduced"):
    """Gram-Schmidt, R with positive diagonal up to sign: contract Q orthonormal, A = QR."""
    A = to_obj(a)
    m, n = A.shape
    if m < n:
        raise Unsupported("wide symbolic QR")
    Q = _orig_empty((m, n), dtype=object)
    R = _orig_zeros((n, n)).astype(object)
    for j in range(n):
        v = A[:, j].copy()
        for i in range(j):
            r = _dot(Q[:, i], A[:, j])
            R[i, j] = r
            for k in range(m):
                v[k] = C.sub(v[k], C.mul(r, Q[k, i]))
        nv = C.sqrt(_dot(v, v))
        R[j, j] = nv
        for k in range(m):
            Q[k, j] = C.div(v[k], nv)
    return wrap(Q, F64), wrap(R, F64)


@impl("linalg.matrix_power")
def fn_mpow(a, n):
    r = wrap(np.eye(a.shape[0]).astype(object), F64)
    for _ in range(n):
        r = fn_dot(r, a)
    return r


@impl("linalg.multi_dot")
def fn_multidot(arrays, out=None):
    r = arrays[0]
    for x in arrays[1:]:
        r = fn_dot(r, x)
    return r


@impl("convolve")
def fn_convolve(a, v, mode="full"):
    a, v = list(to_obj(a)), list(to_obj(v))
    if len(v) > len(a):
        a, v = v, a
    n = len(a) + len(v) - 1
    full = _orig_empty(n, dtype=object)
    for k in range(n):
        full[k] = _sum([C.mul(a[i], v[k - i]) for i in range(len(a)) if 0 <= k - i < len(v)])
    if mode == "full":
        r = full
    elif mode == "same":
        s = (len(v) - 1) // 2
        r = full[s : s + len(a)]
    else:
        r = full[len(v) - 1 : len(a)]
    return wrap(r, F64)


@impl("correlate")
def fn_correlate(a, v, mode="valid"):
    return fn_convolve(a, list(to_obj(v))[::-1], mode)


@impl("iscomplex")
def fn_iscomplex(x):
    return wrap_any(_vec(lambda v: v.im != 0 if isinstance(v, Cx) else False)(x), BOOL)


@impl("may_share_memory", "shares_memory")
def fn_shares(a, b, max_work=None):
    return np.shares_memory(raw(a), raw(b))


@impl("array_repr", "array_str", "array2string")
def fn_repr(a, *k, **kw):
    return repr(a)
