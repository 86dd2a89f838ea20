"""Harness context: the same harness body runs symbolically and concretely."""

from __future__ import annotations

import math
from fractions import Fraction

import numpy as np

CASES: dict = {}


class Case:
    def __init__(self, prop, name, fn, quick, kw, opts):
        self.prop, self.name, self.fn, self.quick, self.kw, self.opts = prop, name, fn, quick, kw, opts


BOTH = {"P02", "P04", "P07", "P12", "P13", "P18", "P20", "P23", "P24", "P29"}  # quick enough to run all cases in both precisions


def case(prop, name=None, quick=True, params=None, thorough_params=None, **opts):
    """Register a harness. ``params``: list of dicts, one case each.

    Arrays are of double precision in every other case, of single precision in the others (both in those of ``BOTH``)."""

    def deco(fn):
        base = name or fn.__name__
        for ps, q in ((params if params is not None else ([{}] if thorough_params is None else []), quick), (thorough_params or [], False)):
            for i, p in enumerate(ps):
                nm = base + ("" if not p else "[" + ",".join(f"{v}" for v in p.values()) + "]")
                nm = nm.replace(" ", "").replace("'", "")
                if (prop, nm) in CASES:
                    raise ValueError(f"duplicate case {nm}")
                CASES[(prop, nm)] = Case(prop, nm, fn, q, p, dict(opts, f32=prop not in BOTH and i % 2 == 1))
                if prop in BOTH:
                    nm = base + "_f32" + nm[len(base) :]
                    CASES[(prop, nm)] = Case(prop, nm, fn, q, p, dict(opts, f32=True))
        return fn

    return deco


class ViolationFound(BaseException):
    def __init__(self, check, inputs, detail):
        self.check, self.inputs, self.detail = check, inputs, detail


class AssumeFailed(BaseException):
    pass


def _flat(a):
    """Elements of a scalar / array / nested sequence of them."""
    if isinstance(a, np.ndarray):
        o = a.view(np.ndarray) if type(a) is not np.ndarray else a
        return list(o.reshape(-1)) if o.ndim else [o[()]]
    if isinstance(a, (list, tuple)):
        r = []
        for x in a:
            r += _flat(x)
        return r
    return [a]


def _shape(a):
    return a.shape if isinstance(a, np.ndarray) else ((len(a),) if isinstance(a, (list, tuple)) else ())


class Ctx:
    sym = False
    tier = "quick"
    f32 = False  # arrays are of single precision unless told otherwise: conversions to it do not copy them

    def raises(self, name, exc, fn):
        """The call must raise one of ``exc``."""
        try:
            fn()
        except exc:
            self.check(name, True)
            return
        self.check(name, False)


class ConcCtx(Ctx):
    """Runs the harness on the real, unpatched code."""

    def __init__(self, inputs, tier="quick"):
        self.vals = inputs
        self.failures = []
        self.obs = []
        self.tier = tier
        self.nchecks = 0

    def real(self, name, lo=None, hi=None):
        v = self.vals.get(name)
        if v is None:
            v = _default(lo, hi)
        return np.float64(v)

    def integer(self, name, lo, hi):
        v = self.vals.get(name)
        return int(lo if v is None else round(v))

    def boolean(self, name):
        return bool(self.vals.get(name, False))

    def array(self, name, shape, lo=None, hi=None, dtype=None):
        dtype = dtype if dtype is not None else np.float32 if self.f32 else np.float64
        a = np.empty(shape, dtype=np.float64)
        for ix in np.ndindex(*a.shape):
            a[ix] = self.real(_nm(name, ix), lo, hi)
        return a.astype(dtype)

    def boolarray(self, name, shape):
        a = np.empty(shape, dtype=bool)
        for ix in np.ndindex(*a.shape):
            a[ix] = self.boolean(_nm(name, ix))
        return a

    def intarray(self, name, shape, lo, hi, dtype=int):
        a = np.empty(shape, dtype=int)
        for ix in np.ndindex(*a.shape):
            a[ix] = self.integer(_nm(name, ix), lo, hi)
        return a.astype(dtype)

    def permutation(self, name, n):
        return np.array([self.integer(f"{name}_{i}", 0, n - 1) for i in range(n)])

    def assume(self, cond):
        if isinstance(cond, np.ndarray):
            cond = cond.all()
        if not bool(cond):
            raise AssumeFailed()

    def check(self, name, cond):
        self.nchecks += 1
        if isinstance(cond, np.ndarray):
            cond = bool(np.all(cond))
        ok = bool(cond)
        self.obs.append((name, [1.0 if ok else 0.0], None))
        if not ok:
            self.failures.append((name, "condition is false"))

    def close(self, name, a, b, tol=1e-5, rtol=1e-5):
        self.nchecks += 1
        if self.f32:
            tol, rtol = max(tol, 2e-3), max(rtol, 1e-3)
        if _shape(a) != _shape(b) and np.ndim(b) != 0:
            self.failures.append((name, f"shape {_shape(a)} != {_shape(b)}"))
            return
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1 and len(fa) > 1:
            fb = fb * len(fa)
        self.obs.append((name, [_num(x) for x in fa], None))
        self.obs.append((name + "/ref", [_num(x) for x in fb], None))
        worst, bad = 0.0, None
        for i, (x, y) in enumerate(zip(fa, fb)):
            x, y = complex(x), complex(y)
            d = abs(x - y)
            if math.isnan(d) or d > tol + rtol * abs(y):
                if bad is None or (not math.isnan(worst) and (math.isnan(d) or d > worst)):
                    worst, bad = d, (i, x, y)
        if bad is not None:
            self.failures.append((name, f"element {bad[0]}: {bad[1]} vs {bad[2]}"))

    def le(self, name, a, b, tol=1e-6, rtol=1e-5):
        self.nchecks += 1
        if self.f32:
            tol, rtol = max(tol, 2e-3), max(rtol, 1e-3)
        fa, fb = _flat(a), _flat(b)
        if len(fb) == 1:
            fb = fb * len(fa)
        if len(fa) == 1:
            fa = fa * len(fb)
        self.obs.append((name, [_num(x) for x in fa], None))
        for i, (x, y) in enumerate(zip(fa, fb)):
            if not (x <= y + tol + rtol * abs(y)):
                self.failures.append((name, f"element {i}: {x} > {y}"))
                return

    def finite(self, name, a):
        self.nchecks += 1
        for i, x in enumerate(_flat(a)):
            if not np.isfinite(x):
                self.failures.append((name, f"element {i} is {x}"))
                return

    def shape(self, name, a, shape):
        self.check(name, tuple(_shape(a)) == tuple(int(s) for s in shape))

    def observe(self, name, a):
        self.obs.append((name, [_num(x) for x in _flat(a)], None))

    def concretize(self, v):
        return v

    def stub_random(self, **k):
        pass

    def exp_anchors(self, xs):
        pass

    def ite(self, c, a, b):
        return a if bool(c) else b

    def log(self, x):
        return np.log(x)


def _num(x):
    try:
        if isinstance(x, (complex, np.complexfloating)):
            return [float(x.real), float(x.imag)]
        return float(x)
    except (TypeError, ValueError):
        return None


def _nm(name, ix):
    return name + "_" + "_".join(str(i) for i in ix) if ix else name


def _default(lo, hi):
    if lo is None and hi is None:
        return 0.0
    if lo is None:
        return float(hi) - 1.0
    if hi is None:
        return float(lo) + 1.0
    return (float(lo) + float(hi)) / 2


def make_sym_ctx():
    """SymCtx lives behind a function: importing z3 is not needed for replay."""
    import z3

    from . import arr as A
    from . import core as C
    from .core import Sym, SymBool

    class SymCtx(Ctx):
        sym = True

        def __init__(self, engine, tier, seed):
            self.E = engine
            self.tier = tier
            self.seed = seed
            self.log_checks = []
            self.obs = []

        # -- inputs
        def _decl(self, name, term, kind):
            if name in self.E.inputs:
                raise ValueError(f"duplicate input {name}")
            self.E.inputs[name] = (term, kind)

        def real(self, name, lo=None, hi=None):
            v = z3.Real(name)
            self._decl(name, v, ("real", lo, hi))
            if lo is not None:
                self.E.axiom(v >= C.zq(lo))
            if hi is not None:
                self.E.axiom(v <= C.zq(hi))
            return Sym(v)

        def integer(self, name, lo, hi):
            v = z3.Int(name)
            self._decl(name, v, ("int", lo, hi))
            self.E.axiom(z3.And(v >= int(lo), v <= int(hi)))
            return Sym(z3.ToReal(v))

        def boolean(self, name):
            v = z3.Bool(name)
            self._decl(name, v, ("bool", 0, 1))
            return SymBool(v)

        def array(self, name, shape, lo=None, hi=None, dtype=None):
            dtype = dtype if dtype is not None else np.float32 if self.f32 else np.float64
            o = np.empty(shape, dtype=object)
            for ix in np.ndindex(*o.shape):
                o[ix] = self.real(_nm(name, ix), lo, hi)
            return A.wrap(o, dtype)

        def boolarray(self, name, shape):
            o = np.empty(shape, dtype=object)
            for ix in np.ndindex(*o.shape):
                o[ix] = self.boolean(_nm(name, ix))
            return A.wrap(o, bool)

        def intarray(self, name, shape, lo, hi, dtype=int):
            o = np.empty(shape, dtype=object)
            for ix in np.ndindex(*o.shape):
                o[ix] = self.integer(_nm(name, ix), lo, hi)
            return A.wrap(o, dtype)

        def permutation(self, name, n):
            o = np.empty(n, dtype=object)
            for i in range(n):
                o[i] = self.integer(f"{name}_{i}", 0, n - 1)
            self.E.axiom(z3.Distinct(*[x.e for x in o]))
            return A.wrap(o, int)

        def concretize(self, v):
            return C.concretize_int(v) if isinstance(v, Sym) else v

        def exp_anchors(self, xs):
            """Known points of the exponential: order facts of symbolic exponentials against constants."""
            for x in xs:
                C._explog_register(self.E, C.zq(x), C.zq(math.exp(x)))

        def ite(self, c, a, b):
            return C.ite(c, a, b)

        def log(self, x):
            return np.log(x)

        # -- assumptions and checks
        def _cond(self, cond):
            if isinstance(cond, np.ndarray):
                cs = [SymBool.lift(c) for c in _flat(cond)]
                return z3.And(*cs) if cs else z3.BoolVal(True)
            if isinstance(cond, SymBool):
                return cond.e
            return z3.BoolVal(bool(cond))

        def assume(self, cond):
            c = z3.simplify(self._cond(cond))
            if z3.is_true(c):
                return
            self.E.axiom(c)
            if z3.is_false(c) or self.E.quick() == z3.unsat:
                raise C.PathAbort()

        def check(self, name, cond):
            c = self._cond(cond)
            self.obs.append((name, [z3.If(c, C.zq(1), C.zq(0))]))
            pz = getattr(cond, "pz", None)
            neg = z3.Not(c) if pz is None else z3.Or(z3.Not(c), pz)
            self._prove(name, [neg], "condition can be false")

        def _prove(self, name, negs, detail):
            """negs: list of negated goals, strongest violation first; the last one is the claim."""
            E = self.E
            E.stats.obligations += 1
            sneg = z3.simplify(negs[-1])
            if z3.is_false(sneg):
                E.stats.discharged += 1
                self.log_checks.append((name, "unsat(rewriter)"))
                return
            # prefer a violation with a wide margin: replays robustly
            last = len(negs) - 1
            for i, n in enumerate(negs):
                r, m = E.solve([n], timeout_ms=None if i == last else min(E.query_timeout_ms, 6000))
                if r == z3.sat:
                    raise ViolationFound(name, self.model_inputs(m), detail)
                if r == z3.unknown and i == last:
                    raise C.Inconclusive(f"solver unknown on {name}")
            E.stats.discharged += 1
            self.log_checks.append((name, "unsat"))

        def model_inputs(self, m):
            out = {}
            for n, (t, k) in self.E.inputs.items():
                v = m.eval(t, model_completion=True)
                out[n] = _zval(v)
            return out

        def close(self, name, a, b, tol=1e-5, rtol=0):
            sa, sb = _shape(a), _shape(b)
            if sa != sb and not (sb == ()):
                r, m = self.E.solve([])
                if r == z3.sat:
                    raise ViolationFound(name, self.model_inputs(m), f"shape {sa} != {sb}")
                raise C.Inconclusive("shape mismatch on a path of unknown feasibility")
            fa, fb = _flat(a), _flat(b)
            if len(fb) == 1 and len(fa) > 1:
                fb = fb * len(fa)
            exact, wide, cl = [], [], []
            oa, ob = [], []
            for x, y in zip(fa, fb):
                for p, q in _parts(x, y):
                    pe, pp = self._lift(p)
                    qe, qp = self._lift(q)
                    oa.append(pe), ob.append(qe)
                    pz = C.zor(pp, qp)
                    d = z3.simplify(pe - qe)
                    if not z3.is_rational_value(d):
                        d2 = z3.simplify(d, som=True)
                        d = d2
                    if z3.is_rational_value(d) and abs(float(d.as_fraction())) <= tol:
                        if pz is not None:
                            cl.append(pz), wide.append(pz)
                        continue
                    T_ = C.zq(tol)
                    if pz is None and self._monomials_bound(d, T_):
                        continue
                    cl.append(z3.Or(d > T_, d < -T_))
                    W = C.zq(max(0.05, 20 * tol))
                    wide.append(z3.Or(d > W, d < -W))
                    if pz is not None:
                        cl[-1] = z3.Or(cl[-1], pz)
                        wide[-1] = z3.Or(wide[-1], pz)
            self.obs.append((name, oa))
            self.obs.append((name + "/ref", ob))
            self._split_prove(name, wide, cl, "values differ")

        def _split_prove(self, name, wide, cl, detail):
            cl_s = [c for c in (z3.simplify(c) for c in cl) if not z3.is_false(c)]
            if not cl_s:
                self.E.stats.obligations += 1
                self.E.stats.discharged += 1
                self.log_checks.append((name, "unsat(rewriter)"))
                return
            try:
                self._prove(name, [z3.Or(*wide), z3.Or(*cl)], detail)
            except C.Inconclusive:
                if len(cl) == 1:
                    raise
                for i, (w, c) in enumerate(zip(wide, cl)):
                    self._prove(f"{name}#{i}", [w, c], detail)

        def _monomials_bound(self, d, tol):
            """Decide |d| <= tol with every nonlinear monomial replaced by a variable ranging over its box.

            Weaker hypotheses than the path condition, so 'unsat' carries over."""
            box, cons, vs = {}, [], {}
            for n, (t, (k, lo, hi)) in self.E.inputs.items():
                if k == "real" and lo is not None and hi is not None:
                    box[t.get_id()] = max(abs(float(lo)), abs(float(hi)))

            def rng(e):
                """bound of |e| for a product of inputs, or None"""
                if e.get_id() in box:
                    return box[e.get_id()]
                if z3.is_mul(e):
                    r = 1.0
                    for ch in e.children():
                        b = rng(ch)
                        if b is None:
                            return None
                        r *= b
                    return r
                if z3.is_app_of(e, z3.Z3_OP_POWER) and z3.is_rational_value(e.arg(1)):
                    b = rng(e.arg(0))
                    p = e.arg(1).as_fraction()
                    return None if b is None or p.denominator != 1 or p < 0 else b ** int(p)
                if z3.is_rational_value(e):
                    return abs(float(e.as_fraction()))
                return None

            terms = []
            for a in d.children() if z3.is_add(d) else [d]:
                coef = 1
                if z3.is_rational_value(a):
                    terms.append(a)
                    continue
                chs = [a]
                if z3.is_mul(a):
                    chs = a.children()
                    if z3.is_rational_value(chs[0]):
                        coef, chs = chs[0], chs[1:]
                b = 1.0
                for ch in chs:
                    r = rng(ch)
                    if r is None:
                        return False
                    b *= r
                v = z3.Real(f"mono!{len(vs)}")
                vs[len(vs)] = v
                B = C.zq(b * (1 + 1e-9) + 1e-12)
                cons += [v <= B, v >= -B]
                terms.append(coef * v)
            if not vs or len(vs) > 3000:
                return False
            import time

            s = z3.SimpleSolver()
            s.set("timeout", 5000)
            e = z3.Sum(terms)
            s.add(*cons)
            s.add(z3.Or(e > tol, e < -tol))
            t0 = time.monotonic()
            r = s.check()
            self.E._count(r, time.monotonic() - t0)
            return r == z3.unsat

        def _lift(self, x):
            if isinstance(x, (float, np.floating)) and not math.isfinite(x):
                return C.zq(0), z3.BoolVal(True)
            return C.lift(x)

        def le(self, name, a, b, tol=1e-6, rtol=0):
            fa, fb = _flat(a), _flat(b)
            if len(fb) == 1:
                fb = fb * len(fa)
            if len(fa) == 1:
                fa = fa * len(fb)
            wide, cl, oa = [], [], []
            for x, y in zip(fa, fb):
                if isinstance(y, (float, np.floating)) and y == math.inf:
                    continue
                pe, pp = self._lift(x)
                qe, qp = self._lift(y)
                oa.append(pe)
                pz = C.zor(pp, qp)
                c = pe - qe > C.zq(tol)
                w = pe - qe > C.zq(max(0.05, 20 * tol))
                if pz is not None:
                    c, w = z3.Or(c, pz), z3.Or(w, pz)
                cl.append(c), wide.append(w)
            self.obs.append((name, oa))
            self._split_prove(name, wide, cl, "bound exceeded")

        def finite(self, name, a):
            ps = []
            for x in _flat(a):
                if isinstance(x, C.Cx):
                    for q in (x.re, x.im):
                        if getattr(q, "pz", None) is not None:
                            ps.append(q.pz)
                    continue
                if C.is_conc(x):
                    if not math.isfinite(x):
                        ps.append(z3.BoolVal(True))
                elif getattr(x, "pz", None) is not None:
                    ps.append(x.pz)
            self._split_prove(name, ps, ps, "non-finite value")

        def shape(self, name, a, shape):
            self.check(name, tuple(_shape(a)) == tuple(int(s) for s in shape))

        def observe(self, name, a):
            self.obs.append((name, [C.lift(p)[0] for x in _flat(a) for p in ((x.re, x.im) if isinstance(x, C.Cx) else (x,))]))

        def stub_random(self, **k):
            pass

    def _parts(x, y):
        if isinstance(x, (C.Cx, complex, np.complexfloating)) or isinstance(y, (C.Cx, complex, np.complexfloating)):
            x, y = C.Cx.of(x), C.Cx.of(y)
            return [(x.re, y.re), (x.im, y.im)]
        return [(x, y)]

    return SymCtx


def _zval(v):
    import z3

    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return float(v.as_fraction())
    if z3.is_algebraic_value(v):
        return float(v.approx(20).as_fraction())
    return 0.0


def internal_missing(e):
    """Whether a harness itself failed to find an internal name of the package (renamed or moved): that says nothing about its behaviour."""
    import os
    import traceback

    if not isinstance(e, (AttributeError, ImportError)):
        return False
    tb = traceback.extract_tb(e.__traceback__)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if not tb or not os.path.abspath(tb[-1].filename).startswith(here + os.sep):
        return False
    if isinstance(e, ImportError):
        return "corrct" in (e.name or str(e))
    import types

    o, name = getattr(e, "obj", None), str(getattr(e, "name", ""))
    if isinstance(o, types.ModuleType):
        return o.__name__.startswith("corrct")
    m = getattr(o if isinstance(o, type) else type(o), "__module__", "") or ""
    return m.startswith("corrct") and name.startswith("_") and not name.startswith("__")
