"""Symbolic scalars and path exploration.

Scalars are mathematical reals (z3 Real sort).  A symbolic value carries, beside
its term, an optional condition ``pz`` under which the real float computation
would have produced a non-finite value (division by zero, log/sqrt outside the
domain): on that condition the term is an unconstrained fresh variable.
"""

from __future__ import annotations

import math
import sys
import os
import time
from fractions import Fraction

import numpy as np

import z3

z3.set_param("model.completion", True)


class Unsupported(Exception):
    """The encoder cannot express something the code does: not a verdict."""


class PathAbort(BaseException):
    """The current path is infeasible or was cut."""


class Inconclusive(Exception):
    """The solver gave no answer."""


class HarnessAbort(BaseException):
    """Stop the harness (e.g. after a violation)."""


_Q: dict = {}


def to_frac(v) -> Fraction:
    """Read a float as the rational it stands for (see DESIGN.md, number model)."""
    if isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, (bool, np.bool_)):
        return Fraction(int(v))
    if isinstance(v, Fraction):
        return v
    is32 = isinstance(v, np.float32)
    f = float(v)
    if not math.isfinite(f):
        raise Unsupported(f"non-finite constant {f} in a symbolic term")
    ex = Fraction(f)
    if ex.denominator <= 4096:
        return ex
    q = ex.limit_denominator(4096)
    if q != 0 and abs(q - ex) <= abs(ex) * (Fraction(1, 2**24) if is32 else Fraction(1, 2**24)):
        # nearest small rational within half a float32 ulp
        return q
    q = ex.limit_denominator(10**7)
    if q != 0 and abs(q - ex) <= abs(ex) * Fraction(1, 2**50):
        return q
    return ex


def zq(v):
    key = (v.__class__, v)
    r = _Q.get(key)
    if r is None:
        f = to_frac(v)
        r = z3.RatVal(f.numerator, f.denominator) if f.denominator != 1 else z3.RealVal(f.numerator)
        _Q[key] = r
    return r


_CONC = (int, float, np.floating, np.integer, bool, np.bool_, Fraction)


def is_conc(v) -> bool:
    return isinstance(v, _CONC)


def is_sym(v) -> bool:
    return isinstance(v, (Sym, SymBool, Cx))


T, F = z3.BoolVal(True), z3.BoolVal(False)


def zor(*xs):
    ys = [x for x in xs if x is not None and not z3.is_false(x)]
    if not ys:
        return None
    for y in ys:
        if z3.is_true(y):
            return T
    if len(ys) == 1:
        return ys[0]
    if len(ys) == 2 and ys[0].eq(ys[1]):
        return ys[0]
    return z3.Or(*ys)


class Stats:
    def __init__(self):
        self.queries = 0
        self.sat = 0
        self.unsat = 0
        self.unknown = 0
        self.time = 0.0
        self.paths = 0
        self.branches = 0
        self.obligations = 0
        self.discharged = 0
        self.validated = 0
        self.covered = 0

    def add(self, o):
        for k, v in o.items():
            setattr(self, k, getattr(self, k) + v)

    def dict(self):
        return dict(self.__dict__)


class Engine:
    """One symbolic execution (DFS over branch decisions by re-execution)."""

    def __init__(self, branch_timeout_ms=2000, query_timeout_ms=20000, max_paths=400, max_depth=400, deadline=None):
        self.stats = Stats()
        self.branch_timeout_ms = branch_timeout_ms
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.deadline = deadline
        self.scaling = False  # simplify multiples of a single positive input (case option)
        self.decisions: list = []
        self.pos = 0
        self.reset_path()

    # -- per path state
    def reset_path(self):
        self.pc: list = []
        self.inputs: dict = {}
        self.counter = 0
        self.trig: dict = {}
        self.fun: dict = {}
        self.solver = z3.Solver()
        self.solver.set("timeout", self.branch_timeout_ms)
        self.denoms: dict = {}
        self.observed: list = []
        self.trans: list = []  # (kind, variables, terms): how to compute the auxiliary variables numerically

    def fresh(self, name="t"):
        self.counter += 1
        return z3.Real(f"{name}!{self.counter}")

    def fresh_bool(self, name="b"):
        self.counter += 1
        return z3.Bool(f"{name}!{self.counter}")

    def axiom(self, e):
        self.pc.append(e)
        self.solver.add(e)

    def _time_left(self):
        if self.deadline is None:
            return 1e9
        return self.deadline - time.monotonic()

    def quick(self, *extra):
        """sat/unsat/unknown of pc + extra with the branch timeout."""
        if self._time_left() <= 0:
            raise Inconclusive("case time budget exhausted")
        t = time.monotonic()
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
        except z3.Z3Exception:
            r = z3.unknown
        finally:
            self.solver.pop()
        self._count(r, time.monotonic() - t)
        return r

    def _count(self, r, dt):
        self.stats.queries += 1
        self.stats.time += dt
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1

    def branch(self, cond) -> bool:
        """Decide a symbolic condition on this path."""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
            self.pos += 1
            self.axiom(c if d else z3.Not(c))
            return d
        if len(self.decisions) >= self.max_depth:
            raise Inconclusive("branch depth bound reached")
        r_t = self.quick(c)
        if r_t == z3.unsat:
            # other side must be feasible if the path is
            self.decisions.append([False, True])
            self.pos += 1
            self.axiom(z3.Not(c))
            return False
        r_f = self.quick(z3.Not(c))
        self.stats.branches += 1
        if r_f == z3.unsat:
            self.decisions.append([True, True])
            self.pos += 1
            self.axiom(c)
            return True
        self.decisions.append([True, False])
        self.pos += 1
        self.axiom(c)
        return True

    def next_path(self) -> bool:
        while self.decisions and self.decisions[-1][1]:
            self.decisions.pop()
        if not self.decisions:
            return False
        self.decisions[-1] = [not self.decisions[-1][0], True]
        self.pos = 0
        return True

    # -- full-strength queries
    def solve(self, extra, timeout_ms=None):
        """Check pc + extra with a portfolio; returns (result, model)."""
        timeout_ms = timeout_ms or self.query_timeout_ms
        left = self._time_left() * 1000
        if left <= 0:
            raise Inconclusive("case time budget exhausted")
        timeout_ms = int(min(timeout_ms, max(left, 200)))
        cons = list(self.pc) + list(extra)
        last = z3.unknown
        for kind, share in (("default", 0.45), ("nlsat", 0.35), ("smt2", 0.2)):
            t = time.monotonic()
            try:
                if kind == "default":
                    s = z3.Solver()
                elif kind == "nlsat":
                    s = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "elim-uncnstr", "qfnra-nlsat").solver()
                else:
                    s = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver()
                s.set("timeout", max(200, int(timeout_ms * share)))
                s.add(*cons)
                r = s.check()
                m = s.model() if r == z3.sat else None
            except z3.Z3Exception:
                r, m = z3.unknown, None
            self._count(r, time.monotonic() - t)
            last = r
            if r != z3.unknown:
                return r, m
        return last, None


def transcendental_values(E, model):
    """Numerical values of the auxiliary variables (exp, log, cos...) at the inputs of a model."""
    sub: list = []

    def num(t):
        t = lift(t)[0] if not isinstance(t, z3.ExprRef) else t
        v = model.eval(z3.substitute(t, *sub) if sub else t, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(25)
        return float(v.as_fraction())

    def put(var, val):
        if math.isfinite(val):
            sub.append((var, z3.RealVal(repr(Fraction(val)).replace("Fraction(", "").replace(")", "").replace(", ", "/"))))

    for kind, vs, ts in E.trans:
        try:
            if kind == "exp":
                put(vs[0], math.exp(num(ts[0])))
            elif kind == "log":
                put(vs[0], math.log(num(ts[0])))
            elif kind == "sqrt":
                put(vs[0], math.sqrt(num(ts[0])))
            elif kind == "cossin":
                a = num(ts[0]) * float(ts[1])
                put(vs[0], math.cos(a))
                put(vs[1], math.sin(a))
            elif kind == "atan2":
                a = math.atan2(num(ts[0]), num(ts[1]))
                for v, x in zip(vs, (a, math.cos(a), math.sin(a))):
                    put(v, x)
        except (ValueError, OverflowError, z3.Z3Exception, AttributeError):
            continue
    return sub


ENG: Engine | None = None


def eng() -> Engine:
    if ENG is None:
        raise RuntimeError("no symbolic engine active")
    return ENG


def set_engine(e):
    global ENG
    ENG = e


# --------------------------------------------------------------------------
class SymBool:
    __array_priority__ = 1000
    __slots__ = ("e", "pz")

    def __init__(self, e, pz=None):
        self.e = e
        self.pz = pz

    def __bool__(self):
        return eng().branch(self.e)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __float__(self):
        return float(bool(self))

    @staticmethod
    def lift(o):
        if isinstance(o, SymBool):
            return o.e
        if isinstance(o, Sym):
            return o.e != 0
        if isinstance(o, (bool, np.bool_)):
            return z3.BoolVal(bool(o))
        if isinstance(o, (int, np.integer, float, np.floating)):
            return z3.BoolVal(bool(o))
        return None

    def _bin(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        l = SymBool.lift(o)
        if l is None:
            return NotImplemented
        return mkbool(f(self.e, l), zor(self.pz, getattr(o, "pz", None)))

    def __and__(self, o):
        return self._bin(o, lambda a, b: z3.And(a, b))

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: z3.Or(a, b))

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: z3.Xor(a, b))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e), self.pz)

    def logical_not(self):
        return ~self

    def num(self):
        return ite(self, 1, 0)

    def __eq__(self, o):
        if isinstance(o, (bool, np.bool_)):
            return self if o else ~self
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        return self.num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r

    __hash__ = object.__hash__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __format__(self, spec):
        return "<symbool>"

    def __repr__(self):
        return f"SymBool({self.e})"

    # arithmetic = numeric 0/1
    def __add__(self, o):
        return self.num() + (o.num() if isinstance(o, SymBool) else o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.num() - (o.num() if isinstance(o, SymBool) else o)

    def __rsub__(self, o):
        return o - self.num()

    def __mul__(self, o):
        return self.num() * (o.num() if isinstance(o, SymBool) else o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.num() / (o.num() if isinstance(o, SymBool) else o)

    def __rtruediv__(self, o):
        return o / self.num()

    def __neg__(self):
        return -self.num()

    def __lt__(self, o):
        return self.num() < o

    def __gt__(self, o):
        return self.num() > o

    def __le__(self, o):
        return self.num() <= o

    def __ge__(self, o):
        return self.num() >= o

    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        return np.dtype(bool)

    def astype(self, dt, *a, **k):
        return self if np.dtype(dt) == np.bool_ else self.num()

    def all(self, *a, **k):
        return self

    any = all
    item = all

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.array_function(func, types, args, kwargs)


def mkbool(e, pz=None):
    if pz is None:
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
    return SymBool(e, pz)


def _scale_of(term, simp=True):
    """(x, k, n) when the term is k*x^n, for a positive input x (None for a constant); else None."""
    t = z3.simplify(term) if simp else term
    if z3.is_rational_value(t):
        return None, t.as_fraction(), 0
    if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        hit = eng().inputs.get(t.decl().name())
        if hit is not None and hit[1][0] == "real" and hit[1][1] is not None and hit[1][1] > 0:
            return t, Fraction(1), 1
        return None
    kind = t.decl().kind()
    if kind == z3.Z3_OP_MUL:
        x, k, n = None, Fraction(1), 0
        for c in t.children():
            q = _scale_of(c, False)
            if q is None or (q[0] is not None and x is not None and not q[0].eq(x)):
                return None
            x, k, n = (q[0] if x is None else x), k * q[1], n + q[2]
        return x, k, n
    if kind == z3.Z3_OP_DIV:
        p, q = _scale_of(t.arg(0), False), _scale_of(t.arg(1), False)
        if p is None or q is None or q[1] == 0 or (p[0] is not None and q[0] is not None and not p[0].eq(q[0])):
            return None
        return (p[0] if p[0] is not None else q[0]), p[1] / q[1], p[2] - q[2]
    if kind == z3.Z3_OP_POWER:
        p, q = _scale_of(t.arg(0), False), _scale_of(t.arg(1), False)
        if p is None or q is None or q[0] is not None or q[1].denominator != 1 or p[1] == 0:
            return None
        return p[0], p[1] ** int(q[1]), p[2] * int(q[1])
    if kind == z3.Z3_OP_UMINUS:
        p = _scale_of(t.arg(0), False)
        return None if p is None else (p[0], -p[1], p[2])
    return None


def _scaled(x, k, n):
    """k*x^n"""
    if k == 0 or n == 0 or x is None:
        return float(k)
    e = x
    for _ in range(abs(n) - 1):
        e = e * x
    return Sym(zq(k) * e if n > 0 else zq(k) / e)


def _scales(ta, tb, same=True):
    """(x, ka, na, kb, nb) when both terms are monomials of the same positive input (of the same power)."""
    a = _scale_of(ta)
    b = _scale_of(tb) if a is not None else None
    if b is None or (a[0] is None and b[0] is None) or (a[0] is not None and b[0] is not None and not a[0].eq(b[0])):
        return None
    if same and a[2] != b[2] and a[1] != 0 and b[1] != 0:
        return None
    x = a[0] if a[0] is not None else b[0]
    return x, a[1], (a[2] if a[1] != 0 or not same else b[2]), b[1], (b[2] if b[1] != 0 or not same else a[2])


def _cmp(op, a, b):
    """Comparison of a Sym with a number."""
    if isinstance(b, Sym):
        if eng().scaling and a.pz is None and b.pz is None:
            m = _scales(a.e, b.e)
            if m is not None:
                return bool(op(m[1], m[3]))
        e = op(a.e, b.e)
        return mkbool(e, zor(a.pz, b.pz))
    if isinstance(b, SymBool):
        return _cmp(op, a, b.num()) if not is_conc(b.num()) else _cmp(op, a, b.num())
    if isinstance(b, Cx):
        return NotImplemented
    if isinstance(b, _CONC):
        f = float(b)
        if math.isnan(f):
            return False
        if math.isinf(f):
            # finite values against +-inf
            return bool(op(0.0, f))
        return mkbool(op(a.e, zq(b)), a.pz)
    return NotImplemented


def _import_ops():
    import operator

    return operator


import operator as _op


def _in_str_format(fr):
    """True if the frame is executing the % operator (old-style string formatting)."""
    import dis

    op = fr.f_code.co_code[fr.f_lasti : fr.f_lasti + 2]
    if len(op) < 2:
        return False
    n = dis.opname[op[0]]
    return n.startswith("BINARY_OP") and op[1] == _NB_REM


_NB_REM = next(i for i, (n, _) in enumerate(__import__("opcode")._nb_ops) if n == "NB_REMAINDER")


class Sym:
    """A symbolic real."""

    __array_priority__ = 1000
    __slots__ = ("e", "pz")

    def __init__(self, e, pz=None):
        self.e = e
        self.pz = pz

    # --- ndarray-scalar look
    shape = ()
    ndim = 0
    size = 1
    nbytes = 8

    @property
    def dtype(self):
        return np.dtype(np.float64)

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def T(self):
        return self

    def conj(self):
        return self

    conjugate = conj

    def astype(self, dt, *a, **k):
        from . import arr

        return arr.cast_elem(self, np.dtype(dt))

    def copy(self, *a, **k):
        return self

    def item(self, *a):
        return self

    def sum(self, *a, **k):
        return self

    mean = max = min = prod = squeeze = ravel = flatten = sum

    def clip(self, lo=None, hi=None, **k):
        r = self
        if lo is not None:
            r = smax(r, lo)
        if hi is not None:
            r = smin(r, hi)
        return r

    def reshape(self, *a, **k):
        from . import arr

        return arr.wrap(np.array(self, dtype=object)).reshape(*a)

    def __getitem__(self, k):
        from . import arr

        return arr.wrap(_obj0(self))[k]

    def dot(self, o):
        return self * o

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        s = str(self.e)
        return f"Sym({s if len(s) < 200 else s[:200] + '...'})"

    def __format__(self, spec):
        return "<sym>"

    __hash__ = object.__hash__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.array_function(func, types, args, kwargs)

    # --- conversions
    def __float__(self):
        v = z3.simplify(self.e)
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        if _in_str_format(sys._getframe(1)):
            return 0.0  # "%g" % value: text is not tracked
        raise Unsupported("float() of a symbolic value")

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __index__(self):
        return concretize_int(self)

    def __int__(self):
        return concretize_int(trunc(self))

    def __round__(self, nd=None):
        if nd in (None, 0):
            return rint(self)
        raise Unsupported("round() to digits")

    def __floor__(self):
        return concretize_int(floor(self))

    def __ceil__(self):
        return concretize_int(ceil(self))

    def __trunc__(self):
        return concretize_int(trunc(self))

    # --- arithmetic
    def __add__(self, o):
        return add(self, o)

    def __radd__(self, o):
        return add(o, self)

    def __sub__(self, o):
        return sub(self, o)

    def __rsub__(self, o):
        return sub(o, self)

    def __mul__(self, o):
        return mul(self, o)

    def __rmul__(self, o):
        return mul(o, self)

    def __truediv__(self, o):
        return div(self, o)

    def __rtruediv__(self, o):
        return div(o, self)

    def __floordiv__(self, o):
        return floor(div(self, o))

    def __rfloordiv__(self, o):
        return floor(div(o, self))

    def __mod__(self, o):
        return mod(self, o)

    def __rmod__(self, o):
        return mod(o, self)

    def __divmod__(self, o):
        q = floor(div(self, o))
        return q, self - q * o

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return Sym(-self.e, self.pz)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __lt__(self, o):
        return _cmp(_op.lt, self, o)

    def __le__(self, o):
        return _cmp(_op.le, self, o)

    def __gt__(self, o):
        return _cmp(_op.gt, self, o)

    def __ge__(self, o):
        return _cmp(_op.ge, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return _cmp(_op.eq, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return _cmp(_op.ne, self, o)

    def __and__(self, o):
        return SymBool(self.e != 0) & o

    def __invert__(self):
        raise Unsupported("~ on a symbolic number")


def _obj0(v):
    a = np.empty((), dtype=object)
    a[()] = v
    return a


def concretize_int(s: Sym) -> int:
    """Fork over the feasible integer values of ``s``."""
    E = eng()
    v = z3.simplify(s.e)
    if z3.is_rational_value(v):
        f = v.as_fraction()
        return int(f)
    for _ in range(200):
        E.solver.push()
        t = time.monotonic()
        r = E.solver.check()
        val = None
        if r == z3.sat:
            val = E.solver.model().eval(s.e, model_completion=True)
        E.solver.pop()
        E._count(r, time.monotonic() - t)
        if r == z3.unsat:
            raise PathAbort()
        if r != z3.sat:
            raise Inconclusive("cannot concretise an integer")
        if not z3.is_rational_value(val):
            raise Unsupported("integer concretisation of an algebraic value")
        f = val.as_fraction()
        # deterministic across re-execution: the decision stack stores the value
        n = _decide_value(E, f)
        if E.branch(s.e == zq(n)):
            if Fraction(n).denominator != 1:
                raise Unsupported("non-integer value used as an index")
            return int(n)
    raise Inconclusive("too many values to concretise")


def _decide_value(E, f):
    # Re-execution must propose the same candidate at the same decision index.
    key = E.pos
    store = E.__dict__.setdefault("cand", {})
    if E.pos < len(E.decisions):
        prev = store.get((key, tuple(d[0] for d in E.decisions[:key])))
        if prev is not None:
            return prev
    store[(key, tuple(d[0] for d in E.decisions[:key]))] = f
    return f


# --------------------------------------------------------------------------
def lift(v):
    """-> (term, pz) of a real scalar."""
    if isinstance(v, Sym):
        return v.e, v.pz
    if isinstance(v, SymBool):
        return z3.If(v.e, zq(1), zq(0)), v.pz
    return zq(v), None


def poison():
    """A value that is non-finite in the real code."""
    return Sym(eng().fresh("nan"), T)


def _nonfin(v):
    return isinstance(v, (float, np.floating)) and not math.isfinite(v)


def _num(v):
    if isinstance(v, SymBool):
        return v.num()
    if isinstance(v, (bool, np.bool_)):
        return int(v)
    return v


def add(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) + Cx.of(b)
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return a + b
    if not sa:
        if not is_conc(a):
            return NotImplemented
        if _nonfin(a):
            return poison()
        if a == 0:
            return b
        return Sym(zq(a) + b.e, b.pz)
    if not sb:
        if not is_conc(b):
            return NotImplemented
        if _nonfin(b):
            return poison()
        if b == 0:
            return a
        return Sym(a.e + zq(b), a.pz)
    if eng().scaling and a.pz is None and b.pz is None:
        m = _scales(a.e, b.e)
        if m is not None:
            return _scaled(m[0], m[1] + m[3], m[2])
    return Sym(a.e + b.e, zor(a.pz, b.pz))


def sub(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) - Cx.of(b)
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return a - b
    if not sa:
        if not is_conc(a):
            return NotImplemented
        if _nonfin(a):
            return poison()
        if a == 0:
            return -b
        return Sym(zq(a) - b.e, b.pz)
    if not sb:
        if not is_conc(b):
            return NotImplemented
        if _nonfin(b):
            return poison()
        if b == 0:
            return a
        return Sym(a.e - zq(b), a.pz)
    if a is b and a.pz is None:
        return 0.0
    if eng().scaling and a.pz is None and b.pz is None:
        m = _scales(a.e, b.e)
        if m is not None:
            return _scaled(m[0], m[1] - m[3], m[2])
    return Sym(a.e - b.e, zor(a.pz, b.pz))


def mul(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) * Cx.of(b)
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not sb:
        return a * b
    if not sa:
        a, b, sa, sb = b, a, sb, sa
    if not sb:
        if not is_conc(b):
            return NotImplemented
        if _nonfin(b):
            return poison()
        if b == 0:
            return 0.0 if a.pz is None else Sym(z3.If(a.pz, eng().fresh("nan"), zq(0)), a.pz)
        if b == 1:
            return a
        return Sym(a.e * zq(b), a.pz)
    if eng().scaling and a.pz is None and b.pz is None:
        m = _scales(a.e, b.e, same=False)
        if m is not None:
            return _scaled(m[0], m[1] * m[3], m[2] + m[4])
    return Sym(a.e * b.e, zor(a.pz, b.pz))


def _den_status(den):
    """Can this denominator be zero on this path? 'no', 'yes' (always) or 'maybe'."""
    E = eng()
    k = den.get_id()
    st = E.denoms.get(k)
    if st is not None and st[0].eq(den):
        return st[1]
    d = z3.simplify(den)
    if z3.is_rational_value(d):
        r = "no" if d.as_fraction() != 0 else "yes"
    else:
        q = E.quick(den == 0)
        if q == z3.unsat:
            r = "no"
        else:
            r = "maybe"
    E.denoms[k] = (den, r)
    return r


def div(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        return Cx.of(a) / Cx.of(b)
    sa, sb = isinstance(a, Sym), isinstance(b, Sym)
    if not sa and not is_conc(a) or not sb and not is_conc(b):
        return NotImplemented
    if not sb:
        if not sa:
            with np.errstate(all="ignore"):
                return np.float64(a) / np.float64(b)
        if _nonfin(b):
            if math.isinf(b):
                return 0.0 if a.pz is None else Sym(z3.If(a.pz, eng().fresh("nan"), zq(0)), a.pz)
            return poison()
        if b == 0:
            return poison()
        if b == 1:
            return a
        return Sym(a.e * zq(1 / to_frac(b)), a.pz)
    if _nonfin(a):
        return poison()
    if eng().scaling and sa and a.pz is None and b.pz is None:
        m = _scales(a.e, b.e, same=False)
        if m is not None and m[3] != 0:
            return _scaled(m[0], m[1] / m[3], m[2] - m[4])
    st = _den_status(b.e)
    pz = zor(a.pz if sa else None, b.pz)
    ae = a.e if sa else zq(a)
    if st == "yes":
        return poison()
    if st == "no":
        if not sa and a == 0:
            return 0.0 if pz is None else Sym(zq(0), pz)
        return Sym(ae / b.e, pz)
    z = b.e == 0
    return Sym(z3.If(z, eng().fresh("nan"), ae / b.e), zor(pz, z))


def ite(c, a, b):
    """If c then a else b, on scalars."""
    if isinstance(c, SymBool):
        ce = z3.simplify(c.e)
        if z3.is_true(ce):
            return a
        if z3.is_false(ce):
            return b
    elif isinstance(c, Sym):
        return ite(c != 0, a, b)
    else:
        return a if bool(c) else b
    if isinstance(a, Cx) or isinstance(b, Cx) or isinstance(a, complex) or isinstance(b, complex):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    if isinstance(a, (SymBool, bool, np.bool_)) and isinstance(b, (SymBool, bool, np.bool_)):
        return mkbool(z3.If(ce, SymBool.lift(a), SymBool.lift(b)))
    if a is b:
        return a
    if is_conc(a) and is_conc(b) and not _nonfin(a) and not _nonfin(b) and a == b:
        return a
    if _nonfin(a):
        a = poison()
    if _nonfin(b):
        b = poison()
    ae, ap = lift(a)
    be, bp = lift(b)
    pz = None
    if ap is not None or bp is not None:
        pz = z3.simplify(z3.If(ce, ap if ap is not None else F, bp if bp is not None else F))
        if z3.is_false(pz):
            pz = None
    if c.pz is not None:
        # a comparison on a non-finite value: either side may be taken
        hv = eng().fresh_bool("cmp")
        ce = z3.If(c.pz, hv, ce)
    return Sym(z3.If(ce, ae, be), pz)


def smax(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if is_conc(a) and is_conc(b):
        return np.fmax(a, b)
    for x, y in ((a, b), (b, a)):
        if is_conc(x) and _nonfin(x):
            if math.isnan(x) or x < 0:
                return y
            return x
    ae, ap = lift(a)
    be, bp = lift(b)
    return _minmax(ae >= be, ae, ap, be, bp, a, b)


def smin(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if is_conc(a) and is_conc(b):
        return np.fmin(a, b)
    for x, y in ((a, b), (b, a)):
        if is_conc(x) and _nonfin(x):
            if math.isnan(x) or x > 0:
                return y
            return x
    ae, ap = lift(a)
    be, bp = lift(b)
    return _minmax(ae <= be, ae, ap, be, bp, a, b)


def _minmax(c, ae, ap, be, bp, a, b):
    pz = zor(ap, bp)
    if eng().scaling and pz is None:
        m = _scales(ae, be)
        if m is not None:
            first = m[1] >= m[3] if z3.is_ge(c) else m[1] <= m[3]
            return Sym(ae if first else be)
    c = z3.simplify(c)
    if z3.is_true(c):
        return a if pz is None else Sym(ae, pz)
    if z3.is_false(c):
        return b if pz is None else Sym(be, pz)
    r = z3.If(c, ae, be)
    if pz is not None:
        r = z3.If(pz, eng().fresh("nan"), r)
    return Sym(r, pz)


def sabs(a):
    if isinstance(a, Cx):
        return a.abs()
    a = _num(a)
    if is_conc(a):
        return abs(a)
    if eng().scaling:
        m = _scale_of(a.e)
        if m is not None:
            return Sym(a.e if m[1] >= 0 else -a.e, a.pz)
    return Sym(z3.If(a.e >= 0, a.e, -a.e), a.pz)


def sign(a):
    a = _num(a)
    if is_conc(a):
        return np.sign(a)
    return Sym(z3.If(a.e > 0, zq(1), z3.If(a.e < 0, zq(-1), zq(0))), a.pz)


def floor(a):
    if is_conc(a):
        return np.floor(a)
    return Sym(z3.ToReal(z3.ToInt(a.e)), a.pz)


def ceil(a):
    if is_conc(a):
        return np.ceil(a)
    return Sym(-z3.ToReal(z3.ToInt(-a.e)), a.pz)


def trunc(a):
    a = _num(a)
    if is_conc(a):
        return np.trunc(a)
    return Sym(z3.If(a.e >= 0, z3.ToReal(z3.ToInt(a.e)), -z3.ToReal(z3.ToInt(-a.e))), a.pz)


def rint(a):
    if is_conc(a):
        return np.rint(a)
    # round half to even
    f = z3.ToInt(a.e + zq(0.5))
    half = z3.And(z3.ToReal(f) == a.e + zq(0.5), f % 2 != 0)
    return Sym(z3.If(half, z3.ToReal(f - 1), z3.ToReal(f)), a.pz)


def mod(a, b):
    a, b = _num(a), _num(b)
    if is_conc(a) and is_conc(b):
        return np.mod(a, b)
    return sub(a, mul(floor(div(a, b)), b))


def _memo(name, term, build):
    E = eng()
    key = (name, term.get_id())
    hit = E.fun.get(key)
    if hit is not None and hit[0].eq(term):
        return hit[1]
    r = build(E)
    E.fun[key] = (term, r)
    return r


def sqrt(a):
    if isinstance(a, Cx):
        raise Unsupported("complex sqrt")
    a = _num(a)
    if is_conc(a):
        with np.errstate(all="ignore"):
            return np.sqrt(float(a))
    if eng().scaling and a.pz is None:
        m = _scale_of(a.e)
        if m is not None and m[1] >= 0 and m[2] % 2 == 0:
            return _scaled(m[0], to_frac(math.sqrt(float(m[1]))), m[2] // 2)
    term = z3.simplify(a.e, som=True)
    if z3.is_rational_value(term):
        f = term.as_fraction()
        if f >= 0:
            n, d = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if n * n == f.numerator and d * d == f.denominator:
                return float(n) / float(d) if a.pz is None else Sym(zq(Fraction(n, d)), a.pz)

    def build(E):
        s = E.fresh("sqrt")
        E.trans.append(("sqrt", (s,), (term,)))
        neg = E.quick(term < 0)
        if neg == z3.unsat:
            E.axiom(z3.And(s >= 0, s * s == term))
            return s, None
        E.axiom(z3.Implies(term >= 0, z3.And(s >= 0, s * s == term)))
        return s, term < 0

    s, pz = _memo("sqrt", term, build)
    return Sym(s, zor(a.pz, pz))


def power(a, b):
    a, b = _num(a), _num(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return NotImplemented
    if is_conc(a) and is_conc(b):
        with np.errstate(all="ignore"):
            return np.float64(a) ** b
    if isinstance(a, (Cx, complex)) or isinstance(b, (Cx, complex)):
        if is_conc(b) and float(b) == int(b) and 0 <= b <= 8:
            r = Cx(1.0, 0.0)
            for _ in range(int(b)):
                r = r * Cx.of(a)
            return r
        raise Unsupported("complex power")
    if isinstance(b, Sym):
        v = z3.simplify(b.e)
        if z3.is_rational_value(v):
            b = float(v.as_fraction())
        else:
            if is_conc(a) and a > 0:
                return exp_base(a, b)
            raise Unsupported("symbolic exponent")
    if is_conc(a):
        return np.float64(a) ** b
    fb = float(b)
    if fb == 0.5:
        return sqrt(a)
    if fb == int(fb) and abs(fb) <= 12:
        n = int(fb)
        if n == 0:
            return 1.0
        r = a.e
        for _ in range(abs(n) - 1):
            r = r * a.e
        r = Sym(r, a.pz)
        return r if n > 0 else div(1.0, r)
    if (2 * fb) == int(2 * fb) and abs(fb) <= 6:
        return power(sqrt(a), int(2 * fb))
    q = to_frac(fb)
    if q.denominator <= 4 and abs(q.numerator) <= 6:
        return power(nroot(a, q.denominator), q.numerator)
    raise Unsupported(f"power {fb}")


def nroot(a, n):
    term = z3.simplify(a.e, som=True)

    def build(E):
        s = E.fresh(f"root{n}")
        p = s
        for _ in range(n - 1):
            p = p * s
        E.axiom(z3.Implies(term >= 0, z3.And(s >= 0, p == term)))
        return s, (term < 0)

    s, pz = _memo(f"root{n}", term, build)
    pz = z3.simplify(pz)
    if not z3.is_false(pz) and eng().quick(pz) == z3.unsat:
        pz = None
    return Sym(s, zor(a.pz, pz))


# --- exp / log : uninterpreted with ground axioms, kept consistent pairwise
def _explog_register(E, x, y):
    """Record y = exp(x); add ground axioms against earlier pairs."""
    E.axiom(y > 0)
    E.axiom(y >= 1 + x)  # tangent at 0
    E.axiom(z3.Implies(x < 1, y * (1 - x) <= 1))
    E.axiom((x == 0) == (y == 1))
    E.axiom((x < 0) == (y < 1))
    pairs = E.fun.setdefault("explog", [])
    for x2, y2 in pairs:
        E.axiom((x < x2) == (y < y2))
        E.axiom((x == x2) == (y == y2))
    # additivity for pairs that are seen to sum up to known arguments (rounded constants obey it only approximately)
    cst = z3.is_rational_value(y)

    def same(t):
        d = z3.simplify(t, som=True)
        return z3.is_rational_value(d) and d.as_fraction() == 0

    for i, (x2, y2) in enumerate(pairs):
        cst2 = cst and z3.is_rational_value(y2)
        for x3, y3 in pairs[: i + 1]:
            if cst2 and z3.is_rational_value(y3):
                continue
            if same(x - x2 - x3):
                E.axiom(y == y2 * y3)
            if same(x2 - x - x3):
                E.axiom(y2 == y * y3)
            if same(x3 - x - x2):
                E.axiom(y3 == y * y2)
        if cst2:
            continue
        if same(x + x2):
            E.axiom(y * y2 == 1)
        if same(x - 2 * x2):
            E.axiom(y == y2 * y2)
    pairs.append((x, y))


def exp(a):
    a = _num(a)
    if isinstance(a, (Cx, complex)):
        a = Cx.of(a)
        m = exp(a.re)
        return Cx(mul(m, cos(a.im)), mul(m, sin(a.im)))
    if is_conc(a):
        with np.errstate(all="ignore"):
            return np.exp(float(a))
    term = z3.simplify(a.e, som=True)
    if z3.is_rational_value(term) and a.pz is None:
        return float(np.exp(float(term.as_fraction())))

    def build(E):
        for x2, y2 in E.fun.get("explog", []):
            d = z3.simplify(x2 - term, som=True)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return y2
        y = E.fresh("exp")
        E.trans.append(("exp", (y,), (term,)))
        _explog_register(E, term, y)
        return y

    return Sym(_memo("exp", term, build), a.pz)


def log(a):
    a = _num(a)
    if is_conc(a):
        with np.errstate(all="ignore"):
            return np.log(float(a))
    term = z3.simplify(a.e, som=True)
    if z3.is_rational_value(term) and a.pz is None and term.as_fraction() > 0:
        return float(np.log(float(term.as_fraction())))

    def build(E):
        for x2, y2 in E.fun.get("explog", []):
            d = z3.simplify(y2 - term, som=True)
            if z3.is_rational_value(d) and d.as_fraction() == 0:
                return x2, None
        if z3.is_mul(term):
            # log of a product of known exponentials and positive numbers
            tot = z3.RealVal(0)
            for ch in term.children():
                if z3.is_rational_value(ch) and ch.as_fraction() > 0:
                    tot = tot + z3.RealVal(repr(math.log(float(ch.as_fraction()))))
                    continue
                k = [x2 for x2, y2 in E.fun.get("explog", []) if y2.eq(ch)]
                if not k:
                    break
                tot = tot + k[0]
            else:
                return z3.simplify(tot, som=True), None
        neg = E.quick(term <= 0)
        x = E.fresh("log")
        E.trans.append(("log", (x,), (term,)))
        if neg == z3.unsat:
            _explog_register(E, x, term)
            return x, None
        y = E.fresh("logarg")
        E.axiom(z3.Implies(term > 0, y == term))
        _explog_register(E, x, y)
        return x, term <= 0

    x, pz = _memo("log", term, build)
    return Sym(x, zor(a.pz, pz))


LN10 = math.log(10.0)
LN2 = math.log(2.0)


def exp_base(base, x):
    return exp(mul(x, math.log(float(base))))


# --- trigonometry: (cos, sin) pairs per base angle, multiple-angle formulas
def _affine(term):
    """term -> (dict atom_id -> (atom, Fraction), const) or None."""
    t = z3.simplify(term, som=True)
    out: dict = {}
    const = Fraction(0)

    def walk(e, k):
        nonlocal const
        if z3.is_rational_value(e):
            const += k * e.as_fraction()
            return True
        if z3.is_add(e):
            return all(walk(c, k) for c in e.children())
        if z3.is_mul(e):
            cs = e.children()
            nums = [c for c in cs if z3.is_rational_value(c)]
            oth = [c for c in cs if not z3.is_rational_value(c)]
            for n in nums:
                k = k * n.as_fraction()
            if len(oth) == 0:
                const += k
                return True
            at = oth[0] if len(oth) == 1 else None
            if at is None:
                at = z3.Product(*oth)
            i = at.get_id()
            cur = out.get(i, (at, Fraction(0)))
            out[i] = (at, cur[1] + k)
            return True
        i = e.get_id()
        cur = out.get(i, (e, Fraction(0)))
        out[i] = (e, cur[1] + k)
        return True

    walk(t, Fraction(1))
    return {i: v for i, v in out.items() if v[1] != 0}, const


def _cs_mul(p, q):
    (c1, s1), (c2, s2) = p, q
    return (sub(mul(c1, c2), mul(s1, s2)), add(mul(s1, c2), mul(c1, s2)))


def cossin(a):
    a = _num(a)
    if is_conc(a):
        return float(np.cos(float(a))), float(np.sin(float(a)))
    E = eng()
    aff, const = _affine(a.e)
    res = (_snap(math.cos(float(const))), _snap(math.sin(float(const))))
    for i, (atom, k) in aff.items():
        ent = E.trig.setdefault(atom.get_id(), [atom, {}])
        pairs = ent[1]
        base = None
        for b in pairs:
            r = k / b
            # tolerate the rounding of pi/180 factors
            rr = Fraction(round(float(r)))
            if rr != 0 and abs(float(r) - float(rr)) < 1e-9 and abs(rr) <= 4:
                base = (b, int(rr))
                break
        if base is None:
            c, s = E.fresh("cos"), E.fresh("sin")
            E.axiom(c * c + s * s == 1)
            kk = abs(k)
            E.trans.append(("cossin", (c, s), (atom, kk)))
            hit = E.inputs.get(atom.decl().name()) if z3.is_const(atom) else None
            if hit is not None and hit[1][0] == "real" and hit[1][1] is not None and hit[1][2] is not None:
                # range facts of a bounded input angle
                lo, hi = float(kk) * float(hit[1][1]), float(kk) * float(hit[1][2])
                if -1.5707 <= lo and hi <= 1.5707:
                    E.axiom(c >= zq(min(math.cos(lo), math.cos(hi)) - 1e-6))
                    E.axiom(z3.And(s >= zq(math.sin(lo) - 1e-6), s <= zq(math.sin(hi) + 1e-6)))
                elif 0 <= lo and hi <= 3.1415:
                    E.axiom(s >= zq(min(math.sin(lo), math.sin(hi)) - 1e-6))
            if hit is None and not str(atom).startswith("atan2!"):
                _cos_facts(E, z3.simplify(zq(kk) * atom), c, s)
            # half-angle link: if some earlier base is 2x, relate it
            pairs[kk] = (Sym(c), Sym(s))
            for b in list(pairs):
                if b != kk:
                    r = float(b / kk)
                    n = round(r)
                    if n in (2, 3, 4) and abs(r - n) < 1e-9:
                        p = pairs[kk]
                        q = p
                        for _ in range(n - 1):
                            q = _cs_mul(q, p)
                        E.axiom(pairs[b][0].e == lift(q[0])[0])
                        E.axiom(pairs[b][1].e == lift(q[1])[0])
            base = (kk, 1 if k > 0 else -1)
        b, n = base
        c, s = pairs[b]
        if n < 0:
            s = -s
            n = -n
        p = (c, s)
        q = p
        for _ in range(n - 1):
            q = _cs_mul(q, p)
        res = _cs_mul(res, q)
    if a.pz is not None:
        res = tuple(Sym(lift(x)[0], a.pz) for x in res)
    return res


def _cos_facts(E, x, c, s):
    """Signs, known points and monotonicity of the cosine on [0, pi], for a computed angle."""
    e = zq(Fraction(1, 10**6))
    pi, hp = zq(math.pi), zq(math.pi / 2)
    E.axiom(z3.Implies(x == 0, z3.And(c == 1, s == 0)))
    E.axiom(z3.Implies(z3.And(x > e, x < pi - e), z3.And(s > 0, c < 1)))
    E.axiom(z3.Implies(z3.And(x > -hp + e, x < hp - e), c > 0))
    E.axiom(z3.Implies(z3.And(x > hp + e, x < pi + hp - e), c < 0))
    old = E.fun.setdefault("cosx", [])
    for x2, c2 in old[:16]:
        both = z3.And(x >= 0, x2 >= 0, x <= pi, x2 <= pi)
        E.axiom(z3.Implies(both, z3.And(z3.Implies(x < x2, c > c2), z3.Implies(x > x2, c < c2))))
    old.append((x, c))


def _snap(v):
    for t in (-1.0, -0.5, 0.0, 0.5, 1.0):
        if abs(v - t) < 1e-15:
            return t
    return v


def cos(a):
    return cossin(a)[0]


def sin(a):
    return cossin(a)[1]


def tan(a):
    c, s = cossin(a)
    return div(s, c)


def arctan2(y, x):
    if eng().scaling and (isinstance(x, Sym) or isinstance(y, Sym)):
        m = _scales(lift(y)[0], lift(x)[0])
        if m is not None:
            return math.atan2(float(m[1]), float(m[3]))
    """Fresh angle tied to the direction (needs (x, y) != 0)."""
    y, x = _num(y), _num(x)
    if is_conc(y) and is_conc(x):
        return float(np.arctan2(float(y), float(x)))
    E = eng()
    ye, yp = lift(y)
    xe, xp = lift(x)
    r2 = z3.simplify(xe * xe + ye * ye)
    E.counter += 1
    th = z3.Real(f"atan2!{E.counter}")
    r = sqrt(Sym(r2))
    re = lift(r)[0]
    c, s = E.fresh("cos"), E.fresh("sin")
    E.trans.append(("atan2", (th, c, s), (ye, xe)))
    E.axiom(c * c + s * s == 1)
    E.axiom(z3.Implies(r2 > 0, z3.And(c * re == xe, s * re == ye)))
    E.axiom(z3.Implies(r2 == 0, z3.And(c == 1, s == 0, th == 0)))
    E.axiom(z3.And(th <= zq(math.pi), th >= zq(-math.pi)))
    E.axiom(z3.Implies(ye > 0, th > 0))
    E.axiom(z3.Implies(ye < 0, th < 0))
    E.axiom(z3.Implies(z3.And(ye == 0, xe >= 0), th == 0))
    E.axiom(z3.Implies(xe > 0, z3.And(th < zq(math.pi / 2), th > zq(-math.pi / 2))))
    E.trig[th.get_id()] = [th, {Fraction(1): (Sym(c), Sym(s))}]
    return Sym(th, zor(yp, xp))


def arctan(v):
    return arctan2(v, 1.0)


def arcsin(v):
    v = _num(v)
    if is_conc(v):
        return float(np.arcsin(float(v)))
    dom = z3.Or(v.e > 1, v.e < -1)
    r = arctan2(v, sqrt(Sym(z3.If(dom, zq(0), 1 - v.e * v.e))))
    d = None if eng().quick(dom) == z3.unsat else dom
    return Sym(r.e, zor(r.pz, v.pz, d))


def arccos(v):
    v = _num(v)
    if is_conc(v):
        return float(np.arccos(float(v)))
    dom = z3.Or(v.e > 1, v.e < -1)
    r = arctan2(sqrt(Sym(z3.If(dom, zq(0), 1 - v.e * v.e))), v)
    d = None if eng().quick(dom) == z3.unsat else dom
    return Sym(r.e, zor(r.pz, v.pz, d))


# --------------------------------------------------------------------------
class Cx:
    """A complex value with symbolic parts."""

    __array_priority__ = 1000
    __slots__ = ("re", "im")
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, re, im):
        self.re = re
        self.im = im

    @staticmethod
    def of(v):
        if isinstance(v, Cx):
            return v
        if isinstance(v, (complex, np.complexfloating)):
            return Cx(float(v.real), float(v.imag))
        return Cx(_num(v), 0.0)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    @property
    def dtype(self):
        return np.dtype(complex)

    def conj(self):
        return Cx(self.re, sub(0.0, self.im) if not is_conc(self.im) else -self.im)

    conjugate = conj

    def abs2(self):
        return add(mul(self.re, self.re), mul(self.im, self.im))

    def abs(self):
        if is_conc(self.im) and self.im == 0:
            return sabs(self.re)
        if eng().scaling:
            m = _scales(lift(self.re)[0], lift(self.im)[0])
            if m is not None:
                r = _scaled(m[0], to_frac(math.hypot(float(m[1]), float(m[3]))), m[2])
                return r
        return sqrt(self.abs2())

    def __abs__(self):
        return self.abs()

    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(add(self.re, o.re), add(self.im, o.im))

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(sub(self.re, o.re), sub(self.im, o.im))

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        return Cx(sub(mul(self.re, o.re), mul(self.im, o.im)), add(mul(self.re, o.im), mul(self.im, o.re)))

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return NotImplemented
        o = Cx.of(o)
        if is_conc(o.im) and o.im == 0:
            return Cx(div(self.re, o.re), div(self.im, o.re))
        d = o.abs2()
        n = self * o.conj()
        return Cx(div(n.re, d), div(n.im, d))

    def __rtruediv__(self, o):
        return Cx.of(o) / self

    def __neg__(self):
        return Cx(sub(0.0, self.re), sub(0.0, self.im))

    def __pow__(self, o):
        return power(self, o)

    def __eq__(self, o):
        o = Cx.of(o)
        a, b = (self.re == o.re), (self.im == o.im)
        return mkbool(z3.And(SymBool.lift(a), SymBool.lift(b)))

    def __ne__(self, o):
        r = self == o
        return (not r) if isinstance(r, (bool, np.bool_)) else ~r

    __hash__ = object.__hash__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def astype(self, dt, *a, **k):
        return self if np.dtype(dt).kind == "c" else self.re

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr

        return arr.array_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        from . import arr

        return arr.array_function(func, types, args, kwargs)

    def __repr__(self):
        return f"Cx({self.re},{self.im})"


def arg(a):
    a = Cx.of(a)
    return arctan2(a.im, a.re)
