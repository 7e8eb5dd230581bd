"""
Symbolic execution engine for the real harmonic_inference code.

The code under test is *executed unmodified* by the interpreter; the inputs are
proxy objects (SymInt, SymReal, SymBool) whose operators build Z3 terms.  Whenever
the interpreter needs a concrete truth value / index / hash of a symbolic term, the
engine asks Z3 which outcomes are feasible under the current path condition, takes
one and schedules the others (re-execution with a decision prefix).  A property
assertion on a path is decided by Z3: path-condition AND NOT(assertion) must be
unsat.  When the work-list is empty every input inside the declared bounds is
covered.  Nothing is sampled.

A sat answer is turned into concrete inputs, and the harness is re-run on those
inputs with plain ints / Fractions and the unpatched modules before anything is
reported (see runner.replay).
"""
import gc
import itertools
import math
import os
import random
import sys
import time
from fractions import Fraction

import numpy as _np

_Z3DIR = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3"


def _load_z3():
    """z3-py is pure python + ctypes, so the interpreter that runs /repo (PyPy) can use
    the copy installed in the tooling venv without exposing anything else from there."""
    if "z3" in sys.modules:
        return sys.modules["z3"]
    import importlib.util

    if not os.path.isdir(_Z3DIR):
        import importlib

        return importlib.import_module("z3")
    spec = importlib.util.spec_from_file_location(
        "z3", os.path.join(_Z3DIR, "__init__.py"), submodule_search_locations=[_Z3DIR]
    )
    mod = importlib.util.module_from_spec(spec)
    sys.modules["z3"] = mod
    spec.loader.exec_module(mod)
    return mod


z3 = _load_z3()

CUR = None  # the engine currently executing a path (None => no symbolic execution)


class PathEnd(BaseException):
    """Path is infeasible or an assumption is false: stop executing it, silently."""


class Violated(BaseException):
    def __init__(self, msg, model):
        super().__init__(msg)
        self.msg = msg
        self.model = model


class Inconclusive(BaseException):
    """Solver said unknown, a cap was hit, or the execution was not deterministic."""


class OutOfTime(Inconclusive):
    pass


class NotModelled(Inconclusive):
    """a library function the stand-ins do not have"""


class Nondeterminism(Inconclusive):
    pass


MAX_DOMAIN = 5000
MAX_LEFT_OUT, MAX_LEFT_OUT_S = 300, 60  # paths the encoding does not fit, before giving up on a case


def _num(v):
    """concrete python number -> exact python number, or None."""
    t = type(v)
    if t is int or t is bool or t is Fraction:
        return v
    if t is float:
        if v != v or v in (math.inf, -math.inf):
            return None
        return Fraction(v)
    if hasattr(v, "dtype") and getattr(v, "shape", 1) == ():
        it = v.item()
        if type(it) in (int, bool, float):
            return _num(it)
        return None
    if isinstance(v, int) and not isinstance(v, Sym):
        return int(v)
    return None


def _infinite(v):
    """infinity or nan as a plain float (absorbs every finite, i.e. every symbolic, number)"""
    if type(v) is not float:
        if not (hasattr(v, "dtype") and getattr(v, "shape", 1) == () and v.dtype.kind == "f"):
            return False
        v = float(v)
    return v != v or v in (math.inf, -math.inf)


def _lit(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    return z3.Q(v.numerator, v.denominator)


class Sym:
    """Common arithmetic for SymInt and SymReal."""

    __slots__ = ("e", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    # -- helpers ---------------------------------------------------------
    @staticmethod
    def coerce(o):
        """-> (z3 expr, is_real) or None"""
        t = type(o)
        if t is SymInt:
            return o.e, False
        if t is SymReal:
            return o.e, True
        if t is SymBool:
            return z3.If(o.e, z3.IntVal(1), z3.IntVal(0)), False
        n = _num(o)
        if n is None:
            return None
        if isinstance(n, Fraction):
            return _lit(n), True
        return _lit(n), False

    def _is_real(self):
        return type(self) is SymReal

    def _bin(self, o, f):
        c = Sym.coerce(o)
        if c is None:
            return NotImplemented
        a, b = self.e, c[0]
        real = self._is_real() or c[1]
        if real:
            if not self._is_real():
                a = z3.ToReal(a)
            if not c[1]:
                b = z3.ToReal(b)
        r = f(a, b)
        return wrap(r)

    def __add__(self, o):
        if _infinite(o):
            return float(o)
        return self._bin(o, lambda a, b: a + b)

    def __radd__(self, o):
        if _infinite(o):
            return float(o)
        return self._bin(o, lambda a, b: b + a)

    def __sub__(self, o):
        if _infinite(o):
            return -float(o)
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        if _infinite(o):
            return float(o)
        return self._bin(o, lambda a, b: b - a)

    def _mul(self, o):
        if type(o) is SymBool:
            o = o.as_int()
        if isinstance(o, Sym):
            # keep the arithmetic linear: fork over the values of an int operand
            if type(o) is SymInt:
                o = concretise_int(o)
            elif type(self) is SymInt:
                return o._mul(concretise_int(self))
        return self._bin(o, lambda a, b: a * b)

    def __mul__(self, o):
        if _infinite(o):
            o = float(o)
            return o if bool(self > 0) else (-o if bool(self < 0) else math.nan)
        if isinstance(o, (list, tuple, str)):
            return o * concretise_int(self) if type(self) is SymInt else NotImplemented
        return self._mul(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, Sym):
            o = concretise(o) if type(o) is SymInt else o
        n = _num(o)
        if n is not None:
            if n == 0:
                raise ZeroDivisionError("division by zero")
            return wrap(self.real_expr() * z3.Q(Fraction(1, 1).numerator * Fraction(n).denominator, Fraction(n).numerator) if Fraction(n).numerator > 0
                        else self.real_expr() * _lit(Fraction(1) / Fraction(n)))
        if type(o) is SymReal:
            if bool(o == 0):
                raise ZeroDivisionError("division by zero")
            return wrap(self.real_expr() / o.e)
        return NotImplemented

    def __rtruediv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if bool(self == 0):
            raise ZeroDivisionError("division by zero")
        if type(self) is SymInt:
            return wrap(_lit(Fraction(n) / concretise_int(self)))
        return wrap(_lit(Fraction(n)) / self.real_expr())

    def real_expr(self):
        return self.e if self._is_real() else z3.ToReal(self.e)

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        n = _num(o)
        if n == 1:
            return self
        if n == 0:
            return 1
        if type(self) is SymInt:
            return concretise_int(self) ** o
        if isinstance(n, int) and n > 0:
            r = self
            for _ in range(n - 1):
                r = r * self
            return r
        return NotImplemented

    def _floordiv(self, o):
        if type(o) is SymInt:
            o = concretise_int(o)
        n = _num(o)
        if n is None:
            if type(o) is SymReal:
                q = self / o
                return wrap(z3.ToInt(q.e))
            return NotImplemented
        if n == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if type(self) is SymInt and isinstance(n, int):
            if n > 0:
                return wrap(self.e / z3.IntVal(n))
            return wrap((-self.e) / z3.IntVal(-n))
        return wrap(z3.ToInt((self / Fraction(n)).e if isinstance(self / Fraction(n), Sym) else _lit(self / Fraction(n))))

    def __floordiv__(self, o):
        return self._floordiv(o)

    def __rfloordiv__(self, o):
        n = _num(o)
        if n is None:
            return NotImplemented
        if type(self) is SymInt:
            return o // concretise_int(self)
        q = o / self
        return wrap(z3.ToInt(q.e))

    def __mod__(self, o):
        if type(o) is SymInt:
            o = concretise_int(o)
        n = _num(o)
        if n is None and type(o) is not SymReal:
            return NotImplemented
        if n is not None and n == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        if type(self) is SymInt and isinstance(n, int) and n > 0:
            return wrap(self.e % z3.IntVal(n))
        q = self._floordiv(o)
        return self - q * o if n is not None else wrap(self.real_expr() - z3.ToReal(q.e) * o.e)

    def __rmod__(self, o):
        if isinstance(o, str):
            return o % concretise(self)
        n = _num(o)
        if n is None:
            return NotImplemented
        if type(self) is SymInt:
            return o % concretise_int(self)
        q = o // self
        return o - q * self

    def __divmod__(self, o):
        return self // o, self % o

    # -- comparisons -----------------------------------------------------
    def _cmp(self, o, f, dflt):
        c = Sym.coerce(o)
        if c is None:
            n = type(o)
            if n is float or (hasattr(o, "dtype") and getattr(o, "shape", 1) == ()):
                fo = float(o)
                if fo == math.inf:
                    return {"lt": True, "le": True, "gt": False, "ge": False, "eq": False, "ne": True}[dflt]
                if fo == -math.inf:
                    return {"lt": False, "le": False, "gt": True, "ge": True, "eq": False, "ne": True}[dflt]
                if fo != fo:
                    return dflt == "ne"
            if dflt == "eq":
                return NotImplemented
            if dflt == "ne":
                return NotImplemented
            return NotImplemented
        a, b = self.e, c[0]
        if self._is_real() != c[1]:
            if c[1]:
                a = z3.ToReal(a)
            else:
                b = z3.ToReal(b)
        return wrap_bool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "lt")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "le")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "gt")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "ge")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "eq")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, "ne")

    def __bool__(self):
        return CUR.branch(self.e != 0)

    def __int__(self):
        if type(self) is SymReal:
            return concretise_int(self.__trunc__())
        return concretise_int(self)

    def __trunc__(self):
        if type(self) is SymInt:
            return self
        return wrap(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __floor__(self):
        return self if type(self) is SymInt else wrap(z3.ToInt(self.e))

    def __ceil__(self):
        return self if type(self) is SymInt else wrap(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        if type(self) is SymInt:
            return self
        if nd:
            raise NotImplementedError("round(sym, ndigits)")
        fl = z3.ToInt(self.e)
        fr = self.e - z3.ToReal(fl)
        h = z3.Q(1, 2)
        return wrap(z3.If(fr < h, fl, z3.If(fr > h, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))

    def __float__(self):
        return float(concretise(self))

    def __complex__(self):
        return complex(float(self))

    def _opaque(self):
        # text of a real-valued term: an opaque token, equal for structurally equal terms
        CUR.stats["opaque_strings"] = CUR.stats.get("opaque_strings", 0) + 1
        return f"<real#{z3.simplify(self.e).hash()}>"

    def __str__(self):
        if CUR is None or in_message():
            return "<sym>"
        return self._opaque() if type(self) is SymReal else str(concretise(self))

    def __repr__(self):
        if CUR is None or in_message():
            return "<sym>"
        return self._opaque() if type(self) is SymReal else repr(concretise(self))

    def __format__(self, spec):
        if CUR is None or in_message():
            return "<sym>"
        return self._opaque() if type(self) is SymReal else format(concretise(self), spec)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def conjugate(self):
        return self

    # numpy object-array ufunc hooks
    def log(self):
        return sym_log(self)

    def exp(self):
        return sym_exp(self)

    def rint(self):
        return self.__round__()

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


ARRAY_VIEW = [None]  # set by shims: the object-array type holding symbolic numbers


def _elementwise(name, f):
    """an operation of a symbolic scalar with a numpy array is elementwise"""
    compare = name in ("__eq__", "__ne__", "__lt__", "__le__", "__gt__", "__ge__")

    def g(self, o):
        if isinstance(o, _np.ndarray) and o.ndim > 0:
            r = _np.empty(o.shape, dtype=bool if compare else object)
            for i in _np.ndindex(*o.shape):
                x = o[i]
                x = f(self, x.item() if isinstance(x, _np.generic) else x)
                if x is NotImplemented:
                    raise TypeError(f"{name} of a symbolic number and {type(o[i]).__name__}")
                r[i] = bool(x) if compare else x
            return r if compare or ARRAY_VIEW[0] is None else r.view(ARRAY_VIEW[0])
        return f(self, o)

    g.__name__ = name
    return g


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "floordiv", "rfloordiv", "mod", "rmod",
           "eq", "ne", "lt", "le", "gt", "ge"):
    _n = f"__{_n}__"
    setattr(Sym, _n, _elementwise(_n, getattr(Sym, _n)))

class SymInt(Sym):
    __slots__ = ()

    def __index__(self):
        return concretise_int(self)

    def __hash__(self):
        return hash(concretise_int(self))

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def bit_length(self):
        return concretise_int(self).bit_length()

    def is_integer(self):
        return True

    def item(self):
        return self

    def __and__(self, o):
        return concretise_int(self) & (concretise_int(o) if isinstance(o, Sym) else o)

    __rand__ = __and__

    def __or__(self, o):
        return concretise_int(self) | (concretise_int(o) if isinstance(o, Sym) else o)

    __ror__ = __or__

    def __xor__(self, o):
        return concretise_int(self) ^ (concretise_int(o) if isinstance(o, Sym) else o)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return concretise_int(self) << o

    def __rshift__(self, o):
        return concretise_int(self) >> o

    def __invert__(self):
        return -self - 1


# Set by cases whose code uses positions as keys of pure caches only: a lookup then finds
# syntactically identical keys and misses others, instead of forking on every pair of keys.
STRUCTURAL_HASH = [False]


class SymReal(Sym):
    __slots__ = ()

    def __hash__(self):
        # All SymReals collide; equality (forking) decides.  Sound as long as keys that
        # must compare equal to a SymReal are SymReals themselves (harness duty: every
        # position/duration handed to the code is a SymReal, see REAL()).
        if STRUCTURAL_HASH[0]:
            return self.e.hash()
        return 0x5EA1

    def is_integer(self):
        return wrap_bool(z3.IsInt(self.e))

    @property
    def numerator(self):
        return concretise(self).numerator

    @property
    def denominator(self):
        return concretise(self).denominator

    def limit_denominator(self, max_denominator=1000000):
        return self

    def item(self):
        return self


class SymBool:
    __slots__ = ("e", "__weakref__")
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CUR.branch(self.e)

    def as_int(self):
        return wrap(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(bool(self))

    def __str__(self):
        return str(bool(self))

    def __repr__(self):
        return repr(bool(self)) if CUR is not None else f"SymBool<{self.e}>"

    @staticmethod
    def _e(o):
        if type(o) is SymBool:
            return o.e
        if isinstance(o, bool) or (hasattr(o, "dtype") and str(o.dtype) == "bool" and o.shape == ()):
            return z3.BoolVal(bool(o))
        return None

    def __and__(self, o):
        x = SymBool._e(o)
        return NotImplemented if x is None else wrap_bool(z3.And(self.e, x))

    __rand__ = __and__

    def __or__(self, o):
        x = SymBool._e(o)
        return NotImplemented if x is None else wrap_bool(z3.Or(self.e, x))

    __ror__ = __or__

    def __xor__(self, o):
        x = SymBool._e(o)
        return NotImplemented if x is None else wrap_bool(z3.Xor(self.e, x))

    __rxor__ = __xor__

    def __invert__(self):
        return wrap_bool(z3.Not(self.e))

    def __eq__(self, o):
        x = SymBool._e(o)
        if x is None:
            return self.as_int() == o
        return wrap_bool(self.e == x)

    def __ne__(self, o):
        x = SymBool._e(o)
        if x is None:
            return self.as_int() != o
        return wrap_bool(self.e != x)

    def __add__(self, o):
        return self.as_int() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self.as_int() - o

    def __rsub__(self, o):
        return o - self.as_int()

    def __mul__(self, o):
        if isinstance(o, Sym):
            return ite(self, o, 0)
        return self.as_int() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.as_int() / o

    def __lt__(self, o):
        return self.as_int() < (o.as_int() if type(o) is SymBool else o)

    def __le__(self, o):
        return self.as_int() <= (o.as_int() if type(o) is SymBool else o)

    def __gt__(self, o):
        return self.as_int() > (o.as_int() if type(o) is SymBool else o)

    def __ge__(self, o):
        return self.as_int() >= (o.as_int() if type(o) is SymBool else o)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self


def is_sym(x):
    return type(x) in (SymInt, SymReal, SymBool)


def wrap(e):
    """z3 arithmetic expression -> proxy, folding integer literals to python ints."""
    if z3.is_int(e):
        if z3.is_int_value(e):
            return e.as_long()
        return SymInt(e)
    return SymReal(e)


def wrap_bool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def REAL(v):
    """A concrete rational as a SymReal (keeps hashing uniform)."""
    if type(v) is SymReal:
        return v
    if CUR is None:
        return Fraction(v)
    if type(v) is SymInt:
        return SymReal(z3.ToReal(v.e))
    return SymReal(_lit(Fraction(v)))


def ite(c, a, b):
    """If-then-else without forking. c: bool/SymBool; a, b numeric."""
    if not is_sym(c):
        return a if c else b
    ca, cb = Sym.coerce(a), Sym.coerce(b)
    if ca is None or cb is None:
        return a if bool(c) else b
    x, y = ca[0], cb[0]
    if ca[1] != cb[1]:
        x = x if ca[1] else z3.ToReal(x)
        y = y if cb[1] else z3.ToReal(y)
    return wrap(z3.If(c.e, x, y))


def to_z3_bool(c):
    if type(c) is SymBool:
        return c.e
    if isinstance(c, Sym):
        return c.e != 0
    return z3.BoolVal(bool(c))


def AND(*cs):
    cs = list(cs[0]) if len(cs) == 1 and not is_sym(cs[0]) and hasattr(cs[0], "__iter__") else cs
    if not any(is_sym(c) for c in cs):
        return all(cs)
    return wrap_bool(z3.simplify(z3.And([to_z3_bool(c) for c in cs])))


def OR(*cs):
    cs = list(cs[0]) if len(cs) == 1 and not is_sym(cs[0]) and hasattr(cs[0], "__iter__") else cs
    if not any(is_sym(c) for c in cs):
        return any(cs)
    return wrap_bool(z3.simplify(z3.Or([to_z3_bool(c) for c in cs])))


def NOT(c):
    return wrap_bool(z3.Not(c.e)) if type(c) is SymBool else (not c)


def IMPLIES(a, b):
    return OR(NOT(a), b)


def EQ(a, b):
    """Structural equality without forking (tuples/lists/None allowed)."""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        if len(a) != len(b):
            return False
        return AND([EQ(x, y) for x, y in zip(a, b)])
    r = a == b
    if r is NotImplemented:
        return False
    return r


LOG = z3.Function("log", z3.RealSort(), z3.RealSort())


def sym_log(x):
    if type(x) is SymInt:
        x = SymReal(z3.ToReal(x.e))
    if isinstance(x, SymReal):
        if CUR is not None:
            CUR.note_log(x.e)
        return SymReal(LOG(x.e))
    return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)


def sym_exp(x):
    if isinstance(x, Sym):
        # exp(log(x)) == x
        if type(x) is SymReal and z3.is_app(x.e) and x.e.decl().name() == "log":
            return SymReal(x.e.arg(0))
        raise NotImplementedError("exp of symbolic term")
    return math.exp(x)


def concretise(x):
    if type(x) is SymInt:
        return concretise_int(x)
    if type(x) is SymBool:
        return bool(x)
    if type(x) is SymReal:
        s = z3.simplify(x.e)
        if z3.is_rational_value(s):
            return Fraction(s.numerator_as_long(), s.denominator_as_long())
        return CUR.concretise_real(s)
    return x


def concretise_int(x):
    if type(x) is SymInt:
        if CUR is None:
            raise Inconclusive("symbolic int used outside a path")
        return CUR.concretise(x.e)
    return x


_MSG = {}


def _message_lines(filename):
    """Line numbers covered by raise statements, assert messages and logging calls: text
    built there is only ever shown to a human, so symbolic values need not be concrete."""
    if filename not in _MSG:
        import ast

        lines = set()
        try:
            tree = ast.parse(open(filename).read())
        except (OSError, SyntaxError, ValueError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            target = None
            if isinstance(n, ast.Raise):
                target = n
            elif isinstance(n, ast.Assert) and n.msg is not None:
                target = n.msg
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "print":
                target = n
            elif (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                  and isinstance(n.func.value, ast.Name) and n.func.value.id in ("logging", "logger", "warnings")):
                target = n
            if target is not None:
                lines.update(range(target.lineno, target.end_lineno + 1))
        _MSG[filename] = lines
    return _MSG[filename]


def in_message():
    f = sys._getframe(1)
    for _ in range(12):
        f = f.f_back
        if f is None:
            return False
        name = f.f_code.co_filename
        if "harmonic_inference" in name:
            return f.f_lineno in _message_lines(name)
    return False


TRIM_BYTES = 300 * 2**20


def _rss():
    try:
        with open("/proc/self/statm") as f:
            return int(f.read().split()[1]) * 4096
    except OSError:
        return 0


class Engine:
    """Explores all paths of `fn(ctx)`."""

    def __init__(self, name="", timeout_ms=60000, max_paths=200000, deadline=None, grid=None, eager=False, confirm=None):
        self.grid = grid  # fallback mode: every real input is a multiple of 1/grid
        self.eager = eager  # fallback mode: inputs are split into their values at once
        self.confirm = confirm  # does a counterexample occur on the real code?
        self.rng = random.Random(1)
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = dict(paths=0, infeasible=0, branches=0, queries=0, obligations=0,
                          obligations_concrete=0, solver_s=0.0, concretisations=0,
                          real_concretisations=0, unsupported=0, max_decisions=0, spurious=0)
        self.left_out = None
        self.covered = {}
        self.violation = None
        self.assumption_trace = []

    # -- solver ----------------------------------------------------------
    def _check(self, *extra):
        t = time.time()
        if extra:
            self.solver.push()
            for e in extra:
                self.solver.add(e)
        r = self.solver.check()
        self.stats["queries"] += 1
        self.stats["solver_s"] += time.time() - t
        if r == z3.unknown:
            why = self.solver.reason_unknown()
            if extra:
                self.solver.pop()
            raise Inconclusive(f"solver unknown: {why}")
        m = self.solver.model() if r == z3.sat else None
        if extra:
            self.solver.pop()
        return m

    def _decide(self, kind, payload, cond):
        """Record/replay decision number self.pos on z3 condition cond -> bool."""
        if self.pos < len(self.prefix):
            k, val, h = self.prefix[self.pos]
            if k != kind or h != cond.hash():
                raise Nondeterminism(f"execution is not deterministic at decision {self.pos} in {self.name}")
            self.trace.append((k, val, h))
            self.pos += 1
            self.solver.add(cond if val else z3.Not(cond))
            if self.model is not None and not z3.is_true(
                    self.model.eval(cond if val else z3.Not(cond), model_completion=True)):
                self.model = None
            return val
        if self.model is None:
            self.model = self._check()
            if self.model is None:
                raise PathEnd()
        side = z3.is_true(self.model.eval(cond, model_completion=True))
        other = z3.Not(cond) if side else cond
        m2 = self._check(other)
        self.stats["branches"] += 1
        h = cond.hash()
        if m2 is not None:
            # both sides feasible: take `side` now and schedule the other
            self.work.append(self.trace + [(kind, not side, h)])
            self.trace.append((kind, side, h))
            self.pos += 1
            self.solver.add(cond if side else z3.Not(cond))
        # (single feasible side: implied by the path condition; not recorded)
        else:
            self.trace.append((kind, side, h))
            self.pos += 1
        return side

    def branch(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = cond.get_id()
        hit = self.known.get(i)
        if hit is not None:
            return hit[1]
        r = self._decide("b", None, cond)
        self.known[i] = (cond, r)
        return r

    def concretise(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        i = e.get_id()
        hit = self.values.get(i)
        if hit is not None:
            return hit[1]
        self.stats["concretisations"] += 1
        h = e.hash()
        if self.pos < len(self.prefix):
            k, v, h0 = self.prefix[self.pos]
            if k != "v" or h0 != h:
                raise Nondeterminism(f"execution is not deterministic at decision {self.pos} in {self.name}")
        else:
            # enumerate (with the solver) every feasible value of e on this path; take the
            # first and schedule one path per other value
            vals = []
            self.solver.push()
            try:
                m = self.model if self.model is not None else self._check()
                while m is not None:
                    w = m.eval(e, model_completion=True).as_long()
                    vals.append(w)
                    if len(vals) > MAX_DOMAIN:
                        raise Inconclusive(f"integer domain larger than {MAX_DOMAIN} must be enumerated: {e}")
                    self.solver.add(e != w)
                    m = self._check()
            finally:
                self.solver.pop()
            if not vals:
                raise PathEnd()
            v = vals[0]
            for w in vals[1:]:
                self.work.append(self.trace + [("v", w, h)])
        self.trace.append(("v", v, h))
        self.pos += 1
        self.solver.add(e == v)
        if self.model is not None and not z3.is_true(self.model.eval(e == v, model_completion=True)):
            self.model = None
        self.values[i] = (e, v)
        return v

    def concretise_real(self, e):
        """The code needs the concrete value of a real term.  Only complete when the
        term is already determined; otherwise this is recorded as an under-approximation
        (and the run is reported as inconclusive unless allowed)."""
        i = e.get_id()
        hit = self.values.get(i)
        if hit is not None:
            return hit[1]
        n = 0
        while True:
            if self.pos < len(self.prefix) and self.prefix[self.pos][0][0] == "r":
                v = self.prefix[self.pos][0][1]
            else:
                if self.model is None:
                    self.model = self._check()
                    if self.model is None:
                        raise PathEnd()
                q = self.model.eval(e, model_completion=True)
                if not z3.is_rational_value(q):
                    raise Inconclusive("irrational/uninterpreted model value needed concretely")
                v = Fraction(q.numerator_as_long(), q.denominator_as_long())
            if self._decide(("r", v), None, e == _lit(v)):
                self.values[i] = (e, v)
                return v
            n += 1
            self.stats["real_concretisations"] += 1
            if n >= (3 if self.grid is None else 40):
                # unbounded domain: stop after a few witnesses; coverage is no longer total
                self.stats["unsupported"] += 1
                raise PathEnd()

    def note_log(self, e):
        """log is an uninterpreted function; add the monotonicity axioms for the terms
        that actually occur on this path (sound instances of true facts)."""
        i = e.get_id()
        if i in self.logs:
            return
        for o in self.logs.values():
            self.solver.add(z3.Implies(z3.And(e > 0, o > 0),
                                       z3.And((e < o) == (LOG(e) < LOG(o)), (e == o) == (LOG(e) == LOG(o)))))
        self.solver.add(z3.Implies(z3.And(e > 0, e <= 1), LOG(e) <= 0))
        self.solver.add(z3.Implies(e == 1, LOG(e) == 0))
        self.logs[i] = e
        self.model = None

    def _trim(self):
        """Native solver memory is invisible to the interpreter's collector: collect when the process grows."""
        r = _rss()
        if self._rss0 is None:
            self._rss0 = r
        elif r > self._rss0 + TRIM_BYTES:
            self.model = self.solver = None
            self.known, self.values, self.logs, self.inputs, self.keep = {}, {}, {}, {}, []
            gc.collect()
            gc.collect()
            self._rss0 = _rss()

    _rss0 = None

    # -- exploration -----------------------------------------------------
    def _leave_out(self, why):
        """A path this encoding cannot decide: the coverage is not total, the other paths still count."""
        self.stats["spurious"] += 1
        self.left_out = self.left_out or why
        if self.stats["spurious"] == 1:
            self._left_out_at = time.time()
        if self.stats["spurious"] >= MAX_LEFT_OUT or time.time() > self._left_out_at + MAX_LEFT_OUT_S:
            raise OutOfTime(f"{self.stats['spurious']} paths left out")

    def explore(self, fn):
        global CUR
        self.work = [[]]
        self.solver = None
        try:
            while self.work:
                if self.deadline is not None and time.time() > self.deadline:
                    raise OutOfTime(f"time budget exhausted with {len(self.work)} open paths")
                if self.stats["paths"] >= self.max_paths:
                    raise OutOfTime(f"path cap {self.max_paths} reached")
                self._trim()
                if self.eager and len(self.work) > 1:
                    i = self.rng.randrange(len(self.work))
                    self.work[i], self.work[-1] = self.work[-1], self.work[i]
                prefix = self.work.pop()
                violated = None
                self.prefix, self.pos, self.trace = prefix, 0, []
                self.known, self.values, self.logs = {}, {}, {}
                self.model = None
                self.inputs = {}
                self.keep = []
                self.solver = z3.SolverFor("QF_UFLIRA") if False else z3.Solver()
                self.solver.set("timeout", self.timeout_ms)
                CUR = self
                ctx = SymCtx(self)
                try:
                    fn(ctx)
                    if self.pos < len(self.prefix):
                        raise Nondeterminism("path ended before its decision prefix was consumed")
                    self.stats["paths"] += 1
                except PathEnd:
                    self.stats["infeasible"] += 1
                except Violated as v:
                    violated = v
                except OutOfTime:
                    raise
                except Inconclusive as i:
                    self._leave_out(str(i))
                except RecursionError:
                    self._leave_out("recursion limit")
                except Exception as exc:  # noqa: code under test raised
                    m = self.model
                    if m is None:
                        m = self._check()
                    if m is None:
                        self.stats["infeasible"] += 1
                    else:
                        violated = Violated(f"unexpected {type(exc).__name__}: {exc}", (m, dict(self.inputs)))
                        violated.__cause__ = exc
                finally:
                    CUR = None
                if violated is not None:
                    if self.confirm is None or self.confirm(self, violated):
                        raise violated
                    self._leave_out(f"counterexample did not replay: {violated.msg}")
                self.stats["max_decisions"] = max(self.stats["max_decisions"], len(self.trace))
        finally:
            CUR = None
        return self.stats

    def model_values(self, m, inputs):
        out = {}
        for name, (kind, e) in inputs.items():
            if kind == "real":
                q = m.eval(e, model_completion=True)
                if z3.is_rational_value(q):
                    out[name] = [q.numerator_as_long(), q.denominator_as_long()]
                else:
                    a = q.approx(20)
                    out[name] = [a.numerator_as_long(), a.denominator_as_long()]
            elif kind == "int":
                out[name] = m.eval(e, model_completion=True).as_long()
            else:
                out[name] = bool(z3.is_true(m.eval(e, model_completion=True)))
        return out


class SymCtx:
    """What a harness sees while executing symbolically."""

    symbolic = True

    def __init__(self, eng):
        self.eng = eng

    def _fresh(self, name, kind, e):
        if name in self.eng.inputs:
            raise Inconclusive(f"duplicate symbolic input {name}")
        self.eng.inputs[name] = (kind, e)

    def int(self, name, lo, hi):
        """symbolic integer in [lo, hi]"""
        e = z3.Int(name)
        self._fresh(name, "int", e)
        self.eng.solver.add(e >= lo, e <= hi)
        self.eng.model = None
        return concretise_int(SymInt(e)) if self.eng.eager else SymInt(e)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        e = z3.Real(name)
        self._fresh(name, "real", e)
        if lo is not None:
            lo = _lit(Fraction(lo)) if not isinstance(lo, Sym) else lo.real_expr()
            self.eng.solver.add(e > lo if lo_open else e >= lo)
        if hi is not None:
            hi = _lit(Fraction(hi)) if not isinstance(hi, Sym) else hi.real_expr()
            self.eng.solver.add(e < hi if hi_open else e <= hi)
        if self.eng.grid is not None:
            self.eng.solver.add(e * self.eng.grid == z3.ToReal(z3.Int(name + "@grid")))
        self.eng.model = None
        return concretise(SymReal(e)) if self.eng.eager else SymReal(e)

    def bool(self, name):
        e = z3.Bool(name)
        self._fresh(name, "bool", e)
        return bool(SymBool(e)) if self.eng.eager else SymBool(e)

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        i = self.int(name, 0, len(seq) - 1)
        return seq[concretise_int(i)]

    def flag(self, name):
        """a boolean that is decided (forked) immediately: a plain python bool"""
        return bool(self.bool(name))

    def assume(self, c):
        if not is_sym(c):
            if not c:
                raise PathEnd()
            return
        c = to_z3_bool(c)
        self.eng.solver.add(c)
        if self.eng.model is not None and not z3.is_true(self.eng.model.eval(c, model_completion=True)):
            self.eng.model = None
        if self.eng.model is None and self.eng.pos >= len(self.eng.prefix):
            self.eng.model = self.eng._check()
            if self.eng.model is None:
                raise PathEnd()

    def check(self, c, msg):
        """Property assertion: must hold for every input on this path."""
        eng = self.eng
        if eng.pos < len(eng.prefix):
            # Re-execution of a decision prefix: the (deterministic) run that scheduled
            # this prefix executed this very obligation under the same path condition and
            # discharged it, otherwise exploration would have stopped there.
            return
        if not is_sym(c):
            eng.stats["obligations_concrete"] += 1
            if c:
                return
            m = eng.model or eng._check()
            if m is None:
                raise PathEnd()
            raise Violated(msg, (m, dict(eng.inputs)))
        e = z3.simplify(to_z3_bool(c))
        if z3.is_true(e):
            eng.stats["obligations_concrete"] += 1
            return
        eng.stats["obligations"] += 1
        m = eng._check(z3.Not(e))
        if m is not None:
            raise Violated(msg, (m, dict(eng.inputs)))
        eng.solver.add(e)

    def cover(self, label):
        """Reachability twin: the engine confirms this path condition is satisfiable."""
        eng = self.eng
        if label in eng.covered:
            return
        if eng.model is None:
            eng.model = eng._check()
        if eng.model is None:
            raise PathEnd()
        eng.covered[label] = eng.model_values(eng.model, eng.inputs)

    def fail(self, msg):
        self.check(False, msg)


class ReplayFailed(Exception):
    pass


class ConcreteCtx:
    """Replays a harness on concrete values: plain ints, Fractions, bools; no proxies."""

    symbolic = False

    def __init__(self, values):
        self.values = values
        self.failures = []
        self.labels = set()
        self.missing = []

    def _get(self, name, default):
        if name not in self.values:
            self.missing.append(name)
            return default
        return self.values[name]

    def int(self, name, lo, hi):
        v = self._get(name, lo)
        if not lo <= v <= hi:
            raise PathEnd()
        return v

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        v = self._get(name, [0, 1])
        v = Fraction(v[0], v[1])
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def choice(self, name, seq):
        seq = list(seq)
        if len(seq) == 1:
            return seq[0]
        return seq[self.int(name, 0, len(seq) - 1)]

    def assume(self, c):
        if not c:
            raise PathEnd()

    def check(self, c, msg):
        if not c:
            self.failures.append(msg)

    def cover(self, label):
        self.labels.add(label)

    def fail(self, msg):
        self.failures.append(msg)
