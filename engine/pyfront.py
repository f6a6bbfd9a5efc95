"""Abstract interpreter of the Python layer over its syntax tree.

Arrays have a concrete shape and memory layout but symbolic elements (terms); scalars are terms;
strings and small integers are themselves.  numpy, scipy and ctypes are modelled; a call into the
compiled library is recorded with its declared argument types and converted arguments, and handed to
a model of the library.  Nothing of the repository is imported or executed."""
import ast, os, operator, builtins
from fractions import Fraction
import numpy as _np
import terms as TM
from terms import *
from valnum import Valnum, Undef, mpf

class PyRaise(Exception):
    """An exception raised by the analysed code."""
    def __init__(self, name, msg=""):
        Exception.__init__(self, "%s: %s" % (name, msg))
        self.name, self.msg = name, msg

class _Return(Exception):
    def __init__(self, v):
        self.v = v
class _Break(Exception):
    pass
class _Continue(Exception):
    pass

# ---------------------------------------------------------------------------- symbolic scalars
POINT = [None]
FLOATY = {}

def tm(x):
    if isinstance(x, S):
        return x.t
    if isinstance(x, (bool, _np.bool_)):
        return num(int(x))
    if isinstance(x, (int, _np.integer)):
        return num(int(x))
    if isinstance(x, (float, _np.floating)):
        if x != x or x in (float("inf"), float("-inf")):
            return sym("const", repr(float(x)))
        return num(Fraction(repr(float(x))))
    raise AnalysisError("not a number in the Python layer: %r" % (x,))

def isscal(x):
    return isinstance(x, (S, int, float, bool, _np.integer, _np.floating, _np.bool_))

class S(object):
    """A scalar known as a term."""
    __slots__ = ("t",)
    __array_priority__ = -1
    def __init__(self, t):
        self.t = t
    def _b(f):
        def g(self, o):
            if isinstance(o, _np.ndarray):
                return NotImplemented
            if not isscal(o):
                return NotImplemented
            return S(f(self.t, tm(o)))
        return g
    def _r(f):
        def g(self, o):
            if not isscal(o):
                return NotImplemented
            return S(f(tm(o), self.t))
        return g
    __add__ = _b(add); __radd__ = _r(add)
    __sub__ = _b(sub); __rsub__ = _r(sub)
    __mul__ = _b(mul); __rmul__ = _r(mul)
    __truediv__ = _b(div); __rtruediv__ = _r(div)
    def __pow__(self, o):
        return S(power(self.t, tm(o)))
    def __rpow__(self, o):
        return S(power(tm(o), self.t))
    def __neg__(self):
        return S(neg(self.t))
    def __pos__(self):
        return self
    def __abs__(self):
        return S(fn("abs", self.t))
    def _cmp(op):
        def g(self, o):
            if not isscal(o):
                return NotImplemented
            a, b = self.t, tm(o)
            if op in ("==", "!="):
                r = decide("==", a, b)
                return r if op == "==" else not r
            if op == "<": return decide("<", a, b)
            if op == "<=": return decide("<=", a, b)
            if op == ">": return decide("<", b, a)
            return decide("<=", b, a)
        return g
    __lt__ = _cmp("<"); __le__ = _cmp("<="); __gt__ = _cmp(">"); __ge__ = _cmp(">=")
    __eq__ = _cmp("=="); __ne__ = _cmp("!=")
    __hash__ = object.__hash__
    def __bool__(self):
        return not decide("==", self.t, ZERO)
    def __repr__(self):
        return show(self.t, 4)
    def exp(self): return S(fn("exp", self.t))
    def log(self): return S(fn("log", self.t))
    def sqrt(self): return S(fn("sqrt", self.t))
    def sin(self): return S(fn("sin", self.t))
    def cos(self): return S(fn("cos", self.t))

def power(a, b):
    if b.op == "num" and b.args[0].denominator == 1 and abs(b.args[0]) <= 64:
        return powi(a, int(b.args[0]))
    return powt(a, b)

NAN = sym("nan")          # an element that is not a number

def decide(op, a, b):
    if a is NAN or b is NAN:
        return False
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
    else:
        if a is b:
            return op != "<"
        try:
            x, y = POINT[0](a), POINT[0](b)
        except Undef as e:
            raise AnalysisError("undecided comparison in the Python layer: %s" % e)
        if abs(x - y) <= mpf(10) ** -50 * (abs(x) + abs(y)):
            x = y
    return x == y if op == "==" else x < y if op == "<" else x <= y

# ---------------------------------------------------------------------------- symbolic arrays
class SArr(_np.ndarray):
    """Array of symbolic numbers; dt is the element type the program sees."""
    def __array_finalize__(self, obj):
        self.dt = getattr(obj, "dt", "f8")
    def _c(op):
        def g(self, o):
            if o is None or isinstance(o, str):
                return NotImplemented
            a, b = _np.broadcast_arrays(_np.asarray(self, object), _np.asarray(o, object) if not isinstance(o, S) else box(o))
            r = _np.empty(a.shape, bool)
            for i in _np.ndindex(a.shape):
                r[i] = op(lift(a[i]), b[i])
            return r
        return g
    __lt__ = _c(operator.lt); __le__ = _c(operator.le); __gt__ = _c(operator.gt); __ge__ = _c(operator.ge)
    __eq__ = _c(operator.eq); __ne__ = _c(operator.ne)
    __hash__ = None

def box(x):
    a = _np.empty((), object)
    a[()] = x
    return a

def lift(x):
    return x if isinstance(x, S) else S(tm(x))

def sarr(vals, shape=None, dt="f8"):
    a = _np.empty(len(vals), object)
    for i, v in enumerate(vals):
        a[i] = lift(v)
    a = a.view(SArr)
    a.dt = dt
    return a if shape is None else a.reshape(shape)

def symarr(name, n, comps=None, dt="f8"):
    """Array of distinct symbols."""
    if comps is None:
        return sarr([S(sym(name, str(i))) for i in range(n)], dt=dt)
    return sarr([S(sym(name, str(i), str(c))) for i in range(n) for c in range(comps)], (n, comps), dt=dt)

def elementwise(f):
    def g(x, *a, **k):
        if isinstance(x, _np.ndarray):
            out = _np.empty(x.shape, object)
            for i in _np.ndindex(x.shape):
                out[i] = f(lift(x[i]))
            r = out.view(SArr)
            r.dt = getattr(x, "dt", "f8")
            return r if r.shape else r[()]
        if isinstance(x, (list, tuple)):
            return g(NP.asarray(x))
        return f(lift(x))
    return g

def dtname(d):
    """Element type as written by the program -> 'f8', 'f4', 'i8', 'bool' ..."""
    if d is None:
        return None
    if isinstance(d, CType):
        return {"float": "f", "int": "i" if d.signed else "u"}.get(d.kind, "?") + str(d.size) if d.kind != "bool" else "bool"
    if d in (float,) or isinstance(d, str) and d in ("f8", "d", "double", "float64", "float"):
        return "f8"
    if isinstance(d, str) and d in ("f4", "f", "single", "float32"):
        return "f4"
    if d is int or isinstance(d, str) and d in ("i8", "int64", "int"):
        return "i8"
    if d is bool:
        return "bool"
    if isinstance(d, DType):
        return d.name
    if isinstance(d, str):
        return d
    try:
        return _np.dtype(d).str.lstrip("<>=|")
    except TypeError:
        raise AnalysisError("element type %r" % (d,))

class DType(object):
    def __init__(self, name):
        self.name = name
        self.kind = name[0]
        self.itemsize = int(name[1:]) if name[1:].isdigit() else 1
    def __eq__(self, o):
        return dtname(o) == self.name
    def __hash__(self):
        return hash(self.name)
    def __repr__(self):
        return "dtype(%s)" % self.name

def isfloatdt(d):
    return d is None or d[0] == "f"

class _NP(object):
    """Model of the numpy functions the layer may use."""
    pi = S(PI)
    e = S(fn("exp", ONE))
    newaxis = None
    ndarray = _np.ndarray
    inf = float("inf")
    nan = float("nan")
    float64 = "f8"; double = "f8"; float32 = "f4"; int64 = "i8"; intp = "i8"; bool_ = "bool"
    class integer: pass
    def _fill(self, shape, dtype, v):
        d = dtname(dtype) or "f8"
        if not isfloatdt(d):
            return _np.full(shape, v, dtype={"bool": bool}.get(d, "i8"))
        if isinstance(shape, (int, _np.integer)):
            shape = (shape,)
        n = 1
        for s in shape:
            n *= int(s)
        r = sarr([v() if callable(v) else v for _ in range(n)], tuple(shape), d)
        return r
    def zeros(self, shape, dtype=None, order="C", **k): return self._fill(shape, dtype, 0)
    def ones(self, shape, dtype=None, **k): return self._fill(shape, dtype, 1)
    def empty(self, shape, dtype=None, **k): return self._fill(shape, dtype, lambda: S(fresh_undef()))
    def full(self, shape, fill_value, dtype=None, **k): return self._fill(shape, dtype, fill_value)
    def _like(self, a, dtype):
        return dtype or getattr(a, "dt", None) or (None if isinstance(a, (list, tuple)) else a.dtype)
    def _shape(self, a):
        return a.shape if isinstance(a, _np.ndarray) else _np.asarray(a, dtype=object).shape
    def zeros_like(self, a, dtype=None, **k): return self.zeros(self._shape(a), self._like(a, dtype))
    def ones_like(self, a, dtype=None, **k): return self.ones(self._shape(a), self._like(a, dtype))
    def empty_like(self, a, dtype=None, **k): return self.empty(self._shape(a), self._like(a, dtype))
    def full_like(self, a, v, dtype=None, **k): return self.full(self._shape(a), v, self._like(a, dtype))
    def array(self, a, dtype=None, copy=True, ndmin=0, order=None, **k):
        r = self.asarray(a, dtype)
        return r.copy() if copy and r is a else r
    def asarray(self, a, dtype=None, order=None, **k):
        d = dtname(dtype)
        if isinstance(a, SArr):
            if d is None or d == a.dt:
                return a
            if not isfloatdt(d):
                raise AnalysisError("conversion of an array to %s" % d)
            r = a.copy()
            r.dt = d
            return r
        if isinstance(a, _np.ndarray) and a.dtype != object:
            if d is None or not isfloatdt(d):
                return a
        if isscal(a):
            if d is None and not isinstance(a, S):
                return _np.asarray(a) if not isinstance(a, float) else sarr([a], (), "f8")
            return sarr([a], (), d or "f8")
        if isinstance(a, (list, tuple, _np.ndarray)):
            if all(isinstance(x, (bool, int, _np.integer, _np.bool_)) for x in a) and d is None:
                return _np.asarray(a)
            o = _np.asarray([_np.asarray(x) if isinstance(x, (_np.ndarray, list, tuple)) else x for x in a], dtype=object) if not any(isinstance(x, (_np.ndarray, list, tuple)) for x in a) else _np.stack([_np.asarray(self.asarray(x, dtype), dtype=object) for x in a])
            r = o.view(SArr)
            r.dt = d or "f8"
            for i in _np.ndindex(r.shape):
                r[i] = lift(r[i])
            return r
        raise AnalysisError("array from %r" % (a,))
    asanyarray = asarray
    def ascontiguousarray(self, a, dtype=None):
        r = self.asarray(a, dtype)
        return r if r.flags["C_CONTIGUOUS"] else r.copy()
    def require(self, a, dtype=None, requirements=None):
        return self.ascontiguousarray(a, dtype)
    def copy(self, a, **k):
        return self.array(a)
    def atleast_1d(self, a): return self.asarray(a) if getattr(a, "ndim", 0) else self.asarray([a])
    def ravel(self, a): return a.ravel()
    def reshape(self, a, s): return a.reshape(s)
    def transpose(self, a): return a.T
    exp = staticmethod(elementwise(lambda x: x.exp()))
    log = staticmethod(elementwise(lambda x: x.log()))
    sqrt = staticmethod(elementwise(lambda x: x.sqrt()))
    sin = staticmethod(elementwise(lambda x: x.sin()))
    cos = staticmethod(elementwise(lambda x: x.cos()))
    abs = absolute = staticmethod(elementwise(abs))
    square = staticmethod(elementwise(lambda x: x * x))
    def power(self, a, b): return a ** b
    def multiply(self, a, b): return a * b
    def add(self, a, b): return a + b
    def isnan(self, a):
        if not isinstance(a, _np.ndarray):
            return lift(a).t is NAN
        out = _np.zeros(a.shape, bool)
        for i in _np.ndindex(a.shape):
            out[i] = isinstance(a[i], S) and a[i].t is NAN
        return out
    def isfinite(self, a):
        r = self.isnan(a)
        return ~r if isinstance(r, _np.ndarray) else not r
    def isinf(self, a): return _np.zeros(a.shape, bool) if isinstance(a, _np.ndarray) else False
    def nan_to_num(self, a, copy=True, nan=0., **k):
        r = a.copy() if copy else a
        if isinstance(r, _np.ndarray):
            r[self.isnan(r)] = nan
            return r
        return lift(nan) if lift(r).t is NAN else r
    # order of elements: that of their numbers at the point
    def argsort(self, a, axis=-1, **k):
        a = self.asarray(a)
        if a.ndim != 1:
            raise AnalysisError("argsort of an array of dimension %d" % a.ndim)
        return _np.asarray(sorted(range(a.size), key=_cmp(a)), int)
    def sort(self, a, axis=-1, **k):
        a = self.asarray(a)
        return a[self.argsort(a)]
    def unique(self, a, **k):
        if any(k.values()):
            raise AnalysisError("numpy.unique with more than one result")
        a = self.sort(self.asarray(a).ravel())
        keep = [i for i in range(a.size) if i == 0 or not a[i] == a[i - 1]]
        return a[keep]
    def isclose(self, a, b, **k): return a == b
    def fabs(self, a): return self.abs(a)
    def fmin(self, a, b): return self.minimum(a, b)
    def fmax(self, a, b): return self.maximum(a, b)
    def ptp(self, a, **k): return self.max(a) - self.min(a)
    def atleast_2d(self, a):
        a = self.atleast_1d(a)
        return a if a.ndim > 1 else a.reshape((1, -1))
    def log10(self, a): return self.log(a) / self.log(10)
    def log2(self, a): return self.log(a) / self.log(2)
    def exp2(self, a): return 2 ** a
    def sinh(self, a): return (self.exp(a) - self.exp(-a)) / 2
    def cosh(self, a): return (self.exp(a) + self.exp(-a)) / 2
    def copyto(self, a, b, where=True, **k):
        if where is True: a[...] = b
        else: a[where] = b[where] if isinstance(b, _np.ndarray) else b
    def put(self, a, i, v): a.flat[i] = v
    def putmask(self, a, m, v): a[m] = v[m] if isinstance(v, _np.ndarray) and v.shape == a.shape else v
    def average(self, a, axis=None, weights=None, **k):
        return self.mean(a, axis=axis) if weights is None else self.sum(a * weights, axis=axis) / self.sum(weights, axis=axis)
    def sum(self, a, axis=None, **k):
        if isinstance(a, (list, tuple)):
            a = self.asarray(a)
        r = _np.sum(a, axis=axis)
        return int(r) if isinstance(r, (_np.integer, bool, _np.bool_)) else r
    def count_nonzero(self, a): return int(_np.count_nonzero(a))
    def prod(self, a, axis=None, **k):
        if isinstance(a, (list, tuple)) and all(isinstance(x, (int, _np.integer)) for x in a):
            return int(_np.prod(a, dtype=int))
        r = _np.prod(a, axis=axis)
        return int(r) if isinstance(r, _np.integer) else r
    def pad(self, a, pad_width, mode="constant", **k):
        try:
            r = _np.pad(_np.asarray(a, object), pad_width, mode=mode, **{x: (box(y) if isinstance(y, S) else y) for x, y in k.items()})
        except ValueError as e:
            raise PyRaise("ValueError", str(e))
        except TypeError as e:
            raise PyRaise("TypeError", str(e))
        except NotImplementedError as e:
            raise PyRaise("NotImplementedError", str(e))
        r = r.view(SArr)
        r.dt = getattr(a, "dt", "f8")
        for i in _np.ndindex(r.shape):
            r[i] = lift(r[i])
        return r
    def _cat(self, f, arrs, **k):
        arrs = [x if isinstance(x, _np.ndarray) else self.asarray(x) for x in arrs]
        if not any(isinstance(x, SArr) for x in arrs):
            return f(arrs, **k)
        r = f([_np.asarray(x, object) for x in arrs], **k).view(SArr)
        r.dt = max(getattr(x, "dt", "f4") for x in arrs)
        for i in _np.ndindex(r.shape):
            r[i] = lift(r[i])
        return r
    def concatenate(self, arrs, axis=0, **k): return self._cat(_np.concatenate, arrs, axis=axis)
    def hstack(self, arrs): return self._cat(_np.hstack, arrs)
    def vstack(self, arrs): return self._cat(_np.vstack, arrs)
    def stack(self, arrs, axis=0): return self._cat(_np.stack, arrs, axis=axis)
    def column_stack(self, arrs): return self._cat(_np.column_stack, arrs)
    def append(self, a, b, axis=None): return self._cat(_np.concatenate, [a, b] if axis is not None else [a.ravel(), self.atleast_1d(b).ravel()], axis=axis or 0)
    def insert(self, a, i, v, axis=None):
        r = _np.insert(_np.asarray(a, object), i, v, axis=axis).view(SArr)
        r.dt = getattr(a, "dt", "f8")
        return r
    def where(self, c, *a):
        if not a:
            return _np.where(c)
        x, y = [_np.asarray(v, object) if isinstance(v, _np.ndarray) else box(v) for v in a]
        c, x, y = _np.broadcast_arrays(c, x, y)
        out = _np.empty(c.shape, object)
        for i in _np.ndindex(c.shape):
            out[i] = lift(x[i] if c[i] else y[i])
        return out.view(SArr) if out.shape else out[()]
    def any(self, a, **k): return bool(_np.any(a))
    def all(self, a, **k): return bool(_np.all(a))
    def isscalar(self, x): return isscal(x)
    def ndim(self, x): return x.ndim if isinstance(x, _np.ndarray) else 0
    def size(self, x): return x.size if isinstance(x, _np.ndarray) else 1
    def shape(self, x): return self._shape(x)
    def arange(self, *a, **k): return _np.arange(*a)
    def array_equal(self, a, b):
        return self._shape(a) == self._shape(b) and bool(_np.all(a == b))
    def allclose(self, a, b, **k): return bool(_np.all(a == b))
    def squeeze(self, a): return _np.squeeze(a)
    def minimum(self, a, b): return self.where(a < b, a, b)
    def maximum(self, a, b): return self.where(a < b, b, a)
    def min(self, a, **k): return self._red(min_, a)
    def max(self, a, **k): return self._red(max_, a)
    amin, amax = min, max
    def _red(self, f, a):
        r = None
        for x in a.ravel():
            r = x if r is None else f(r, x)
        return r
    def diff(self, a, **k): return a[1:] - a[:-1]
    def searchsorted(self, a, v, side="left"):
        def one(x):
            n = 0
            for y in a:
                if (y < x) if side == "left" else (y <= x):
                    n += 1
            return n
        return _np.asarray([one(x) for x in v]) if isinstance(v, _np.ndarray) else one(v)
    def trapz(self, y, x=None, dx=1., axis=-1):
        if x is None:
            raise AnalysisError("trapz without abscissae")
        y = _np.moveaxis(_np.asarray(y, object), axis, -1)
        out = None
        for i in range(len(x) - 1):
            v = (x[i + 1] - x[i]) * ((y[..., i] + y[..., i + 1]) / 2) if y.ndim > 1 else (lift(x[i + 1]) - x[i]) * (lift(y[i]) + y[i + 1]) / 2
            out = v if out is None else out + v
        return out if out is not None else S(ZERO)
    trapezoid = trapz
    def interp(self, x, xp, fp, left=None, right=None, period=None):
        xp = self.asarray(xp); fp = self.asarray(fp)
        if xp.shape != fp.shape or xp.ndim != 1:
            raise PyRaise("ValueError", "fp and xp are not of the same length")
        left = fp[0] if left is None else left
        right = fp[-1] if right is None else right
        f = elementwise(lambda z: S(mk("fn", "interp", z.t, tm(left), tm(right), *([tm(u) for u in xp] + [tm(u) for u in fp]))))
        return f(x)
    def dtype(self, d): return DType(dtname(d))
    def errstate(self, **k): return _Null()
    def subtract(self, a, b): return a - b
    def divide(self, a, b): return a / b
    true_divide = divide
    def negative(self, a): return -a
    def reciprocal(self, a): return 1 / a
    def float_power(self, a, b): return a ** b
    def less(self, a, b): return a < b
    def greater(self, a, b): return a > b
    def less_equal(self, a, b): return a <= b
    def greater_equal(self, a, b): return a >= b
    def equal(self, a, b): return a == b
    def not_equal(self, a, b): return a != b
    def clip(self, a, lo, hi, **k):
        if lo is not None: a = self.maximum(a, lo)
        return a if hi is None else self.minimum(a, hi)
    def expm1(self, a): return self.exp(a) - 1
    def log1p(self, a): return self.log(1 + a)
    def mean(self, a, axis=None, **k):
        n = a.size if axis is None else a.shape[axis]
        return self.sum(a, axis=axis) / n
    # functions that only move, add or multiply elements: numpy itself, on arrays of formulas
    PLAIN = ("dot", "vdot", "inner", "outer", "matmul", "cumsum", "cumprod", "tile", "repeat", "expand_dims", "moveaxis", "swapaxes", "broadcast_to",
             "take", "roll", "flip", "einsum", "tensordot", "delete", "split", "array_split", "compress", "extract", "hypot_")
    COUNTS = ("logical_and", "logical_or", "logical_not", "logical_xor", "nonzero", "flatnonzero", "argwhere", "argmax", "argmin", "ix_", "indices", "ndindex", "result_type")
    def __getattr__(self, name):
        if name in self.PLAIN:
            g = getattr(_np, name)
            def conv(x):
                if isinstance(x, SArr): return _np.asarray(x, object)
                if isinstance(x, S): return box(x)
                if isinstance(x, (list, tuple)): return type(x)(conv(y) for y in x)
                return x
            def f(*a, **k):
                if not any(isinstance(x, (SArr, S)) for y in a for x in (y if isinstance(y, (list, tuple)) else [y])):
                    return g(*a, **k)
                if name == "einsum": k.setdefault("optimize", False)
                r = g(*[conv(x) for x in a], **k)
                def back(r):
                    if isinstance(r, list): return [back(x) for x in r]
                    if not isinstance(r, _np.ndarray): return lift(r)
                    if not r.shape: return lift(r[()])
                    r = _np.array(r, object).view(SArr)
                    for i in _np.ndindex(r.shape): r[i] = lift(r[i])
                    return r
                return back(r)
            return f
        if name in self.COUNTS:
            return getattr(_np, name)
        raise AnalysisError("numpy.%s is not modelled" % name)

def _cmp(a):
    import functools
    return functools.cmp_to_key(lambda i, j: -1 if a[i] < a[j] else 1 if a[j] < a[i] else 0)

def min_(a, b): return a if a < b else b
def max_(a, b): return b if a < b else a
NP = _NP()

class _Null(object):
    def __enter__(self): return self
    def __exit__(self, *a): return False

_und = [0]
def fresh_undef():
    _und[0] += 1
    return mk("undef", "py", _und[0])

class PyPoint(Valnum):
    """Numbers of the symbols of the Python layer: wavenumber symbols increase with their index."""
    def scalar(self, name):
        p = name.split(":")
        if p[0] == "ordered":
            return (mpf(p[2]) + 4 + self.rnd(name) / 8) * self.base(p[1])
        if p[0].startswith("k") and len(p) == 2 and p[1].lstrip("-").isdigit():
            return (mpf(int(p[1])) + 2 + self.rnd(name) / 2) * self.base(p[0])
        return self.log_uniform("0.3", 3, name)
    def base(self, n):
        return mpf("0.1")
    def fnval(self, t, name, v):
        if name == "interp":
            x, l, r = v[:3]
            n = (len(v) - 3) // 2
            xp, fp = v[3:3 + n], v[3 + n:]
            if x < xp[0]: return l
            if x > xp[-1]: return r
            for i in range(n - 1):
                if x <= xp[i + 1]:
                    return fp[i] + (x - xp[i]) / (xp[i + 1] - xp[i]) * (fp[i + 1] - fp[i])
            return fp[-1]
        return Valnum.fnval(self, t, name, v)
    def compute(self, t):
        if t.op in ("undef",):
            return self.log_uniform("0.3", 3, "undef", t.args[-1])
        return Valnum.compute(self, t)

# ---------------------------------------------------------------------------- ctypes
class CType(object):
    def __init__(self, name, kind, size, signed=True):
        self.name, self.kind, self.size, self.signed = name, kind, size, signed
    def __call__(self, v=0):
        return CVal(self, v)
    def __mul__(self, n):
        return ("ctarray", self, n)
    def __repr__(self):
        return self.name

class CVal(object):
    def __init__(self, ty, value):
        self.ty, self.value = ty, value

class NdPointer(object):
    def __init__(self, dtype=None, ndim=None, shape=None, flags=None):
        self.dt = dtname(dtype)
        self.shape = None if shape is None else (tuple(shape) if isinstance(shape, (tuple, list)) else (shape,))
        self.ndim = ndim
        if isinstance(flags, str):
            flags = flags.replace(" ", "").split(",")
        self.flags = [f.upper() for f in flags or []]
    def __repr__(self):
        return "ndpointer(%s, %s)" % (self.dt, self.shape)

class CPtr(object):
    """Pointer type, or a pointer to an array made by hand."""
    def __init__(self, to, arr=None):
        self.to, self.arr, self.kind, self.size = to, arr, "ptr", 8
    def __repr__(self):
        return "POINTER(%s)" % (self.to,)

class _CT(object):
    c_double = CType("c_double", "float", 8)
    c_float = CType("c_float", "float", 4)
    c_longdouble = CType("c_longdouble", "float", 16)
    c_int = CType("c_int", "int", 4)
    c_int32 = c_int
    c_uint = CType("c_uint", "int", 4, False)
    c_uint32 = c_uint
    c_short = CType("c_short", "int", 2)
    c_long = CType("c_long", "int", 8)
    c_int64 = c_long
    c_longlong = c_long
    c_ssize_t = c_long
    c_ulong = CType("c_ulong", "int", 8, False)
    c_uint64 = c_ulong
    c_size_t = CType("c_size_t", "int", 8, False)
    c_bool = CType("c_bool", "bool", 1, False)
    c_char_p = CType("c_char_p", "str", 8)
    c_void_p = CType("c_void_p", "void*", 8)
    RTLD_LOCAL, RTLD_GLOBAL, DEFAULT_MODE = 0, 256, 0
    def __init__(self, it):
        self.it = it
    def CDLL(self, path, mode=0, **k):
        return Lib(self.it, path)
    PyDLL = CDLL
    def POINTER(self, t): return CPtr(t)
    def byref(self, x): return x
    def sizeof(self, t): return t.size
    def cast(self, x, t): return x
    def __getattr__(self, name):
        raise AnalysisError("ctypes.%s is not modelled" % name)

class _CTL(object):
    def __init__(self, it):
        self.it = it
    def ndpointer(self, dtype=None, ndim=None, shape=None, flags=None):
        return NdPointer(dtype, ndim, shape, flags)
    def load_library(self, name, path):
        return Lib(self.it, str(path) + "/" + str(name))
    def as_ctypes_type(self, d):
        return _CT.c_double if dtname(d) == "f8" else _CT.c_float

class Lib(object):
    """A handle on the shared library; all handles share the library's state."""
    def __init__(self, it, path):
        self.it, self.path, self.funcs = it, path, {}
        it.libpaths.add(path)
    def get(self, name):
        f = self.funcs.get(name)
        if f is None:
            if self.it.exports is not None and name not in self.it.exports:
                raise PyRaise("AttributeError", "undefined symbol: %s" % name)
            f = self.funcs[name] = CFunc(self, name)
        return f

class CFunc(object):
    def __init__(self, lib, name):
        self.lib, self.name = lib, name
        self.argtypes = None
        self.restype = _CT.c_int
    def __call__(self, *args):
        return self.lib.it.ccall(self, args)

class CCall(object):
    """A recorded call: function, declared types, arguments as passed and as converted."""
    def __init__(self, func, argtypes, restype, args, stack, label):
        self.func, self.argtypes, self.restype, self.args, self.stack, self.label = func, argtypes, restype, args, stack, label
    def __repr__(self):
        return "%s(%s)" % (self.func, ", ".join(str(a)[:40] for a in self.args))

# ---------------------------------------------------------------------------- objects
class Cls(object):
    def __init__(self, name, bases, ns, node):
        self.name, self.bases, self.ns, self.node = name, bases, ns, node
        self.mro = self.lin()
    def lin(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Cls)] + [[b for b in self.bases if isinstance(b, Cls)]]
        out = [self]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                c = s[0]
                if not any(c in t[1:] for t in seqs):
                    break
            else:
                raise AnalysisError("inconsistent bases of %s" % self.name)
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]
        return out
    def find(self, n, after=None):
        mro = self.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for c in mro:
            if n in c.ns:
                return c.ns[n]
        return None
    def has(self, n):
        return any(n in c.ns for c in self.mro)
    def __repr__(self):
        return "<class %s>" % self.name

class Obj(object):
    def __init__(self, cls):
        self.cls, self.d = cls, {}
    def __repr__(self):
        return "<%s object>" % self.cls.name

class Fn(object):
    def __init__(self, node, env, name, defaults, kwdefaults):
        self.node, self.env, self.name, self.defaults, self.kwdefaults = node, env, name, defaults, kwdefaults
        self.cls = None
        self.d = {"__name__": name}
    def __repr__(self):
        return "<function %s>" % self.name

class Bound(object):
    def __init__(self, fn, self_):
        self.fn, self.self_ = fn, self_
    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn is self.fn and o.self_ is self.self_
    def __hash__(self):
        return hash((id(self.fn), id(self.self_)))

class Prop(object):
    def __init__(self, fget=None, fset=None):
        self.fget, self.fset = fget, fset

class Wrap(object):
    """staticmethod / classmethod"""
    def __init__(self, kind, f):
        self.kind, self.f = kind, f

class Super(object):
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj

class Module(object):
    def __init__(self, name, d):
        self.name, self.d = name, d

class Native(object):
    """A modelled function that needs the interpreter."""
    def __init__(self, f):
        self.f = f

class ExcType(object):
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return self.name

class Env(object):
    def __init__(self, parent=None, fn=None):
        self.v, self.parent, self.fn = {}, parent, fn
        self.globals_ = set()
        self.nonlocals = set()
    def get(self, n):
        e = self
        while e is not None:
            if n in e.v:
                return e.v[n]
            e = e.parent
        raise KeyError(n)

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv, ast.Pow: operator.pow, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
          ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor, ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv, ast.Pow: operator.ipow, ast.FloorDiv: operator.ifloordiv, ast.Mod: operator.imod, ast.BitOr: operator.ior, ast.BitAnd: operator.iand}
DUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.Div: "__truediv__", ast.Pow: "__pow__"}
EXC = ("Exception BaseException KeyError ValueError TypeError IndexError AttributeError RuntimeError NotImplementedError AssertionError OSError ImportError StopIteration ZeroDivisionError Warning UserWarning DeprecationWarning").split()

_PARSED = {}
def parse(p):
    src = open(p).read()
    if _PARSED.get(p, (None,))[0] != src:
        _PARSED[p] = (src, ast.parse(src))
    return _PARSED[p][1]

class Interp(object):
    def __init__(self, repo, exports=None, point=None, lib=None):
        self.repo, self.exports = repo, exports
        self.point = point or PyPoint(1)
        POINT[0] = self.point
        self.lib = lib
        self.calls = []
        self.events = []
        self.libpaths = set()
        self.stack = []
        self.envs = []
        self.modules = {}
        self.fuel = 2000000
        self.nfun = 0
        self.funcs_seen = set()
        self.mod = self.load("pyregpt", "pyregpt.py")

    # -- modules
    def load(self, name, fn):
        p = os.path.join(self.repo, "pyregpt", fn)
        tree = parse(p)
        env = Env()
        m = Module(name, env.v)
        self.modules[name] = m
        env.v["__name__"] = "pyregpt." + name
        env.v["__file__"] = p
        self.block(tree.body, env)
        return m

    def classes(self):
        return {n: c for n, c in self.mod.d.items() if isinstance(c, Cls)}

    def pymodule(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in ("numpy",):
            return NP
        if name == "ctypes":
            m = _CT(self)
        elif name == "numpy.ctypeslib":
            m = _CTL(self)
        elif name == "functools":
            # the decorated function itself, so that it stays a method
            wraps = Native(lambda it, a, k: Native(lambda it2, a2, k2: a2[0]))
            m = Module(name, {"wraps": wraps, "partial": lambda f, *a, **k: Native(lambda it, a2, k2: it.call(f, list(a) + list(a2), dict(k, **k2))), "reduce": Native(lambda it, a, k: it.reduce(*a))})
        elif name == "os":
            m = Module(name, {"path": Module("os.path", {"join": os.path.join, "abspath": os.path.abspath, "dirname": os.path.dirname, "basename": os.path.basename, "exists": lambda p: True, "isfile": lambda p: True, "realpath": lambda p: p}), "environ": {}, "sep": "/", "cpu_count": lambda: 8, "getenv": lambda *a: None})
        elif name == "os.path":
            m = self.pymodule("os").d["path"]
        elif name == "scipy.constants":
            m = Module(name, {"pi": S(PI)})
        elif name == "math":
            m = Module(name, {"pi": S(PI), "e": NP.e, "exp": NP.exp, "sqrt": NP.sqrt, "log": NP.log, "sin": NP.sin, "cos": NP.cos, "pow": NP.power, "fabs": NP.abs})
        elif name == "scipy.integrate":
            m = Module(name, {"trapz": NP.trapz, "trapezoid": NP.trapz})
        elif name == "scipy":
            m = Module(name, {"constants": self.pymodule("scipy.constants"), "integrate": self.pymodule("scipy.integrate")})
        elif name == "copy":
            m = Module(name, {"copy": Native(lambda it, a, k: it.copy_(a[0])), "deepcopy": Native(lambda it, a, k: it.deepcopy_(a[0], {}))})
        elif name == "warnings":
            m = Module(name, {"warn": lambda *a, **k: self.events.append(("warn", a))})
        elif name == "logging":
            m = Module(name, {"getLogger": lambda *a: Module("logger", {x: (lambda *a, **k: self.events.append(("log", a))) for x in ("info", "debug", "warning", "error")})})
        elif name in ("itertools", "operator", "collections", "string", "re", "types", "abc", "contextlib", "typing", "__future__"):
            import importlib
            r = importlib.import_module(name)
            m = Module(name, {n: getattr(r, n) for n in dir(r)})
        else:
            fn = name.split(".")[-1] + ".py"
            if os.path.exists(os.path.join(self.repo, "pyregpt", fn)):
                return self.load(name.split(".")[-1], fn)
            raise AnalysisError("module %s is not modelled" % name)
        self.modules[name] = m
        return m

    def copy_(self, x):
        if isinstance(x, Obj):
            f = x.cls.find("__copy__")
            if f is not None:
                return self.call(Bound(f, x), [], {})
            o = Obj(x.cls)
            o.d = dict(x.d)
            return o
        return x.copy() if hasattr(x, "copy") else x

    def deepcopy_(self, x, memo):
        if id(x) in memo:
            return memo[id(x)]
        if isinstance(x, Obj):
            f = x.cls.find("__deepcopy__")
            if f is not None:
                return self.call(Bound(f, x), [memo], {})
            o = Obj(x.cls)
            memo[id(x)] = o
            for k, v in x.d.items():
                o.d[k] = self.deepcopy_(v, memo)
            return o
        if isinstance(x, _np.ndarray):
            r = x.copy()
        elif isinstance(x, dict):
            r = {k: self.deepcopy_(v, memo) for k, v in x.items()}
        elif isinstance(x, list):
            r = [self.deepcopy_(v, memo) for v in x]
        elif isinstance(x, tuple):
            r = tuple(self.deepcopy_(v, memo) for v in x)
        elif isinstance(x, (Lib, CFunc)):
            raise PyRaise("ValueError", "ctypes objects containing pointers cannot be pickled")
        else:
            r = x
        memo[id(x)] = r
        return r

    def reduce(self, f, seq, *init):
        it = iter(self.iterate(seq))
        acc = init[0] if init else next(it)
        for x in it:
            acc = self.call(f, [acc, x], {})
        return acc

    # -- calls into the library
    def ccall(self, f, args):
        conv = []
        at = f.argtypes
        if at is not None and len(at) != len(args):
            if len(args) < len(at):
                raise PyRaise("TypeError", "%s takes %d arguments" % (f.name, len(at)))
        for i, a in enumerate(args):
            t = at[i] if at is not None and i < len(at) else None
            conv.append(self.carg(f, i, t, a))
        c = CCall(f.name, None if at is None else tuple(at), f.restype, conv, [s for s in self.stack], None)
        c.raw = list(args)
        self.calls.append(c)
        r = None
        if self.lib is not None:
            r = self.lib.call(self, c)
        if f.restype is None:
            return None
        return r if r is not None else S(sym("ret", f.name, str(len(self.calls))))

    def carg(self, f, i, t, a):
        """(type the callee receives, value)"""
        def bad(msg):
            raise PyRaise("ArgumentError", "%s argument %d: %s" % (f.name, i + 1, msg))
        if isinstance(a, CVal):
            if isinstance(a.ty, CType):
                return a.ty, a.value
        if isinstance(t, NdPointer):
            if not isinstance(a, _np.ndarray):
                bad("not an array")
            d = getattr(a, "dt", None) or dtname(a.dtype)
            if t.dt is not None and d != t.dt:
                bad("array of %s, expected %s" % (d, t.dt))
            if t.ndim is not None and a.ndim != t.ndim:
                bad("array has %d dimensions" % a.ndim)
            if t.shape is not None and tuple(a.shape) != tuple(int(x) for x in t.shape):
                bad("array must have shape %s" % (t.shape,))
            if any(x in ("C_CONTIGUOUS", "CONTIGUOUS", "C") for x in t.flags) and not a.flags["C_CONTIGUOUS"]:
                bad("array must be contiguous")
            return t, a
        if isinstance(t, CPtr) or isinstance(a, CPtr):
            if isinstance(a, CPtr) and a.arr is not None:
                return (t or a), a.arr
            bad("pointer expected")
        if t is None:
            if isinstance(a, (bytes,)):
                return _CT.c_char_p, a
            if isinstance(a, str):
                return CType("wchar*", "wstr", 8), a
            if isinstance(a, (bool, int, _np.integer)):
                return _CT.c_int, int(a)
            if a is None:
                return _CT.c_void_p, None
            bad("don't know how to convert")
        if t.kind == "str":
            if not (isinstance(a, bytes) or a is None):
                bad("bytes expected, got %r" % (a,))
            return t, a
        if t.kind == "float":
            if not isscal(a):
                bad("number expected")
            return t, a
        if t.kind in ("int", "bool"):
            if isinstance(a, (float, str, bytes)) or a is None or isinstance(a, _np.ndarray):
                bad("integer expected, got %r" % (a,))
            return t, a
        raise AnalysisError("argument type %r" % (t,))

    # -- statements
    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.fuel -= 1
        if self.fuel < 0:
            raise AnalysisError("analysis of the Python layer does not end")
        self.line = getattr(s, "lineno", None)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise AnalysisError("statement %s" % type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env): self.ev(s.value, env)
    def s_Pass(self, s, env): pass
    def s_Global(self, s, env): env.globals_ |= set(s.names)
    def s_Nonlocal(self, s, env): env.nonlocals |= set(s.names)
    def s_Break(self, s, env): raise _Break()
    def s_Continue(self, s, env): raise _Continue()
    def s_Return(self, s, env): raise _Return(None if s.value is None else self.ev(s.value, env))

    def s_Import(self, s, env):
        for a in s.names:
            m = self.pymodule(a.name)
            if a.asname:
                env.v[a.asname] = m
            else:
                env.v[a.name.split(".")[0]] = self.pymodule(a.name.split(".")[0])

    def s_ImportFrom(self, s, env):
        for a in s.names:
            nm = a.asname or a.name
            if s.level and not s.module:
                env.v[nm] = self.pymodule(a.name)
            elif s.level:
                env.v[nm] = self.pymodule(s.module).d[a.name]
            elif (s.module, a.name) in (("numpy", "ctypeslib"), ("scipy", "constants"), ("scipy", "integrate"), ("os", "path")):
                env.v[nm] = self.pymodule(s.module + "." + a.name)
            else:
                env.v[nm] = self.attr(self.pymodule(s.module), a.name)

    def s_FunctionDef(self, s, env):
        f = self.mkfn(s, env, s.name)
        v = f
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.assign_name(s.name, v, env)

    def mkfn(self, s, env, name):
        a = s.args
        f = Fn(s, env, name, [self.ev(x, env) for x in a.defaults], [None if x is None else (self.ev(x, env),) for x in a.kw_defaults])
        return f

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        e = Env(env)
        e.isclass = True
        self.block(s.body, e)
        c = Cls(s.name, bases, e.v, s)
        for v in e.v.values():
            self.own(v, c)
        v = c
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, env), [v], {})
        self.assign_name(s.name, v, env)

    def own(self, v, c):
        if isinstance(v, Fn):
            if v.cls is None:
                v.cls = c
        elif isinstance(v, Prop):
            self.own(v.fget, c); self.own(v.fset, c)
        elif isinstance(v, Wrap):
            self.own(v.f, c)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def truth(self, v):
        if isinstance(v, Obj):
            for n in ("__bool__", "__len__"):
                f = v.cls.find(n)
                if f is not None:
                    return bool(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, _np.ndarray) and v.size > 1:
            raise PyRaise("ValueError", "truth value of an array")
        if isinstance(v, SArr):
            return bool(v.ravel()[0]) if v.size else False
        return bool(v)

    def s_For(self, s, env):
        brk = False
        for x in self.iterate(self.ev(s.iter, env)):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except _Break:
                brk = True
                break
            except _Continue:
                continue
        if not brk:
            self.block(s.orelse, env)

    def s_While(self, s, env):
        brk = False
        while self.truth(self.ev(s.test, env)):
            self.fuel -= 10
            if self.fuel < 0:
                raise AnalysisError("analysis of the Python layer does not end")
            try:
                self.block(s.body, env)
            except _Break:
                brk = True
                break
            except _Continue:
                continue
        if not brk:
            self.block(s.orelse, env)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        t = s.target
        if isinstance(t, ast.Name):
            a = self.ev_Name(t, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            a = self.attr(o, t.attr)
        else:
            o, i = self.ev(t.value, env), self.index(t.slice, env)
            a = self.getitem(o, i)
        b = self.ev(s.value, env)
        v = self.arith(IOPS.get(type(s.op), BINOPS[type(s.op)]), a, b, s.op, True)
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(o, t.attr, v)
        else:
            self.setitem(o, i, v)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                del env.v[t.id]
            elif isinstance(t, ast.Attribute):
                del self.ev(t.value, env).d[t.attr]
            else:
                o, i = self.ev(t.value, env), self.index(t.slice, env)
                f = o.cls.find("__delitem__") if isinstance(o, Obj) else None
                if f is not None:
                    self.call(Bound(f, o), [i], {})
                else:
                    del o[i]

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            raise PyRaise("AssertionError", "")

    def s_Raise(self, s, env):
        if s.exc is None:
            raise self.exc
        v = self.ev(s.exc, env)
        if isinstance(v, ExcType):
            raise PyRaise(v.name)
        if isinstance(v, PyRaise):
            raise v
        if isinstance(v, Obj):
            raise PyRaise(v.cls.name)
        raise AnalysisError("raise %r" % (v,))

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except (KeyError, IndexError, TypeError, ValueError, AttributeError) as e:
                if isinstance(e, AnalysisError):
                    raise
                raise PyRaise(type(e).__name__, str(e))
            self.block(s.orelse, env)
        except PyRaise as e:
            for h in s.handlers:
                ok = h.type is None
                if not ok:
                    ts = self.ev(h.type, env)
                    ts = ts if isinstance(ts, tuple) else (ts,)
                    ok = any(self.excmatch(e, t) for t in ts)
                if ok:
                    if h.name:
                        env.v[h.name] = e
                    self.exc = e
                    self.block(h.body, env)
                    break
            else:
                raise
        finally:
            self.block(s.finalbody, env)

    def excmatch(self, e, t):
        n = getattr(t, "name", str(t))
        return n in (e.name, "Exception", "BaseException") or n == "LookupError" and e.name in ("KeyError", "IndexError")

    def s_With(self, s, env):
        for it in s.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, Obj):
                r = self.call(self.attr(v, "__enter__"), [], {})
            else:
                r = v.__enter__()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, env)
        try:
            self.block(s.body, env)
        finally:
            for it in s.items:
                if isinstance(v, Obj):
                    self.call(self.attr(v, "__exit__"), [None, None, None], {})

    # -- assignment
    def assign_name(self, n, v, env):
        if n in env.globals_:
            e = env
            while e.parent is not None:
                e = e.parent
            e.v[n] = v
        elif n in env.nonlocals:
            e = env.parent
            while e is not None and n not in e.v:
                e = e.parent
            e.v[n] = v
        else:
            env.v[n] = v

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                n = len(t.elts) - 1
                for e, x in zip(t.elts[:i], vs[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, vs[i:len(vs) - (n - i)], env)
                for e, x in zip(t.elts[i + 1:], vs[len(vs) - (n - i):]):
                    self.assign(e, x, env)
            else:
                if len(vs) != len(t.elts):
                    raise PyRaise("ValueError", "unpack")
                for e, x in zip(t.elts, vs):
                    self.assign(e, x, env)
        else:
            raise AnalysisError("assignment to %s" % type(t).__name__)

    def setattr(self, o, n, v):
        if isinstance(o, Obj):
            p = o.cls.find(n)
            if isinstance(p, Prop):
                if p.fset is None:
                    raise PyRaise("AttributeError", "can't set %s" % n)
                self.call(p.fset, [o, v], {})
                return
            f = o.cls.find("__setattr__")
            if f is not None:
                self.call(Bound(f, o), [n, v], {})
                return
            o.d[n] = v
        elif isinstance(o, Cls):
            o.ns[n] = v
        elif isinstance(o, CFunc):
            if n == "argtypes":
                o.argtypes = None if v is None else tuple(self.iterate(v))
            else:
                setattr(o, n, v)
        elif isinstance(o, _np.ndarray) and n == "shape":
            try:
                o.shape = tuple(int(x) for x in v) if isinstance(v, (tuple, list)) else v
            except (ValueError, AttributeError) as e:
                raise PyRaise(type(e).__name__, str(e))
        elif isinstance(o, Fn):
            o.d[n] = v
        elif isinstance(o, Module):
            o.d[n] = v
        else:
            raise AnalysisError("attribute %s of %r" % (n, o))

    def setitem(self, o, i, v):
        if isinstance(o, Obj):
            f = o.cls.find("__setitem__")
            if f is None:
                raise PyRaise("TypeError", "no item assignment")
            self.call(Bound(f, o), [i, v], {})
            return
        if isinstance(o, SArr):
            self.setarr(o, i, v)
            return
        try:
            o[i] = v
        except (IndexError, KeyError, TypeError, ValueError) as e:
            raise PyRaise(type(e).__name__, str(e))

    def setarr(self, o, i, v):
        try:
            if isinstance(v, (S, int, float, _np.integer, _np.floating)):
                tgt = o[i]
                if isinstance(tgt, _np.ndarray):
                    o[i] = box(lift(v))
                else:
                    o[i] = lift(v)
            else:
                a = NP.asarray(v)
                b = _np.empty(a.shape, object)
                for j in _np.ndindex(a.shape):
                    b[j] = lift(a[j])
                o[i] = b
        except (ValueError, IndexError) as e:
            raise PyRaise(type(e).__name__, str(e))

    # -- expressions
    def ev(self, e, env):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("expression %s" % type(e).__name__)
        return m(e, env)

    def ev_Constant(self, e, env): return e.value
    def ev_Starred(self, e, env): raise AnalysisError("starred expression")

    def ev_Name(self, e, env):
        n = e.id
        x = env
        first = True
        while x is not None:
            if n in x.v and (first or not getattr(x, "isclass", False)):
                return x.v[n]
            first = False
            x = x.parent
        return self.builtin(n, env)

    def builtin(self, n, env):
        if n in EXC:
            return ExcType(n)
        if n == "object":
            return OBJECT
        f = getattr(self, "b_" + n, None)
        if f is not None:
            return Native(lambda it, a, k, f=f, env=env: f(env, a, k))
        if n in ("True", "False", "None"):
            return {"True": True, "False": False, "None": None}[n]
        if n in ("str", "int", "float", "bool", "dict", "tuple", "list", "set", "bytes", "slice", "complex", "frozenset"):
            return {"str": str, "int": int, "float": float, "bool": bool, "dict": dict, "tuple": tuple, "list": list, "set": set, "bytes": bytes, "slice": slice, "complex": complex, "frozenset": frozenset}[n]
        if n == "NotImplemented":
            return NotImplemented
        if n == "Ellipsis":
            return Ellipsis
        raise PyRaise("NameError", n)

    def ev_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def ev_List(self, e, env): return list(self.elts(e.elts, env))
    def ev_Set(self, e, env): return set(self.elts(e.elts, env))
    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out
    def ev_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.ev(v, env))
            else:
                d[self.ev(k, env)] = self.ev(v, env)
        return d

    def ev_BinOp(self, e, env):
        return self.arith(BINOPS[type(e.op)], self.ev(e.left, env), self.ev(e.right, env), e.op)

    def arith(self, op, a, b, node, inplace=False):
        if isinstance(a, Obj) or isinstance(b, Obj):
            n = DUNDER.get(type(node))
            if n and isinstance(a, Obj) and a.cls.find(n):
                return self.call(Bound(a.cls.find(n), a), [b], {})
            if n and isinstance(b, Obj) and b.cls.find("__r" + n[2:]):
                return self.call(Bound(b.cls.find("__r" + n[2:]), b), [a], {})
            raise PyRaise("TypeError", "operand types")
        if isinstance(a, S) and isinstance(b, _np.ndarray):
            a = box(a)
        if isinstance(b, S) and isinstance(a, _np.ndarray):
            b = box(b)
        if isinstance(node, ast.Mod) and isinstance(a, str):
            return a % (b if not isinstance(b, S) else repr(b))
        if inplace and not isinstance(a, (_np.ndarray, list, dict, set)):
            op = {operator.iadd: operator.add, operator.isub: operator.sub, operator.imul: operator.mul, operator.itruediv: operator.truediv, operator.ipow: operator.pow}.get(op, op)
        if isinstance(a, float) and isinstance(b, (int, float)) or isinstance(b, float) and isinstance(a, int):
            # exact arithmetic on literals
            if isinstance(node, (ast.Add, ast.Sub, ast.Mult, ast.Div, ast.Pow)) and not (a != a or b != b or abs(a) == float("inf") or abs(b) == float("inf")):
                return (lambda x: S(x.t))(op(S(tm(a)), b)) if not isinstance(node, ast.Pow) else S(power(tm(a), tm(b)))
        if isinstance(a, int) and isinstance(b, int) and isinstance(node, ast.Div) and b:
            return S(div(num(a), num(b)))
        try:
            r = op(a, b)
        except (TypeError, ValueError, ZeroDivisionError) as x:
            raise PyRaise(type(x).__name__, str(x))
        if isinstance(r, _np.ndarray) and r.dtype == object and not isinstance(r, SArr):
            r = r.view(SArr)
        if isinstance(r, SArr) and not inplace:
            ds = [getattr(x, "dt", None) for x in (a, b) if isinstance(x, SArr)]
            r.dt = max(ds) if ds else "f8"
        return r

    def ev_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return +v
        return ~v

    def ev_BoolOp(self, e, env):
        a = isinstance(e.op, ast.And)
        for x in e.values:
            v = self.ev(x, env)
            if self.truth(v) != a:
                return v
        return v

    def ev_Compare(self, e, env):
        l = self.ev(e.left, env)
        r = True
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, env)
            r = self.compare(op, l, b)
            if len(e.ops) > 1 and not self.truth(r):
                return r
            l = b
        return r

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return a is b
        if isinstance(op, ast.IsNot):
            return a is not b
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, Obj) and isinstance(op, (ast.Eq, ast.NotEq)):
            f = a.cls.find("__eq__")
            r = self.call(Bound(f, a), [b], {}) if f is not None else a is b
            return r if isinstance(op, ast.Eq) else not r
        if isinstance(a, S) and isinstance(b, SArr):
            a = sarr([a], ())
        f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge, ast.Eq: operator.eq, ast.NotEq: operator.ne}[type(op)]
        if isinstance(a, (int, float)) and isinstance(b, SArr):
            a = sarr([a], ())
        try:
            r = f(a, b)
        except TypeError as x:
            raise PyRaise("TypeError", str(x))
        if isinstance(r, _np.ndarray) and r.shape == ():
            r = bool(r)
        return r

    def contains(self, o, x):
        if isinstance(o, Obj):
            f = o.cls.find("__contains__")
            if f is not None:
                return self.truth(self.call(Bound(f, o), [x], {}))
            return any(y == x for y in self.iterate(o))
        return x in o

    def ev_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def ev_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def ev_Lambda(self, e, env):
        return self.mkfn(e, env, "<lambda>")

    def ev_JoinedStr(self, e, env):
        out = ""
        for x in e.values:
            out += x.value if isinstance(x, ast.Constant) else str(self.ev(x.value, env))
        return out

    def comp(self, gens, env, f):
        e = Env(env)
        out = []
        def go(i):
            if i == len(gens):
                out.append(f(e))
                return
            g = gens[i]
            for x in self.iterate(self.ev(g.iter, e)):
                self.assign(g.target, x, e)
                if all(self.truth(self.ev(c, e)) for c in g.ifs):
                    go(i + 1)
        go(0)
        return out
    def ev_ListComp(self, e, env): return self.comp(e.generators, env, lambda v: self.ev(e.elt, v))
    def ev_GeneratorExp(self, e, env): return iter(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))
    def ev_SetComp(self, e, env): return set(self.comp(e.generators, env, lambda v: self.ev(e.elt, v)))
    def ev_DictComp(self, e, env): return dict(self.comp(e.generators, env, lambda v: (self.ev(e.key, v), self.ev(e.value, v))))

    def ev_Yield(self, e, env):
        x = env
        while getattr(x, "yields", None) is None:
            x = x.parent
        x.yields.append(None if e.value is None else self.ev(e.value, env))
        return None
    def ev_YieldFrom(self, e, env):
        x = env
        while getattr(x, "yields", None) is None:
            x = x.parent
        x.yields.extend(self.iterate(self.ev(e.value, env)))

    def index(self, s, env):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.toint(self.ev(x, env))
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple):
            return tuple(self.index(x, env) for x in s.elts)
        return self.ev(s, env)
    ev_Slice = lambda self, s, env: self.index(s, env)

    def toint(self, x):
        if isinstance(x, S) and x.t.op == "num" and x.t.args[0].denominator == 1:
            return int(x.t.args[0])
        return x

    def ev_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.index(e.slice, env))

    def getitem(self, o, i):
        if isinstance(o, Obj):
            f = o.cls.find("__getitem__")
            if f is None:
                raise PyRaise("TypeError", "not subscriptable")
            return self.call(Bound(f, o), [i], {})
        if isinstance(i, SArr):
            raise PyRaise("IndexError", "arrays used as indices must be of integer type")
        try:
            return o[i]
        except (KeyError, IndexError, TypeError) as e:
            raise PyRaise(type(e).__name__, str(e))

    def ev_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr)

    def attr(self, o, n):
        if isinstance(o, Obj):
            p = o.cls.find(n)
            if isinstance(p, Prop):
                return self.call(p.fget, [o], {})
            if n in o.d:
                return o.d[n]
            if n == "__dict__":
                return o.d
            if n == "__class__":
                return o.cls
            if p is not None or o.cls.has(n):
                return self.bind(p, o, o.cls)
            f = o.cls.find("__getattr__")
            if f is not None:
                return self.call(Bound(f, o), [n], {})
            if n in ("__init__", "__init_subclass__"):
                return Native(lambda it, a, k: None)
            if n == "__setattr__":
                return lambda k, v: o.d.__setitem__(k, v)
            raise PyRaise("AttributeError", "%s has no attribute %s" % (o.cls.name, n))
        if isinstance(o, Super):
            p = None
            mro = o.obj.cls.mro if isinstance(o.obj, Obj) else o.obj.mro
            found = False
            for c in mro[mro.index(o.cls) + 1:]:
                if n in c.ns:
                    p, found = c.ns[n], True
                    break
            if not found:
                if n in ("__init__", "__setattr__"):
                    return Native(lambda it, a, k: None) if n == "__init__" else (lambda k, v: o.obj.d.__setitem__(k, v))
                if n == "__new__":
                    return Native(lambda it, a, k: Obj(a[0]))
                raise PyRaise("AttributeError", n)
            if isinstance(p, Prop):
                return self.call(p.fget, [o.obj], {})
            return self.bind(p, o.obj, o.obj.cls if isinstance(o.obj, Obj) else o.obj)
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            if n == "__new__" and not o.has(n):
                return Native(lambda it, a, k: Obj(a[0]))
            if n == "__mro__":
                return tuple(o.mro)
            if n == "__bases__":
                return tuple(o.bases)
            if n == "__dict__":
                return o.ns
            if not o.has(n):
                raise PyRaise("AttributeError", "%s has no attribute %s" % (o.name, n))
            v = o.find(n)
            if isinstance(v, Wrap):
                return v.f if v.kind == "static" else Bound(v.f, o)
            return v
        if isinstance(o, Module):
            if n in o.d:
                return o.d[n]
            raise AnalysisError("%s.%s is not modelled" % (o.name, n))
        if isinstance(o, Lib):
            return o.get(n)
        if isinstance(o, Prop):
            if n == "setter":
                return lambda f: Prop(o.fget, f)
        if isinstance(o, Fn):
            if n in o.d:
                return o.d[n]
            raise PyRaise("AttributeError", n)
        if isinstance(o, SArr):
            if n == "dtype":
                return DType(o.dt)
            if n == "astype":
                def astype(d, copy=True, **k):
                    r = o.copy() if copy or dtname(d) != o.dt else o
                    r.dt = dtname(d)
                    return r
                return astype
            if n == "ctypes":
                return Module("ctypes", {"data_as": lambda t: CPtr(t, o), "data": CPtr(None, o)})
            if n == "tolist":
                return lambda: list(o)
            if n == "sum":
                return lambda *a, **k: NP.sum(o, *a, **k)
            if n in ("min", "max"):
                return lambda *a, **k: getattr(NP, n)(o)
            if n == "fill":
                return lambda v: self.setarr(o, slice(None), v)
            if n == "sort":
                return lambda *a, **k: self.setarr(o, slice(None), NP.sort(o, *a, **k))
            if n in ("argsort", "mean", "cumsum", "dot"):
                return lambda *a, **k: getattr(NP, n)(o, *a, **k)
            if n in ("view",):
                raise AnalysisError("array method %s is not modelled" % n)
            if n in ("reshape", "ravel", "flatten", "copy", "T", "shape", "size", "ndim", "flags", "base", "transpose", "squeeze", "nbytes", "itemsize", "any", "all", "swapaxes", "repeat", "resize", "strides"):
                v = getattr(o, n)
                if n == "itemsize":
                    return int(o.dt[1:])
                return v
            raise AnalysisError("array attribute %s is not modelled" % n)
        if isinstance(o, Bound):
            if n == "__self__":
                return o.self_
            if n == "__func__":
                return o.fn
            return self.attr(o.fn, n)
        if isinstance(o, S):
            if n in ("real",):
                return o
            if n in ("ndim", "size", "shape"):
                return {"ndim": 0, "size": 1, "shape": ()}[n]
            if n in ("item", "copy"):
                return lambda: o
            raise PyRaise("AttributeError", n)
        if isinstance(o, PyRaise):
            return {"args": (o.msg,)}[n]
        if isinstance(o, Env):
            raise AnalysisError("attribute of a scope")
        try:
            return getattr(o, n)
        except AttributeError as e:
            raise PyRaise("AttributeError", str(e))

    def bind(self, p, o, cls):
        if isinstance(p, (Fn,)):
            return Bound(p, o)
        if isinstance(p, Native):
            return p
        if isinstance(p, Wrap):
            return p.f if p.kind == "static" else Bound(p.f, cls)
        return p

    def iterate(self, o):
        if isinstance(o, Obj):
            f = o.cls.find("__iter__")
            if f is not None:
                return self.iterate(self.call(Bound(f, o), [], {}))
            n = self.call(Bound(o.cls.find("__len__"), o), [], {})
            return [self.getitem(o, i) for i in range(n)]
        try:
            return iter(o)
        except TypeError as e:
            raise PyRaise("TypeError", str(e))

    def ev_Call(self, e, env):
        f = self.ev(e.func, env)
        args = self.elts(e.args, env)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env))
            else:
                kw[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kw, env)

    def call(self, f, args, kw, env=None):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, Fn):
            return self.callfn(f, args, kw)
        if isinstance(f, Native):
            return f.f(self, args, kw)
        if isinstance(f, Cls):
            new = f.find("__new__")
            o = self.call(new.f if isinstance(new, Wrap) else new, [f] + list(args), kw) if new is not None else Obj(f)
            i = f.find("__init__")
            if i is not None:
                self.call(Bound(i, o), args, kw)
            elif args or kw:
                if not any(isinstance(b, ExcType) for b in f.bases) and new is None:
                    raise PyRaise("TypeError", "%s() takes no arguments" % f.name)
            return o
        if isinstance(f, ExcType):
            return PyRaise(f.name, str(args[0]) if args else "")
        if isinstance(f, Obj):
            return self.call(self.attr(f, "__call__"), args, kw)
        if f is OBJECT:
            return Obj(Cls("object", [], {}, None))
        if isinstance(f, CType):
            return f(*args)
        if f in (float, int) if not isinstance(f, (_np.ndarray, S)) and isinstance(f, type) else False:
            x = args[0] if args else 0
            if isinstance(x, SArr) and x.size == 1:
                x = x.ravel()[0]
            if isinstance(x, S):
                if f is int:
                    if x.t.op == "num":
                        return int(x.t.args[0])
                    raise AnalysisError("int() of a symbolic number")
                return x
            return f(x)
        if f in (list, tuple, set, dict) if isinstance(f, type) else False:
            if args and isinstance(args[0], Obj):
                return f(self.iterate(args[0]))
            return f(*args, **kw)
        if f is str:
            return str(args[0]) if len(args) == 1 else str(*args)
        if callable(f):
            args = [self.pyfun(a) for a in args]
            try:
                r = f(*args, **{k: self.pyfun(v) for k, v in kw.items()})
            except (KeyError, IndexError, TypeError, ValueError) as x:
                if isinstance(x, AnalysisError):
                    raise
                raise PyRaise(type(x).__name__, str(x))
            except AttributeError as x:
                raise AnalysisError("in %s: %s" % (f, x))
            if isinstance(r, _np.ndarray) and r.dtype == object and not isinstance(r, SArr):
                r = r.view(SArr)
            return r
        raise PyRaise("TypeError", "%r is not callable" % (f,))

    def pyfun(self, a):
        if isinstance(a, (Fn, Bound, Native)):
            return lambda *x, **k: self.call(a, list(x), k)
        return a

    def callfn(self, f, args, kw):
        a = f.node.args
        env = Env(f.env, f)
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        vals = {}
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg is not None:
            vals[a.vararg.arg] = tuple(args[len(names):])
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in vals:
                if n in kw:
                    raise PyRaise("TypeError", "%s() got multiple values for argument %s" % (f.name, n))
                continue
            if n in kw:
                vals[n] = kw.pop(n)
            elif i >= len(names) - nd:
                vals[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise PyRaise("TypeError", "%s() missing argument %s" % (f.name, n))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                vals[x.arg] = kw.pop(x.arg)
            elif d is not None:
                vals[x.arg] = d[0]
            else:
                raise PyRaise("TypeError", "%s() missing argument %s" % (f.name, x.arg))
        if a.kwarg is not None:
            vals[a.kwarg.arg] = kw
        elif kw:
            raise PyRaise("TypeError", "%s() got an unexpected keyword argument %s" % (f.name, sorted(kw)[0]))
        env.v.update(vals)
        self.nfun += 1
        qual = (f.cls.name + "." if f.cls is not None else "") + f.name
        self.funcs_seen.add(qual)
        if len(self.stack) > 150:
            raise AnalysisError("recursion in the Python layer: %s" % qual)
        self.stack.append((qual, vals.get(names[0]) if names else None, self.__dict__.get("line")))
        self.envs.append(env)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            gen = isgen(f.node)
            if gen:
                env.yields = []
            try:
                self.block(f.node.body, env)
            except _Return as r:
                if not gen:
                    return r.v
            if gen:
                return iter(env.yields)
            return None
        finally:
            self.stack.pop()
            self.envs.pop()

    # -- builtins
    def b_len(self, env, a, k):
        o = a[0]
        if isinstance(o, Obj):
            f = o.cls.find("__len__")
            if f is None:
                raise PyRaise("TypeError", "no len()")
            return self.call(Bound(f, o), [], {})
        if isinstance(o, S):
            raise PyRaise("TypeError", "no len()")
        return len(o)
    def b_super(self, env, a, k):
        if a:
            return Super(a[0], a[1])
        e = env
        while e.fn is None or e.fn.cls is None:
            e = e.parent
        n = [x.arg for x in e.fn.node.args.posonlyargs + e.fn.node.args.args][0]
        return Super(e.fn.cls, e.v[n])
    def b_isinstance(self, env, a, k):
        o, ts = a
        ts = ts if isinstance(ts, tuple) else (ts,)
        for t in ts:
            if isinstance(t, Cls):
                if isinstance(o, Obj) and t in o.cls.mro:
                    return True
            elif t is OBJECT:
                return True
            elif t is float:
                if isinstance(o, (float, S)):
                    return True
            elif isinstance(t, ExcType):
                if isinstance(o, PyRaise) and self.excmatch(o, t):
                    return True
            elif isinstance(t, type) and isinstance(o, t):
                return True
        return False
    def b_issubclass(self, env, a, k):
        ts = a[1] if isinstance(a[1], tuple) else (a[1],)
        return any(t in a[0].mro for t in ts)
    def b_hasattr(self, env, a, k):
        try:
            self.attr(a[0], a[1])
            return True
        except PyRaise as e:
            if e.name == "AttributeError":
                return False
            raise
    def b_getattr(self, env, a, k):
        try:
            return self.attr(a[0], a[1])
        except PyRaise as e:
            if e.name == "AttributeError" and len(a) > 2:
                return a[2]
            raise
    def b_setattr(self, env, a, k): self.setattr(*a)
    def b_delattr(self, env, a, k): del a[0].d[a[1]]
    def b_property(self, env, a, k): return Prop(*a, **k)
    def b_staticmethod(self, env, a, k): return Wrap("static", a[0])
    def b_classmethod(self, env, a, k): return Wrap("class", a[0])
    def b_print(self, env, a, k): self.events.append(("print", a))
    def b_open(self, env, a, k):
        self.events.append(("open", a))
        raise AnalysisError("open() in the Python layer")
    def b_type(self, env, a, k):
        if len(a) == 3:
            return Cls(a[0], list(a[1]), dict(a[2]), None)
        return a[0].cls if isinstance(a[0], Obj) else type(a[0])
    def b_iter(self, env, a, k): return iter(self.iterate(a[0]))
    def b_next(self, env, a, k):
        try:
            return next(a[0])
        except StopIteration:
            if len(a) > 1:
                return a[1]
            raise PyRaise("StopIteration")
    def b_range(self, env, a, k): return range(*[self.toint(x) for x in a])
    def b_enumerate(self, env, a, k): return list(enumerate(self.iterate(a[0]), *a[1:], **k))
    def b_zip(self, env, a, k): return list(zip(*[list(self.iterate(x)) for x in a]))
    def b_map(self, env, a, k): return [self.call(a[0], list(x), {}) for x in zip(*[list(self.iterate(y)) for y in a[1:]])]
    def b_filter(self, env, a, k): return [x for x in self.iterate(a[1]) if self.truth(x if a[0] is None else self.call(a[0], [x], {}))]
    def b_sorted(self, env, a, k):
        key = k.get("key")
        return sorted(list(self.iterate(a[0])), key=None if key is None else (lambda x: self.call(key, [x], {})), reverse=bool(k.get("reverse")))
    def b_reversed(self, env, a, k): return list(self.iterate(a[0]))[::-1]
    def b_sum(self, env, a, k):
        acc = a[1] if len(a) > 1 else k.get("start", 0)
        for x in self.iterate(a[0]):
            acc = self.arith(operator.add, acc, x, ast.Add())
        return acc
    def b_min(self, env, a, k):
        r = None
        for x in (a if len(a) > 1 else self.iterate(a[0])):
            r = x if r is None else (x if x < r else r)
        return r
    def b_max(self, env, a, k):
        r = None
        for x in (a if len(a) > 1 else self.iterate(a[0])):
            r = x if r is None else (x if r < x else r)
        return r
    def b_abs(self, env, a, k): return abs(a[0])
    def b_any(self, env, a, k): return any(self.truth(x) for x in self.iterate(a[0]))
    def b_all(self, env, a, k): return all(self.truth(x) for x in self.iterate(a[0]))
    def b_callable(self, env, a, k): return isinstance(a[0], (Fn, Bound, Native, Cls)) or callable(a[0])
    def b_vars(self, env, a, k): return a[0].d
    def b_id(self, env, a, k): return id(a[0])
    def b_repr(self, env, a, k): return repr(a[0])
    def b_round(self, env, a, k): return a[0]
    def b_hash(self, env, a, k): return hash(a[0])
    def b_format(self, env, a, k): return str(a[0])

class _Object(object):
    def __repr__(self):
        return "object"
OBJECT = _Object()

_gen = {}
def isgen(node):
    r = _gen.get(id(node))
    if r is None:
        r = False
        stack = list(node.body) if isinstance(node.body, list) else []
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if not isinstance(x, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp)):
                stack += list(ast.iter_child_nodes(x))
        _gen[id(node)] = (r, node)
        return r
    return r[0]
