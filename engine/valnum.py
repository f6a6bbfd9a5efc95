"""Global value numbering of the value graph by random interpretation.

Each node is given a number in a high-precision real field.  Settings, tables, quadrature nodes and
weights, integrals and table lookups are uninterpreted: leaves and uninterpreted functions get
pseudo-random numbers (functions of the numbers of their arguments), quadratures and integrals are
formal linear functionals, table lookups are formal maps homogeneous in the table values and in the
unit of the table abscissae.  Two expressions equal as formulas get equal numbers; different ones get
different numbers except with negligible probability.  Guards are decided by the order of the
numbers; the arms taken are recorded.
"""
import hashlib
from fractions import Fraction
import mpmath
from mpmath import mp, mpf
from mpmath.libmp import MPZ
import terms as TM
from terms import T, AnalysisError

PREC = 260
mp.prec = PREC

_free = {}
def freelv(t):
    """Bound-variable leaves (lv, formals) a node depends on."""
    r = _free.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        u = stack[-1]
        if u in _free:
            stack.pop()
            continue
        ch = [a for a in u.args if isinstance(a, T)]
        todo = [a for a in ch if a not in _free]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        if u.op == "lv" or u.op == "sym" and u.args[0] == "formal":
            s = frozenset((u,))
        else:
            s = frozenset().union(*[_free[a] for a in ch]) if ch else frozenset()
            if u.op == "sum":
                s = s - {u.args[0]}
            elif u.op in ("lookup", "sigd2"):
                s = s - {u.args[0]}
            elif u.op == "integ":
                s = s - set(u.args[1:-1])
        _free[u] = s
    return _free[t]

def key(x):
    """Hash key of a number: equal for numbers equal up to rounding."""
    if isinstance(x, mpf):
        if x == 0:
            return "0"
        return mpmath.nstr(x, 35)
    return str(x)

def h01(*parts):
    """Pseudo-random number in (0,1)."""
    d = hashlib.sha256("|".join(key(p) for p in parts).encode()).digest()
    return mpf(int.from_bytes(d[:30], "big") | 1) / mpf(2) ** 240

_counts = {}
def counts_only(c):
    """A condition on numbers of elements of input tables (their being given or not)."""
    r = _counts.get(c)
    if r is None:
        r = _counts[c] = all(not (x.op in ("g", "elem", "fn", "lookup", "call", "lv")) and not (x.op == "sym" and x.args[-1] != "nk" and x.args[0] == "arg") for x in TM.leaves(c))
    return r

class Undef(AnalysisError):
    pass

class Valnum(object):
    """One random interpretation.  seed chooses the point.  leaf(t) may override the number of a
    leaf (returns None for the default).  samples: number of values of each bound variable."""
    def __init__(self, seed=1, leaf=None, samples=2, arms=None, facts=None, allarms=False):
        self.allarms = allarms
        self.seed, self.leaf, self.samples = seed, leaf, samples
        self.memo = {}
        self.arms = arms if arms is not None else {}
        self.facts = facts or {}
        self.env = {}
        self.decided = {}

    def rnd(self, *parts):
        return h01(self.seed, *parts)

    def log_uniform(self, lo, hi, *parts):
        lo, hi = mpf(lo), mpf(hi)
        return mpmath.exp(mpmath.log(lo) + (mpmath.log(hi) - mpmath.log(lo)) * self.rnd(*parts))

    # -- leaves
    def leafval(self, t):
        if self.leaf is not None:
            v = self.leaf(self, t)
            if v is not None:
                return v
        op = t.op
        if op == "sym":
            if t is TM.PI:
                return mpmath.pi()
            return self.scalar(":".join(str(a) for a in t.args))
        if op == "g":
            return self.scalar("g:" + ".".join(str(a) for a in t.args))
        raise Undef("no number for %s" % TM.show(t))

    def scalar(self, name):
        last = name.replace(":", ".").split(".")[-1]
        if last in ("n", "nk", "nq", "nmu", "nx", "num_threads", "nthreads"):
            return mpf(2 * int(self.rnd("int", name) * 40) + 7)
        if last.startswith("interpol"):
            return mpf(int(self.rnd("flag", name) * 2))
        if last == "mode":
            return mpf(3)
        if last == "min":
            return self.log_uniform("0.0005", "0.004", name)
        if last == "max":
            return self.log_uniform(8, 30, name)
        return self.log_uniform("0.1", 2, name)

    def element(self, t, arr, idx):
        """Element of an input array."""
        if self.leaf is not None:
            v = self.leaf(self, t)
            if v is not None:
                return v
        name = ".".join(str(a) for a in arr.args) if arr.op == "g" else None
        if name is None:
            raise Undef("element of %s" % TM.show(arr))
        last = name.split(".")[-1]
        if last == "k":
            if idx == 0:
                return self.log_uniform("0.0004", "0.0009", name, "first")
            if t.args[1].op != "lv" and t.args[1].op != "sym" and idx > 4:
                return self.log_uniform(35, 60, name, "last", t.args[1].op)
            return self.log_uniform("0.01", 1, name, idx)
        return self.log_uniform("0.3", 30, name, idx)

    # -- evaluation
    def __call__(self, t, env=None):
        if env:
            self.env.update(env)
        return self.val(t)

    def val(self, t):
        f = freelv(t)
        k = (t, tuple(key_env(self.env, x) for x in sorted_lv(f))) if f else t
        v = self.memo.get(k)
        if v is None:
            try:
                v = self.memo[k] = self.compute(t)
            except Undef as e:
                self.memo[k] = e
                raise
        elif isinstance(v, Undef):
            raise v
        return v

    def compute(self, t):
        op = t.op
        a = t.args
        val = self.val
        if op == "num":
            q = a[0]
            return mpf(q.numerator) / q.denominator if q.denominator != 1 else mpf(q.numerator)
        if op == "+":
            return val(a[0]) + val(a[1])
        if op == "*":
            x = val(a[0])
            return x * val(a[1]) if x != 0 else x
        if op == "/":
            d = val(a[1])
            n = val(a[0])
            if d == 0:
                raise Undef("division by zero in %s" % TM.show(t))
            return n / d
        if op == "neg":
            return -val(a[0])
        if op == "lv":
            if t not in self.env:
                raise Undef("unbound %s" % TM.show(t))
            return self.env[t]
        if op == "sel":
            if self.allarms and not counts_only(a[0]):
                return self.both(t, a)
            if self.truth(a[0]):
                self.arms[t] = self.arms.get(t, 0) | 1
                return val(a[1])
            self.arms[t] = self.arms.get(t, 0) | 2
            return val(a[2])
        if op in ("cmp", "and", "or", "not"):
            return mpf(1 if self.truth(t) else 0)
        if op == "fn":
            return self.fnval(t, a[0], [val(x) for x in a[1:]])
        if op == "pow":
            b, e = val(a[0]), val(a[1])
            if b < 0 and e != int(e):
                raise Undef("power of a negative number")
            return b ** e
        if op == "sum":
            return self.sumval(t)
        if op == "lookup":
            return self.lookup(t)
        if op == "sigd2":
            return self.sigd2(t)
        if op == "integ":
            return self.integ(t)
        if op == "call":
            return self.call(t)
        if op == "elem":
            i = val(a[1])
            return self.element(t, a[0], int(i) if i == int(i) else i)
        if op == "idiv":
            x, y = int(val(a[0])), int(val(a[1]))
            return mpf(abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1))
        if op == "mod":
            x, y = int(val(a[0])), int(val(a[1]))
            return mpf(abs(x) % abs(y) * (1 if x >= 0 else -1))
        if op == "sym" and t in self.env:
            return self.env[t]
        if op in ("sym", "g"):
            return self.leafval(t)
        raise Undef("no number for a %s node: %s" % (op, TM.show(t)))

    def both(self, t, a):
        """Formal mixture of the two arms: covers arms the point does not select."""
        try:
            self.truth(a[0])
        except Undef:
            pass
        w = self.rnd("arm", t.id) + mpf("0.1")
        x = y = None
        try:
            x = self.val(a[1])
        except Undef as e:
            err = e
        try:
            y = self.val(a[2])
        except Undef as e:
            err = e
        self.arms[t] = self.arms.get(t, 0) | (x is not None) | 2 * (y is not None)
        if x is None and y is None:
            raise err
        if x is None:
            return y
        if y is None:
            return x
        return w * x + (1 - w) * y

    def truth(self, t):
        if t in self.facts:
            return self.facts[t]
        op = t.op
        if op == "num":
            return t.args[0] != 0
        if op == "cmp":
            x, y = self.val(t.args[1]), self.val(t.args[2])
            o = t.args[0]
            r = x < y if o == "<" else x <= y if o == "<=" else abs(x - y) <= mpf(10) ** -60 * (abs(x) + abs(y))
            if o != "==" and x != y and abs(x - y) <= mpf(10) ** -55 * (abs(x) + abs(y)):
                r = o == "<="     # equal up to rounding
            d = self.decided.setdefault(t, 0)
            self.decided[t] = d | (1 if r else 2)
            self.note_cmp(t, x, y)
            return r
        if op == "and":
            return self.truth(t.args[0]) and self.truth(t.args[1])
        if op == "or":
            return self.truth(t.args[0]) or self.truth(t.args[1])
        if op == "not":
            return not self.truth(t.args[0])
        return self.val(t) != 0

    def note_cmp(self, t, x, y):
        pass

    def fnval(self, t, name, v):
        x = v[0]
        if name == "sqrt":
            if x < 0:
                if x > -mpf(10) ** -50:
                    return mpf(0)
                raise Undef("square root of a negative number")
            return mpmath.sqrt(x)
        if name == "exp":
            return mpmath.exp(x)
        if name == "log":
            if x <= 0:
                raise Undef("logarithm of a non-positive number")
            return mpmath.log(x)
        if name == "abs":
            return abs(x)
        if name == "sin":
            return mpmath.sin(x)
        if name == "cos":
            return mpmath.cos(x)
        if name == "tan":
            return mpmath.tan(x)
        if name == "atan":
            return mpmath.atan(x)
        if name == "fround":
            return x
        if name == "floor":
            return mpmath.floor(x)
        if name == "glx":
            lo, hi, n, i = v
            return (lo + hi) / 2 + (hi - lo) / 2 * self.node(n, i)
        if name == "glw":
            lo, hi, n, i = v
            return (hi - lo) / 2 * (self.rnd("glw", n, min(i, n - 1 - i)) + mpf("0.1"))
        if name in ("max", "fmax"):
            return max(v)
        if name in ("min", "fmin"):
            return min(v)
        raise Undef("function %s" % name)

    def node(self, n, i):
        """Increasing and antisymmetric, as Gauss-Legendre nodes are."""
        if 2 * i > n - 1:
            return -self.node(n, n - 1 - i)
        if 2 * i == n - 1:
            return mpf(0)
        return -1 + (2 * i + mpf("0.1") + mpf("1.8") * self.rnd("glx", n, i)) / n

    def bind(self, lv, x, body):
        old = self.env.get(lv)
        self.env[lv] = x
        r = self.val(body)
        if old is None:
            del self.env[lv]
        else:
            self.env[lv] = old
        return r

    def index_samples(self, n):
        s = []
        j = 0
        while len(s) < self.samples:
            c = int(self.rnd("idx", n, j) * (n if isinstance(n, mpf) else 1000003))
            j += 1
            if c not in s or j > 50:
                s.append(c)
        return s

    def sumval(self, t):
        lv, n, body = t.args
        nv = self.val(n)
        if n.op == "num" and nv <= 12:
            return sum((self.bind(lv, mpf(i), body) for i in range(int(nv))), mpf(0))
        r = mpf(0)
        ws = [self.rnd("w", nv, i) + mpf("0.2") for i in range(self.samples)]
        tot = sum(ws)
        for i, w in zip(self.index_samples(nv), ws):
            r += w / tot * nv * self.bind(lv, mpf(i), body)
        return r

    def table(self, t):
        i, nk, ka, pk = t.args[:4]
        n = self.val(nk)
        out = []
        for s in self.index_samples(("table", n)):
            out.append((self.bind(i, mpf(s), ka), self.bind(i, mpf(s), pk)))
        return n, out

    def lookup(self, t):
        n, tab = self.table(t)
        k, interp = self.val(t.args[4]), self.val(t.args[5])
        a1, b1 = tab[0]
        parts = [k / a1] + [a / a1 for a, b in tab[1:]] + ([b / b1 for a, b in tab[1:]] if b1 != 0 else ["z"])
        return b1 * (self.rnd("lookup", n, interp, *parts) + mpf("0.3"))

    def sigd2(self, t):
        n, tab = self.table(t)
        k, cut = self.val(t.args[4]), self.val(t.args[5])
        a1, b1 = tab[0]
        parts = [k * cut / a1] + [a / a1 for a, b in tab[1:]] + ([b / b1 for a, b in tab[1:]] if b1 != 0 else ["z"])
        return a1 * b1 * (self.rnd("sigd2", n, *parts) + mpf("0.01"))

    def integ(self, t):
        xs, body = t.args[1:-1], t.args[-1]
        r = mpf(0)
        nd = len(xs)
        for s in range(4 * self.samples):
            old = {}
            for j, x in enumerate(xs):
                old[x] = self.env.get(x)
                self.env[x] = self.point(nd, s, j)
            v = self.val(body)
            for x in xs:
                if old[x] is None:
                    del self.env[x]
                else:
                    self.env[x] = old[x]
            r += (self.rnd("iw", nd, s) + mpf("0.1")) * v
        return r

    def point(self, nd, s, j):
        return self.rnd("ix", nd, s, j)

    def call(self, t):
        formals, body = TM.SUMMARIES[t.args[0]]
        av = [self.val(x) for x in t.args[1:]]
        old = [self.env.get(f) for f in formals]
        for f, v in zip(formals, av):
            self.env[f] = v
        r = self.val(body)
        for f, v in zip(formals, old):
            if v is None:
                del self.env[f]
            else:
                self.env[f] = v
        return r

_sorted = {}
def sorted_lv(f):
    r = _sorted.get(f)
    if r is None:
        r = _sorted[f] = tuple(sorted(f, key=lambda x: x.id))
    return r

def key_env(env, x):
    v = env.get(x)
    return v

def close(a, b, tol=mpf(10) ** -9):
    if a == b:
        return True
    m = max(abs(a), abs(b))
    return abs(a - b) <= tol * m
