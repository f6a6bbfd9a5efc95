"""Hash-consed value graph: the intermediate representation both front ends lower to.

A node is T(op, args).  Constructors fold constants and apply only identities that hold in
any commutative ring with selects; everything else is left to the analyses.
"""
from fractions import Fraction

class AnalysisError(Exception):
    """The analyser cannot interpret the source (not a verdict)."""

class T(object):
    __slots__ = ("op", "args", "id")
    def __repr__(self):
        return show(self, 6)

_table = {}
_n = [0]

def mk(op, *args):
    key = (op,) + args
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _n[0] += 1
        t.id = _n[0]
        _table[key] = t
    return t

def reset():
    pass

def show(t, depth=5):
    if not isinstance(t, T):
        return str(t)
    if t.op == "num":
        f = t.args[0]
        return str(f) if f.denominator < 1000000 else repr(float(f))
    if t.op in ("sym", "g", "undef"):
        return "%s" % (":".join(str(a) for a in t.args),) if t.op == "sym" else "%s<%s>" % (t.op, ",".join(str(a) for a in t.args))
    if t.op == "lv":
        return "i%s" % t.args[0]
    if depth <= 0:
        return "..."
    if t.op in ("+", "*", "/") and len(t.args) == 2:
        return "(%s%s%s)" % (show(t.args[0], depth - 1), t.op, show(t.args[1], depth - 1))
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))

def num(x):
    return mk("num", Fraction(x))

ZERO = num(0)
ONE = num(1)
TWO = num(2)
MONE = num(-1)
PI = mk("sym", "pi")

def sym(*name):
    return mk("sym", *name)

_fresh = [0]
def fresh(prefix="t"):
    _fresh[0] += 1
    return mk("lv", "%s%d" % (prefix, _fresh[0]))

def isnum(t):
    return isinstance(t, T) and t.op == "num"

def val(t):
    return t.args[0]

BOOL = ("cmp", "not", "and", "or")

def isbool(t):
    return isinstance(t, T) and (t.op in BOOL or (t.op == "num" and t.args[0] in (0, 1)))

def neg(a):
    if a.op == "num":
        return num(-a.args[0])
    if a.op == "neg":
        return a.args[0]
    return mk("neg", a)

def add(a, b):
    if a.op == "num":
        if b.op == "num":
            return num(a.args[0] + b.args[0])
        if a.args[0] == 0:
            return b
    elif b.op == "num" and b.args[0] == 0:
        return a
    return mk("+", a, b)

def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))

def mul(a, b):
    if a.op == "num":
        if b.op == "num":
            return num(a.args[0] * b.args[0])
        x = a.args[0]
        if x == 0:
            return ZERO
        if x == 1:
            return b
        if x == -1:
            return neg(b)
    elif b.op == "num":
        return mul(b, a)
    return mk("*", a, b)

def div(a, b):
    if b.op == "num":
        if b.args[0] == 0:
            return mk("/", a, b)
        if a.op == "num":
            return num(a.args[0] / b.args[0])
        return mul(num(1 / b.args[0]), a)
    if a.op == "num" and a.args[0] == 0:
        return ZERO
    return mk("/", a, b)

def idiv(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        q = abs(a.args[0]) // abs(b.args[0])
        return num(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
    if b is ONE:
        return a
    l = lin(a)
    if b.op == "num" and b.args[0] != 0:
        c = b.args[0]
        if all((x / c).denominator == 1 for x in l[0].values()) and (l[1] / c).denominator == 1:
            return unlin({k: x / c for k, x in l[0].items()}, l[1] / c)
    return mk("idiv", a, b)

def imod(a, b):
    if a.op == "num" and b.op == "num" and b.args[0] != 0:
        q = idiv(a, b).args[0]
        return num(a.args[0] - q * b.args[0])
    return mk("mod", a, b)

def powi(a, n):
    """a**n, n a Python int."""
    if n == 0:
        return ONE
    if a.op == "num" and (a.args[0] != 0 or n > 0):
        return num(a.args[0] ** n)
    if n < 0:
        return div(ONE, powi(a, -n))
    r = None
    b = a
    while n:
        if n & 1:
            r = b if r is None else mul(r, b)
        n >>= 1
        if n:
            b = mul(b, b)
    return r

def fn(name, *args):
    if args and all(isinstance(a, T) and a.op == "num" for a in args):
        v = [a.args[0] for a in args]
        if name == "abs":
            return num(abs(v[0]))
        if name == "sqrt" and v[0] >= 0:
            import math
            n, d = math.isqrt(v[0].numerator), math.isqrt(v[0].denominator)
            if n * n == v[0].numerator and d * d == v[0].denominator:
                return num(Fraction(n, d))
        if name == "log" and v[0] == 1:
            return ZERO
        if name == "exp" and v[0] == 0:
            return ONE
        if name == "sin" and v[0] == 0:
            return ZERO
        if name == "cos" and v[0] == 0:
            return ONE
    if name == "abs" and args[0].op == "neg":
        return fn("abs", args[0].args[0])
    return mk("fn", name, *args)

# ---- linear normal form of integer terms ------------------------------------------------
_lin = {}
def lin(t):
    r = _lin.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "num":
        r = ({}, t.args[0])
    elif op == "+":
        d = {}
        c = Fraction(0)
        stack = [(t, 1)]
        while stack:
            u, s = stack.pop()
            if u.op == "+":
                stack.append((u.args[0], s)); stack.append((u.args[1], s))
            else:
                du, cu = lin(u)
                c += s * cu
                for k, v in du.items():
                    d[k] = d.get(k, 0) + s * v
        r = ({k: v for k, v in d.items() if v != 0}, c)
    elif op == "neg":
        d, c = lin(t.args[0])
        r = ({k: -v for k, v in d.items()}, -c)
    elif op == "*":
        a, b = lin(t.args[0]), lin(t.args[1])
        if not a[0]:
            r = ({k: v * a[1] for k, v in b[0].items() if v * a[1] != 0}, b[1] * a[1])
        elif not b[0]:
            r = ({k: v * b[1] for k, v in a[0].items() if v * b[1] != 0}, a[1] * b[1])
        else:
            # distribute products of linear forms
            d = {}
            c = a[1] * b[1]
            for k, v in a[0].items():
                d[k] = d.get(k, 0) + v * b[1]
            for k, v in b[0].items():
                d[k] = d.get(k, 0) + v * a[1]
            for k, v in a[0].items():
                for l, w in b[0].items():
                    p = mk("*", k, l) if k.id <= l.id else mk("*", l, k)
                    d[p] = d.get(p, 0) + v * w
            r = ({k: v for k, v in d.items() if v != 0}, c)
    else:
        r = ({t: Fraction(1)}, Fraction(0))
    _lin[t] = r
    return r

def unlin(d, c):
    out = None
    for k in sorted(d, key=lambda x: x.id):
        v = mul(num(d[k]), k)
        out = v if out is None else add(out, v)
    if out is None:
        return num(c)
    return add(out, num(c))

def norm(t):
    """Canonical integer-linear form."""
    if t.op in ("num", "lv", "sym"):
        return t
    d, c = lin(t)
    return unlin(d, c)

def lindiff(a, b):
    """a-b as a linear form (dict,const)."""
    return lin(sub(a, b)) if a is not b else ({}, Fraction(0))

# ---- booleans ------------------------------------------------------------------------------
ORACLE = None    # decides comparisons at a chosen point (op is "<", "<=" or "==")

def cmp(op, a, b):
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return notb(cmp("==", a, b))
    if a is b:
        return ZERO if op == "<" else ONE
    if ORACLE is not None and not (a.op == "num" and b.op == "num"):
        r = ORACLE(op, a, b)
        if r is not None:
            return ONE if r else ZERO
    if a.op == "num" and b.op == "num":
        x, y = a.args[0], b.args[0]
        return ONE if (x < y if op == "<" else x <= y if op == "<=" else x == y) else ZERO
    # push through selects with constant leaves (flags, booleans returned by helpers)
    for u, v, sw in ((a, b, False), (b, a, True)):
        if u.op == "sel" and v.op == "num" and _constleaves(u):
            f = (lambda x: cmp(op, v, x)) if sw else (lambda x: cmp(op, x, v))
            return sel(u.args[0], f(u.args[1]), f(u.args[2]))
        if op == "==" and isbool(u) and v.op == "num":
            if v.args[0] == 0:
                return notb(u)
            if v.args[0] == 1:
                return u
            return ZERO
    if op == "==" and a.id > b.id:
        a, b = b, a
    return mk("cmp", op, a, b)

def _constleaves(t, depth=6):
    if t.op == "num" or isbool(t):
        return True
    if t.op == "sel" and depth:
        return _constleaves(t.args[1], depth - 1) and _constleaves(t.args[2], depth - 1)
    return False

def notb(a):
    if a.op == "num":
        return ONE if a.args[0] == 0 else ZERO
    if a.op == "not":
        return a.args[0]
    if a.op == "cmp" and a.args[0] in ("<", "<="):
        # not(a<b) == b<=a (NaN aside)
        return mk("cmp", "<=" if a.args[0] == "<" else "<", a.args[2], a.args[1])
    if a.op == "and":
        return orb(notb(a.args[0]), notb(a.args[1]))
    if a.op == "or":
        return andb(notb(a.args[0]), notb(a.args[1]))
    return mk("not", a)

def truth(a):
    """C truth value of a numeric term."""
    if a.op == "num":
        return ONE if a.args[0] != 0 else ZERO
    if isbool(a):
        return a
    if a.op == "sel" and _constleaves(a):
        return sel(a.args[0], truth(a.args[1]), truth(a.args[2]))
    return notb(cmp("==", a, ZERO))

def andb(a, b):
    if a.op == "num":
        return b if a.args[0] != 0 else ZERO
    if b.op == "num":
        return a if b.args[0] != 0 else ZERO
    if a is b:
        return a
    if a is notb(b):
        return ZERO
    return mk("and", a, b)

def orb(a, b):
    if a.op == "num":
        return ONE if a.args[0] != 0 else b
    if b.op == "num":
        return ONE if b.args[0] != 0 else a
    if a is b:
        return a
    if a is notb(b):
        return ONE
    return mk("or", a, b)

def sel(c, a, b):
    if c.op == "num":
        return a if c.args[0] != 0 else b
    if a is b:
        return a
    if c.op == "not":
        return sel(c.args[0], b, a)
    if c.op == "cmp" and c.args[0] == "<=":
        # canonical polarity: strict comparison
        return sel(mk("cmp", "<", c.args[2], c.args[1]), b, a)
    if a.op == "num" and b.op == "num":
        if a.args[0] == 1 and b.args[0] == 0:
            return c
        if a.args[0] == 0 and b.args[0] == 1:
            return notb(c)
    if isbool(a) and isbool(b):
        if a is ONE:
            return orb(c, b)
        if a is ZERO:
            return andb(notb(c), b)
        if b is ONE:
            return orb(notb(c), a)
        if b is ZERO:
            return andb(c, a)
    if a.op == "sel" and a.args[0] is c:
        a = a.args[1]
    if b.op == "sel" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("sel", c, a, b)

# ---- generic traversal ---------------------------------------------------------------------
SUMMARIES = {}     # key -> (formals tuple, body)

BINDERS = ("sum", "lookup", "sigd2", "integ", "prod", "fix")

def children(t):
    return [a for a in t.args if isinstance(a, T)]

def rebuild(t, args):
    op = t.op
    if op == "+":
        return add(*args)
    if op == "*":
        return mul(*args)
    if op == "/":
        return div(*args)
    if op == "neg":
        return neg(args[0])
    if op == "cmp":
        return cmp(*args)
    if op == "not":
        return notb(args[0])
    if op == "and":
        return andb(*args)
    if op == "or":
        return orb(*args)
    if op == "sel":
        return sel(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "mod":
        return imod(*args)
    if op == "fn":
        return fn(*args)
    if op == "sum":
        return mksum(*args)
    if op == "pow":
        return powt(*args)
    return mk(op, *args)

def powt(a, b):
    if b.op == "num":
        e = b.args[0]
        if e.denominator == 1 and abs(e.numerator) <= 64:
            return powi(a, int(e))
        if e.denominator == 2 and abs(e.numerator) <= 64:
            s = fn("sqrt", a)
            return powi(s, int(e.numerator))
    return mk("pow", a, b)

def mksum(lv, n, body):
    if body is ZERO or n is ZERO:
        return ZERO
    if n is ONE:
        return subst(body, {lv: ZERO})
    return mk("sum", lv, n, body)

def subst(t, env, memo=None):
    """Replace leaf terms by env (dict T->T)."""
    if not env:
        return t
    if memo is None:
        memo = {}
    keys = env
    minid = min(k.id for k in keys)
    stack = [t]
    while stack:
        u = stack[-1]
        if u in memo:
            stack.pop()
            continue
        if u in keys:
            memo[u] = keys[u]
            stack.pop()
            continue
        if u.id < minid or not u.args:
            memo[u] = u
            stack.pop()
            continue
        ready = True
        for a in u.args:
            if isinstance(a, T) and a not in memo:
                stack.append(a)
                ready = False
        if not ready:
            continue
        changed = False
        na = []
        for a in u.args:
            if isinstance(a, T):
                b = memo[a]
                changed |= b is not a
                na.append(b)
            else:
                na.append(a)
        memo[u] = rebuild(u, na) if changed else u
        stack.pop()
    return memo[t]

def leaves(t, seen=None, through_calls=True):
    """Set of all nodes reachable (DAG)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u in seen:
            continue
        seen.add(u)
        for a in u.args:
            if isinstance(a, T) and a not in seen:
                stack.append(a)
        if through_calls and u.op == "call":
            b = SUMMARIES[u.args[0]][1]
            if b not in seen:
                stack.append(b)
    return seen

_dep = {}
def depends(t, syms):
    """Does t mention any of syms (identity)?"""
    minid = min((s.id for s in syms), default=None)
    if minid is None:
        return False
    stack = [t]
    seen = set()
    while stack:
        u = stack.pop()
        if u in syms:
            return True
        if u.id < minid or u in seen:
            continue
        seen.add(u)
        for a in u.args:
            if isinstance(a, T):
                stack.append(a)
    return False

def size(t):
    return len(leaves(t, through_calls=False))
