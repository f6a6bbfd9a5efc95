"""Abstract interpreter lowering the C library to value graphs plus an effect log.

One pass over structured control flow: both arms of a branch are analysed and merged with
selects, a loop body is analysed once with symbolic induction variable and loop-carried values,
calls are analysed in context.  Nothing is executed and no path is enumerated.
"""
import os, re
from fractions import Fraction
from collections import namedtuple
from pycparser import c_ast
import terms as TM
from terms import *
from cfront import *
import cfront

Ptr = namedtuple("Ptr", "obj path idx ety")           # idx None: points to a scalar slot
FnV = namedtuple("FnV", "name unit")
Str = namedtuple("Str", "s")
SelV = namedtuple("SelV", "c a b")
Loc = namedtuple("Loc", "obj path idx ty")

class StructV(object):
    __slots__ = ("ty", "leaves")
    def __init__(self, ty, leaves):
        self.ty, self.leaves = ty, leaves
    def __eq__(self, o):
        return isinstance(o, StructV) and self.leaves == o.leaves
    def __hash__(self):
        return id(self)

class Bytes(object):
    """Result of malloc/calloc before it gets an element type."""
    def __init__(self, size, zero, where):
        self.size, self.zero, self.where = size, zero, where

OUTPUT = ("print", "printarg", "fopen", "fclose")
class NotPure(Exception):
    pass

class Obj(object):
    __slots__ = ("id", "kind", "name", "ty", "size", "init", "tp", "where", "region", "heapid", "par", "const", "serial")
    def __init__(self, **kw):
        self.tp = False
        self.size = None
        self.where = ""
        self.region = None
        self.par = False
        self.const = False
        self.init = "undef"
        self.ty = None
        for k, v in kw.items():
            setattr(self, k, v)
    def __repr__(self):
        return "<%s %s>" % (self.kind, self.name)

# ---- arrays ---------------------------------------------------------------------------------
class Arr(object):
    """Persistent array: base plus layers, newest last.
    base: ("default",) | ("lam", lv, body) | ("sel", c, Arr, Arr) | ("phi", tag, Arr|None) | ("last", lv, n, Arr, Arr)
    layer: ("st", idx, val) | ("map", lv, n, stride, off, val, guard)   index = stride*lv+off, 0<=lv<n
    """
    __slots__ = ("base", "layers")
    def __init__(self, base, layers=()):
        self.base, self.layers = base, layers
    def __eq__(self, o):
        return isinstance(o, Arr) and self.base == o.base and self.layers == o.layers
    def __ne__(self, o):
        return not self == o
    def __hash__(self):
        return hash((self.base, self.layers))

def elements(t):
    """Number of scalars (or structures) of an array type, all its dimensions together."""
    n = 1
    while t.kind == "array":
        n = n * (t.n if t.n is not None else 0)
        t = t.to
    return n

def provably_diff(a, b):
    d, c = lin(sub(a, b))
    return not d and c != 0

def vsel(c, a, b):
    if isinstance(c, T) and c.op == "num":
        return a if c.args[0] != 0 else b
    if a is b:
        return a
    if isinstance(a, T) and isinstance(b, T):
        return sel(c, a, b)
    if isinstance(a, StructV) and isinstance(b, StructV):
        return StructV(a.ty, {k: (asel(c, a.leaves[k], b.leaves[k]) if isinstance(a.leaves[k], Arr) or isinstance(b.leaves[k], Arr) else vsel(c, a.leaves[k], b.leaves[k])) for k in a.leaves})
    if a == b:
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj and a.path == b.path and a.idx is not None and b.idx is not None:
        return Ptr(a.obj, a.path, sel(c, a.idx, b.idx), a.ety)
    if c.op == "not":
        return vsel(c.args[0], b, a)
    if isinstance(a, SelV) and a.c is c:
        return vsel(c, a.a, b)
    if isinstance(b, SelV) and b.c is c:
        return vsel(c, a, b.b)
    return SelV(c, a, b)

def asel(c, a, b):
    if a == b:
        return a
    if isinstance(a, Arr) and not a.layers and a.base[0] == "sel" and a.base[1] is c:
        return asel(c, a.base[2], b)
    if isinstance(b, Arr) and not b.layers and b.base[0] == "sel" and b.base[1] is c:
        return asel(c, a, b.base[3])
    if isinstance(a, Arr) and isinstance(b, Arr):
        return Arr(("sel", c, a, b))
    raise AnalysisError("merge of array with non-array")

class State(object):
    __slots__ = ("mem", "heap", "pc", "facts", "dead")
    def __init__(self):
        self.mem = {}
        self.heap = {}      # obj -> "live" | "freed" | "maybe"
        self.pc = ()
        self.facts = {}
    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.facts = self.facts
        return s
    def assume(self, c, positive=True):
        """Refine by a branch condition."""
        if not positive:
            c = notb(c)
        self.pc = self.pc + (c,)
        f = dict(self.facts)
        def put(t, v):
            f[t] = v
            f[notb(t)] = not v
            if t.op == "and" and v or t.op == "or" and not v:
                put(t.args[0], v); put(t.args[1], v)
            if t.op == "not":
                put(t.args[0], not v)
        put(c, True)
        self.facts = f

Event = namedtuple("Event", "kind obj path idx detail pc loops stack where region crit phase wsl")

class Frame(object):
    def __init__(self, func, unit):
        self.func, self.unit = func, unit
        self.scopes = [{}]
        self.types = {}
        self.returns = []
        self.objs = []
        self.brk = []
        self.cont = []
        self.lits = None

FLOATK = ("float",)
MAXUNROLL = 40

class Interp(object):
    def __init__(self, prog, intrinsics=True, summaries=True, opaque=()):
        self.P = prog
        self.float32 = "_FLOAT32" in prog.defines
        self.objs = {}
        self.events = []
        self.stack = []          # call stack: (function, call line)
        self.frames = []
        self.loops = []          # (lv, n)
        self.region = None
        self.crit = None         # inside critical/atomic/master/single
        self.phase = 0
        self.wsl = []            # lvs of work-sharing loops
        self.unique_writer = None
        self.globals = {}        # GVar -> Obj
        self.statics = {}
        self.headed = {}
        self.intrinsics = intrinsics
        self.guards = []
        self.opaque = set(opaque)
        self.use_summaries = summaries
        self.pure_mode = 0
        self.pure_out = []
        self.nid = 0
        self.quiet_log = 0
        self.written = None      # stack of write-sets for loop discovery
        self.line = None
        self.nregions = 0
        self.funcs_seen = set()
        self.ncalls = 0
        self.nloads = 0
        self.log_all = False
        self.integrals = []      # cuba calls
        self.static_inits = []
        self.regions = []

    # ------------------------------------------------------------------ objects
    guards = None
    def newobj(self, **kw):
        self.nid += 1
        o = Obj(id=self.nid, **kw)
        if self.region is not None:
            o.region = self.region
        self.objs[o.id] = o
        return o

    def gobj(self, g):
        o = self.globals.get(g)
        if o is None:
            r = self.region
            self.region = None
            o = self.newobj(kind="global", name=g.key, ty=g.ty, tp=g.threadprivate, init="static", where="%s:%s" % (os.path.basename(g.file), g.coord.line))
            self.region = r
            o.const = g.const
            if g.ty.kind == "array" and g.ty.n is not None:
                o.size = num(elements(g.ty))
            self.globals[g] = o
        return o

    def extern_array(self, name, ety=None, size=None, init="sym"):
        r = self.region
        self.region = None
        o = self.newobj(kind="extern", name=name, ty=cfront.Ty("array", to=ety or DOUBLE, n=None), init=init)
        self.region = r
        o.size = size
        return o

    def all_gvars(self):
        for u in self.P.units.values():
            for g in u.gvars.values():
                if g is not None and (g.static or self.P.gvars.get(g.name) is g):
                    yield u, g

    def init_globals(self, st, mode="static"):
        """mode 'static': initialisers; 'sym': every mutable global has a symbolic value; 'mixed':
        initialisers for globals holding pointers, symbolic values for the settings."""
        for u, g in self.all_gvars():
            o = self.gobj(g)
            if (mode == "sym" or mode == "mixed" and not self.hasptr(g.ty)) and not g.const:
                o.init = "sym"
            else:
                o.init = "zero"
                if g.init is not None:
                    self.frames.append(Frame(None, u))
                    self.store_init(st, Loc(o, (), None, g.ty), g.init)
                    self.frames.pop()

    def hasptr(self, ty):
        if ty.kind == "ptr":
            return True
        if ty.kind == "array":
            return self.hasptr(ty.to)
        if ty.kind == "struct":
            return any(t.kind == "ptr" or t.kind == "array" and self.hasptr(t.to) for p, t in self.leafs(ty))
        return False

    # ------------------------------------------------------------------ events
    def event(self, kind, st, obj=None, path=(), idx=None, detail=None):
        if self.quiet_log:
            return
        if self.pure_mode:
            if kind in OUTPUT:
                self.pure_out.append((kind, detail, self.where()))
                return
            raise NotPure()
        self.events.append(Event(kind, obj, path, idx, detail, st.pc + tuple(self.guards), tuple(self.loops), tuple(self.stack), self.where(), self.region, self.crit, self.phase, tuple(self.wsl)))

    def where(self):
        f = self.frames[-1] if self.frames else None
        if f is None or f.func is None:
            return "?"
        return "%s:%s (%s)" % (os.path.basename(f.func.file), self.line, f.func.name)

    # ------------------------------------------------------------------ memory
    def default(self, o, path, ty, idx=None):
        if ty is not None and ty.kind == "ptr":
            if o.init == "zero":
                return ZERO
            if o.init in ("sym", "stale"):
                nm = "%s%s" % (o.name, "".join("." + p for p in path))
                key = ("symptr", o.init, nm)
                e = self.statics.get(key)
                if e is None:
                    e = self.extern_array(nm if o.init == "sym" else "stale:" + nm, ty.to, init="sym")
                    e.kind = "extern" if o.init == "sym" else "stale"
                    self.statics[key] = e
                return Ptr(e, (), ZERO, ty.to)
            return mk("undef", o.name, ".".join(path))
        if o.init == "zero":
            return ZERO
        nm = o.name + "".join("." + p for p in path)
        if o.init == "sym":
            if idx is None:
                return mk("g", nm)
            return mk("elem", mk("g", nm), norm(idx))
        if o.init == "stale":
            if idx is None:
                return mk("stale", nm)
            return mk("elem", mk("stale", nm), norm(idx))
        if idx is None:
            return mk("undef", nm)
        return mk("undef", nm)

    def load(self, st, loc, quiet=False):
        o, path, idx, ty = loc
        if ty.kind == "struct":
            return StructV(ty, {p: (self.load_arr(st, loc.obj, path + p) if t.kind == "array" else self.load(st, Loc(o, path + p, idx, t))) for p, t in self.leafs(ty)})
        if ty.kind == "array":
            n = ty.n
            return Ptr(o, path, self._sub(idx, ty), ty.to)
        if ty.kind == "func":
            raise AnalysisError("load of function")
        self.nloads += 1
        if self.pure_mode and o.kind not in ("local",) and not o.const:
            raise NotPure()
        if not quiet:
            self.access("R", st, loc)
        key = (o.id, path)
        v = st.mem.get(key)
        if v is None:
            if isinstance(idx, T) and self._isarr(o, path, idx):
                return self.default(o, path, ty, idx)
            return self.default(o, path, ty)
        if isinstance(v, Arr):
            r = self.aread(st, v, idx if idx is not None else ZERO, o, path, ty)
        else:
            if idx is not None and not (idx.op == "num" and idx.args[0] == 0):
                self.event("oob", st, o, path, idx, "index into a scalar")
            r = v
        return self.simp(st, r)

    def _isarr(self, o, path, idx):
        return True

    def load_arr(self, st, o, path):
        v = st.mem.get((o.id, path))
        return v if v is not None else Arr(("default",))

    def simp(self, st, v):
        f = st.facts
        if not f:
            return v
        while True:
            if isinstance(v, T) and v.op == "sel":
                k = f.get(v.args[0])
                if k is None:
                    return v
                v = v.args[1] if k else v.args[2]
            elif isinstance(v, SelV):
                k = f.get(v.c)
                if k is None:
                    return v
                v = v.a if k else v.b
            else:
                return v

    def inrange(self, x, n, st=None):
        """0<=x<n provable from linear forms and enclosing loops?"""
        return self.nonneg(x, st) and self.nonneg(sub(sub(n, ONE), x), st)

    def nonneg(self, t, st=None, depth=0):
        d, c = lin(t)
        d = dict(d)
        # eliminate loop variables, innermost first
        for lv, n in reversed(self.loops):
            k = d.pop(lv, 0)
            if k == 0:
                continue
            if n is None:
                return False
            if k < 0:
                dn, cn = lin(sub(n, ONE))
                for a, b in dn.items():
                    d[a] = d.get(a, 0) + k * b
                c += k * cn
        d = {a: b for a, b in d.items() if b != 0}
        # loop bounds are >=1 inside their loop: use n>=1 to absorb constants
        ge1 = set()
        for lv, n in self.loops:
            if n is not None:
                ge1.add(n)
        for a, b in d.items():
            if b < 0:
                return False
            if a in ge1:
                c += b
            elif a.op == "*" and all(x in ge1 for x in a.args):
                c += b
            elif not self.is_nonneg_atom(a):
                return False
        return c >= 0

    def is_nonneg_atom(self, a):
        if a.op == "g" or a.op == "sym":
            return True     # sizes and counts are the only symbolic integers
        if a.op == "lv":
            return True
        if a.op == "*":
            return all(self.is_nonneg_atom(x) for x in a.args)
        if a.op == "fn" and a.args[0] in ("u",):
            return True
        return False

    def aread(self, st, arr, idx, o, path, ty):
        idx = norm(idx)
        pend = []
        while True:
            layers = arr.layers
            for L in reversed(layers):
                if L[0] == "st":
                    if L[1] is idx:
                        return self._pend(pend, L[2])
                    if provably_diff(L[1], idx):
                        continue
                    pend.append((cmp("==", L[1], idx), L[2]))
                else:
                    _, lv, n, stride, off, v, g, whole = L
                    d, c = lin(sub(idx, off))
                    ok = stride != 0 and all((k / stride).denominator == 1 for k in d.values()) and (c / stride).denominator == 1
                    if not ok:
                        if not d:
                            continue         # constant difference not a multiple: disjoint
                        # idx = s*j + r with 0<r<s : disjoint when the variable part divides
                        if all((k / stride).denominator == 1 for k in d.values()):
                            continue
                        pend.append((mk("cmp", "ismult", idx, off), mk("undef", "alias")))
                        continue
                    j = unlin({k: x / stride for k, x in d.items()}, c / stride)
                    val = self.vsubst(v, {lv: j})
                    cond = ONE
                    if not (whole and stride == 1 and off is ZERO) and not self.inrange(j, n):
                        cond = andb(cmp("<=", ZERO, j) if not self.nonneg(j) else ONE, cmp("<", j, n))
                    if g is not ONE:
                        cond = andb(cond, subst(g, {lv: j}))
                    if cond is ONE:
                        return self._pend(pend, val)
                    if cond is ZERO:
                        continue
                    pend.append((cond, val))
            b = arr.base
            if b[0] == "default":
                return self._pend(pend, self.default(o, path, ty, idx))
            if b[0] == "lam":
                return self._pend(pend, self.vsubst(b[2], {b[1]: idx}))
            if b[0] == "phi":
                return self._pend(pend, mk("elem", mk("carried", b[1]), idx))
            if b[0] == "sel":
                k = st.facts.get(b[1])
                if k is None and b[1].op == "not":
                    k = st.facts.get(b[1].args[0])
                    k = None if k is None else not k
                if k is not None:
                    arr = b[2] if k else b[3]
                    continue
                return self._pend(pend, vsel(b[1], self.aread(st, b[2], idx, o, path, ty), self.aread(st, b[3], idx, o, path, ty)))
            if b[0] == "last":
                _, lv, n, A, pre = b
                v = self.aread(st, A, idx, o, path, ty)
                v = self.vsubst(v, {lv: sub(n, ONE)})
                return self._pend(pend, vsel(cmp("<", ZERO, n), v, self.aread(st, pre, idx, o, path, ty)))
            raise AnalysisError("array base")

    def _pend(self, pend, v):
        for c, x in reversed(pend):
            v = vsel(c, x, v)
        return v

    def vsubst(self, v, env):
        if isinstance(v, T):
            return subst(v, env)
        if isinstance(v, Ptr):
            return Ptr(v.obj, v.path, None if v.idx is None else subst(v.idx, env), v.ety)
        if isinstance(v, SelV):
            return vsel(subst(v.c, env), self.vsubst(v.a, env), self.vsubst(v.b, env))
        return v

    def store(self, st, loc, v, quiet=False):
        o, path, idx, ty = loc
        if ty.kind == "struct":
            if not isinstance(v, StructV):
                raise AnalysisError("struct store at %s" % self.where())
            for p, t in self.leafs(ty):
                if t.kind == "array":
                    self.note_write(o, path + p, None)
                    if not quiet:
                        self.access("W", st, Loc(o, path + p, None, t))
                    st.mem[(o.id, path + p)] = v.leaves[p]
                else:
                    self.store(st, Loc(o, path + p, idx, t), v.leaves[p], quiet)
            return
        if self.pure_mode and o.kind != "local":
            raise NotPure()
        v = self.conv(v, ty)
        if not quiet:
            self.access("W", st, loc, v)
        key = (o.id, path)
        if idx is None:
            old = st.mem.get(key)
            if isinstance(old, Arr):
                idx = ZERO
            else:
                self.note_write(o, path, None)
                st.mem[key] = v
                return
        idx = norm(idx)
        self.note_write(o, path, idx)
        old = st.mem.get(key)
        if old is None:
            old = Arr(("default",))
        elif not isinstance(old, Arr):
            old = Arr(("lam", fresh(), old)) if isinstance(old, T) else Arr(("default",))
        st.mem[key] = self.astore(old, idx, v)

    def astore(self, arr, idx, v):
        ls = list(arr.layers)
        # drop an older store to the same index when nothing above may alias it
        for i in range(len(ls) - 1, -1, -1):
            L = ls[i]
            if L[0] == "st":
                if L[1] is idx:
                    del ls[i]
                    break
                if provably_diff(L[1], idx):
                    continue
            break
        ls.append(("st", idx, v))
        return Arr(arr.base, tuple(ls))

    def note_write(self, o, path, idx):
        if self.written:
            for w in self.written:
                w.setdefault((o.id, path), set()).add(idx)

    def access(self, rw, st, loc, val=None):
        o = loc.obj
        if o.kind == "heap":
            h = self.hstate(st, st.heap.get(o.id))
            if "freed" in self.hleaves(h):
                self.event("uaf", st, o, loc.path, loc.idx, rw)
        elif o.kind == "stale":
            self.event("dangling", st, o, loc.path, loc.idx, rw)
        if self.quiet_log or self.pure_mode:
            return
        if self.log_all and loc.idx is not None and o.size is not None:
            self.bounds(rw, st, loc)
        if self.region is not None and self.shared(o):
            self.event(rw, st, o, loc.path, None if loc.idx is None else norm(loc.idx), val)
        elif self.log_all and o.kind in ("extern", "global"):
            self.event(rw, st, o, loc.path, None if loc.idx is None else norm(loc.idx))

    def bounds(self, rw, st, loc):
        if not self.inrange_pc(loc.idx, loc.obj.size, st):
            self.event("oob?", st, loc.obj, loc.path, norm(loc.idx), (rw, loc.obj.size))
        else:
            self.event("inb", st, loc.obj, loc.path, None, None)

    def inrange_pc(self, x, n, st):
        return self.nonneg(x, st) and self.nonneg(sub(sub(n, ONE), x), st)

    def shared(self, o):
        if o.kind == "local":
            return o.region != self.region
        if o.kind == "heap":
            return o.region != self.region
        if o.kind == "stale":
            return False
        return not o.tp

    def leafs(self, ty, pre=()):
        for n, t in ty.fields:
            if t.kind == "struct":
                for x in self.leafs(t, pre + (n,)):
                    yield x
            else:
                yield pre + (n,), t

    # ------------------------------------------------------------------ conversions
    def conv(self, v, ty):
        if isinstance(v, Bytes):
            if ty.kind != "ptr":
                return v
            return self.alloc_typed(v, ty.to)
        if isinstance(v, T):
            if ty.kind == "int":
                if ty.name == "_Bool":
                    return truth(v)
                if v.op == "num":
                    f = v.args[0]
                    if f.denominator != 1:
                        return num(int(f))
                    if f < 0 and not ty.signed:
                        return mk("fn", "u", v)
                    return v
                if self.isfloat(v):
                    return fn("trunc", v)
                return v
            if ty.kind == "float" and ty.size == 4 and not self.float32 and v.op not in ("num",) and not (v.op == "fn" and v.args[0] == "fround"):
                return fn("fround", v)
            return v
        if isinstance(v, Ptr) and ty.kind == "ptr":
            if v.ety is not ty.to and ty.to.kind != "void":
                return Ptr(v.obj, v.path, v.idx, ty.to)
            return v
        if isinstance(v, SelV) and ty.kind == "ptr":
            return SelV(v.c, self.conv(v.a, ty), self.conv(v.b, ty))
        return v

    FK = ("sum", "lookup", "sigd2", "integ", "/", "pow")
    def isfloat(self, t):
        """Is this term of floating kind? (kinds are decided at expression level; fallback by op)"""
        return False

    def alloc_typed(self, b, ety):
        s = ety.size or 1
        n = norm(idiv(b.size, num(s)))
        if n.op == "idiv":
            # not a multiple of the element size: keep the byte count so that bounds are honest
            pass
        o = b.obj
        o.ty = cfront.Ty("array", to=ety, n=None)
        o.size = n
        return Ptr(o, (), ZERO, ety)

    # ------------------------------------------------------------------ expression evaluation
    # ev returns (value, type)
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            raise AnalysisError("expression %s at %s" % (type(e).__name__, e.coord))
        if e.coord is not None:
            self.line = e.coord.line
        return m(e, st)

    def rv(self, e, st):
        v, t = self.ev(e, st)
        return v

    def ev_Constant(self, e, st):
        if e.type == "string":
            return Str(self.unq(e.value)), ptr(CHAR)
        if e.type == "char":
            return num(ord(eval(e.value))), INT
        s = e.value
        if "int" in e.type:
            return num(int(s.rstrip("uUlL"), 0) if not (len(s) > 1 and s[0] == "0" and s.rstrip("uUlL").isdigit() and s.rstrip("uUlL") != "0") else int(s.rstrip("uUlL"), 8)), (SIZE if "u" in s.lower() and "l" in s.lower() else LONG if "l" in s.lower() else INT)
        t = FLOAT if s[-1] in "fF" and not s.lower().startswith("0x") else DOUBLE
        if s.lower().startswith("0x"):
            x = Fraction(float.fromhex(s.rstrip("fFlL")))
        else:
            x = Fraction(s.rstrip("fFlL").rstrip(".") + ("0" if s.rstrip("fFlL").startswith(".") and s.rstrip("fFlL") == "." else "")) if not s.rstrip("fFlL").lower().count("e") else Fraction(re.sub(r"\.e", ".0e", s.rstrip("fFlL").lower()))
        import math
        for k in (1, 2, 4, Fraction(1, 2), Fraction(1, 4)):
            if x.denominator > 10 ** 12 and abs(float(x) - float(k) * math.pi) < 1e-14 * float(k):
                return mul(num(k), PI), t
        return num(x), t

    def unq(self, v):
        try:
            return eval("b" + v if not v.startswith("b") else v).decode("latin1")
        except Exception:
            return v.strip('"')

    def lookup(self, name):
        for f in (self.frames[-1],):
            for s in reversed(f.scopes):
                if name in s:
                    return s[name]
        return None

    def ev_ID(self, e, st):
        n = e.name
        x = self.lookup(n)
        if x is None:
            u = self.frames[-1].unit
            if n in u.enums:
                return num(u.enums[n]), INT
            if n == "M_PI":
                return PI, DOUBLE
            if n in ("M_PI_2", "M_PI_4", "M_1_PI"):
                return {"M_PI_2": mul(num(Fraction(1, 2)), PI), "M_PI_4": mul(num(Fraction(1, 4)), PI), "M_1_PI": div(ONE, PI)}[n], DOUBLE
            if n == "M_SQRT2":
                return fn("sqrt", TWO), DOUBLE
            if n in ("stdout", "stderr", "stdin"):
                return Str("<%s>" % n), ptr(VOID)
            if n in ("NAN", "INFINITY", "HUGE_VAL", "M_E", "M_LN2", "errno"):
                return mk("sym", n), DOUBLE
            f = self.P.find_func(u, n)
            if f is not None:
                return FnV(f, None), ptr(f.ty)
            if self.P.proto(u, n) is not None:
                return FnV(n, None), ptr(self.P.proto(u, n))
        loc = self.lv(e, st)
        return self.load(st, loc), self.decay(loc.ty)

    def decay(self, t):
        return ptr(t.to) if t.kind == "array" else t

    def lv(self, e, st):
        """Evaluate an lvalue."""
        if isinstance(e, c_ast.ID):
            x = self.lookup(e.name)
            if x is not None:
                return x
            u = self.frames[-1].unit
            g = self.P.find_gvar(u, e.name)
            if g is None:
                raise AnalysisError("unknown identifier %s at %s" % (e.name, e.coord))
            o = self.gobj(g)
            return Loc(o, (), None, g.ty)
        if isinstance(e, c_ast.ArrayRef):
            bv, bt = self.ev(e.name, st)
            iv, it = self.ev(e.subscript, st)
            if not isinstance(bv, (Ptr, SelV)) and isinstance(iv, Ptr):
                bv, iv = iv, bv
            return self.deref(self.padd(bv, iv, st), st)
        if isinstance(e, c_ast.StructRef):
            if e.type == ".":
                if isinstance(e.name, c_ast.FuncCall) or not self.is_lv(e.name):
                    v, t = self.ev(e.name, st)
                    o = self.newobj(kind="local", name="tmp", ty=t)
                    l = Loc(o, (), None, t)
                    self.store(st, l, v, True)
                else:
                    l = self.lv(e.name, st)
            else:
                v, t = self.ev(e.name, st)
                l = self.deref(v, st)
            if l.ty.kind != "struct":
                raise AnalysisError("member of non-struct at %s" % e.coord)
            ft = dict(l.ty.fields).get(e.field.name)
            if ft is None:
                raise AnalysisError("no field %s at %s" % (e.field.name, e.coord))
            return Loc(l.obj, l.path + (e.field.name,), l.idx, ft)
        if isinstance(e, c_ast.UnaryOp) and e.op == "*":
            v, t = self.ev(e.expr, st)
            if isinstance(v, FnV):
                return v
            return self.deref(v, st)
        if isinstance(e, c_ast.Cast):
            return self.lv(e.expr, st)
        if isinstance(e, c_ast.CompoundLiteral):
            t = self.P.ty(self.frames[-1].unit, e.type)
            if t.kind == "array" and t.n is None:
                t.n = len(e.init.exprs)
            o = self.newobj(kind="local", name="literal", ty=t)
            self.frames[-1].objs.append(o)
            if t.kind == "array":
                o.size = num(t.n)
            o.init = "zero"
            l = Loc(o, (), None, t)
            self.store_init(st, l, e.init)
            return l
        if isinstance(e, c_ast.TernaryOp):
            v, t = self.ev(e, st)
            o = self.newobj(kind="local", name="tmp", ty=t)
            l = Loc(o, (), None, t)
            self.store(st, l, v, True)
            return l
        raise AnalysisError("lvalue %s at %s" % (type(e).__name__, e.coord))

    def is_lv(self, e):
        return isinstance(e, (c_ast.ID, c_ast.ArrayRef, c_ast.StructRef, c_ast.CompoundLiteral)) or (isinstance(e, c_ast.UnaryOp) and e.op == "*")

    def selload(self, p, st):
        """Load through a conditional pointer, each alternative under its condition."""
        if isinstance(p, Ptr):
            return self.load(st, Loc(p.obj, p.path, p.idx, p.ety)), p.ety
        if not isinstance(p, SelV):
            raise AnalysisError("dereference of a conditional pointer at %s" % self.where())
        with self.under(p.c):
            a, ty = self.selload(p.a, st)
        with self.under(notb(p.c)):
            b, _ = self.selload(p.b, st)
        return vsel(p.c, a, b), ty

    def under(self, c):
        return Guard(self, c)

    def deref(self, p, st):
        p = self.simp(st, p)
        if isinstance(p, SelV):
            raise SelDeref(p)
        if not isinstance(p, Ptr):
            if isinstance(p, T) and p is ZERO:
                self.event("nullderef", st, None, (), None, None)
            raise AnalysisError("dereference of %r at %s" % (p, self.where()))
        t = p.ety
        return Loc(p.obj, p.path, p.idx, t)

    def padd(self, p, i, st, sign=1):
        p = self.simp(st, p)
        if isinstance(p, SelV):
            return SelV(p.c, self.padd(p.a, i, st, sign), self.padd(p.b, i, st, sign))
        if not isinstance(p, Ptr):
            raise AnalysisError("pointer arithmetic on %r at %s" % (p, self.where()))
        if sign < 0:
            i = neg(i)
        if i is ZERO:
            return p
        if p.idx is None:
            # a scalar slot: only offset 0 is valid
            return Ptr(p.obj, p.path, norm(i), p.ety)
        return Ptr(p.obj, p.path, norm(add(p.idx, i)), p.ety)

    def _sub(self, idx, ty):
        """Linear index of element 0 of an array slot."""
        if idx is None:
            return ZERO
        return mul(idx, num(ty.n))

    def ev_ArrayRef(self, e, st):
        return self.ev_lv(e, st)

    def ev_StructRef(self, e, st):
        return self.ev_lv(e, st)

    def ev_CompoundLiteral(self, e, st):
        return self.ev_lv(e, st)

    def ev_lv(self, e, st):
        try:
            loc = self.lv(e, st)
        except SelDeref as sd:
            p = sd.p
            if isinstance(e, c_ast.UnaryOp) and isinstance(p, SelV) and self.nonnull(p):
                return self.selload(p, st)
            if not self.effect_free(e):
                raise AnalysisError("dereference of a conditional pointer at %s" % self.where())
            return self.split(p, st, lambda s: self.ev_lv(e, s))
        if isinstance(loc, FnV):
            return loc, ptr(VOID)
        return self.load(st, loc), self.decay(loc.ty)

    def ev_Cast(self, e, st):
        t = self.P.ty(self.frames[-1].unit, e.to_type)
        v, vt = self.ev(e.expr, st)
        return self.conv2(v, vt, t), t

    def conv2(self, v, vt, t):
        if isinstance(v, T) and t.kind == "int" and vt.kind == "float" and v.op != "num" and t.name != "_Bool":
            return fn("trunc", v)
        if isinstance(v, T) and t.kind == "float" and t.size == 4 and vt.kind == "int":
            return v
        if isinstance(v, T) and v.op == "fn" and v.args[0] == "u" and t.kind == "int" and t.signed:
            return v.args[1]     # (long) of a wrapped unsigned: the mathematical value
        if isinstance(v, T) and t.kind == "int" and t.size < 8 and vt.kind == "int" and vt.size == 8 and v.op != "num" and t.name not in ("_Bool", "enum"):
            return fn("narrow", v)
        return self.conv(v, t)

    def ev_UnaryOp(self, e, st):
        op = e.op
        if op == "&":
            x = e.expr
            if isinstance(x, c_ast.ID) and self.lookup(x.name) is None and self.P.find_gvar(self.frames[-1].unit, x.name) is None:
                return self.ev(x, st)
            l = self.lv(x, st)
            if l.ty.kind == "array":
                return Ptr(l.obj, l.path, l.idx if l.idx is not None else None, l.ty), ptr(l.ty)
            return Ptr(l.obj, l.path, l.idx, l.ty), ptr(l.ty)
        if op == "*":
            return self.ev_lv(e, st)
        if op == "sizeof":
            if isinstance(e.expr, c_ast.Typename):
                t = self.P.ty(self.frames[-1].unit, e.expr)
            else:
                self.quiet_log += 1
                try:
                    s2 = st.copy()
                    if self.is_lv(e.expr):
                        t = self.lv(e.expr, s2).ty
                    else:
                        t = self.ev(e.expr, s2)[1]
                finally:
                    self.quiet_log -= 1
            if t.kind == "array":
                return num((t.n or 0) * t.to.size), SIZE
            return num(t.size), SIZE
        if op in ("p++", "p--", "++", "--"):
            try:
                l = self.lv(e.expr, st)
            except SelDeref as sd:
                return self.split(sd.p, st, lambda s: self.ev_UnaryOp(e, s), e.expr)
            v = self.load(st, l)
            if l.ty.kind == "ptr":
                nv = self.padd(v, ONE, st, 1 if "+" in op else -1)
            else:
                nv = self.wrap(add(v, ONE if "+" in op else MONE), l.ty)
            self.store(st, l, nv)
            return (v if op[0] == "p" else nv), l.ty
        v, t = self.ev(e.expr, st)
        if op == "-":
            return self.wrap(neg(v), self.promote(t)), self.promote(t)
        if op == "+":
            return v, self.promote(t)
        if op == "!":
            return notb(self.truthv(v, st)), INT
        if op == "~":
            return fn("bitnot", v), t
        raise AnalysisError("unary %s at %s" % (op, e.coord))

    def wrap(self, v, t):
        """Integer arithmetic is over the mathematical integers; constants below zero in an
        unsigned type are kept, marked."""
        if t.kind == "int":
            if not t.signed and v.op == "num" and v.args[0] < 0:
                return v
            return norm(v)
        return v

    def promote(self, t):
        if t.kind == "int" and t.size < 4:
            return INT
        return t

    def truthv(self, v, st):
        v = self.simp(st, v)
        if isinstance(v, T):
            r = truth(v)
            k = st.facts.get(r)
            if k is None and r.op == "not":
                k = st.facts.get(r.args[0])
                k = None if k is None else not k
            if k is not None:
                return ONE if k else ZERO
            return r
        if isinstance(v, (Ptr, Str, FnV)):
            return ONE
        if isinstance(v, SelV):
            return sel(v.c, self.truthv(v.a, st), self.truthv(v.b, st))
        if isinstance(v, Bytes):
            return ONE
        raise AnalysisError("truth of %r" % (v,))

    def ev_BinaryOp(self, e, st):
        op = e.op
        if op in ("&&", "||"):
            a = self.truthv(self.rv(e.left, st), st)
            if op == "&&" and a is ZERO:
                return ZERO, INT
            if op == "||" and a is ONE:
                return ONE, INT
            if self.effect_free(e.right):
                s2 = st
                if a.op != "num":
                    s2 = st.copy()
                    s2.assume(a, op == "&&")
                b = self.truthv(self.rv(e.right, s2), s2)
                if s2 is not st:
                    for k, v in s2.mem.items():
                        if k not in st.mem:
                            st.mem[k] = v
            else:
                s2 = st.copy()
                s2.assume(a, op == "&&")
                b = self.truthv(self.rv(e.right, s2), s2)
                s1 = st.copy()
                s1.assume(a, op != "&&")
                m = self.merge([s2, s1], st)
                st.mem, st.heap = m.mem, m.heap
            return (andb(a, b) if op == "&&" else orb(a, b)), INT
        a, ta = self.ev(e.left, st)
        b, tb = self.ev(e.right, st)
        return self.binop(op, a, ta, b, tb, st)

    def binop(self, op, a, ta, b, tb, st):
        a, b = self.simp(st, a), self.simp(st, b)
        pa, pb = isinstance(a, (Ptr, SelV)), isinstance(b, (Ptr, SelV))
        if pa or pb or isinstance(a, (Str, FnV, Bytes)) or isinstance(b, (Str, FnV, Bytes)):
            return self.ptrop(op, a, ta, b, tb, st)
        fl = ta.kind == "float" or tb.kind == "float"
        if fl:
            ty = DOUBLE if (ta.kind == "float" and ta.size == 8) or (tb.kind == "float" and tb.size == 8) else FLOAT
        else:
            ta2, tb2 = self.promote(ta), self.promote(tb)
            if ta2.size == tb2.size:
                ty = ta2 if not ta2.signed else tb2
            else:
                ty = ta2 if ta2.size > tb2.size else tb2
        if not (isinstance(a, T) and isinstance(b, T)):
            raise AnalysisError("operands of %s at %s: %r %r" % (op, self.where(), a, b))
        if not fl:
            x, y = self.cint(a, ty), self.cint(b, ty)
            if x is not None and y is not None:
                r = self.cop(op, x, y, ty)
                if r is not None:
                    return r
        if op == "+":
            v = add(a, b)
        elif op == "-":
            v = sub(a, b)
        elif op == "*":
            v = mul(a, b)
        elif op == "/":
            if fl:
                v = div(a, b)
            else:
                v = idiv(a, b)
        elif op == "%":
            v = imod(a, b)
        elif op in ("<", ">", "<=", ">=", "==", "!="):
            if not fl:
                # decide integer comparisons by linear difference
                d, c = lin(sub(a, b))
                if not d:
                    r = {"<": c < 0, ">": c > 0, "<=": c <= 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
                    if not ty.signed and (self.neglit(a) or self.neglit(b)):
                        pass
                    else:
                        return (ONE if r else ZERO), INT
            r = cmp(op, a, b)
            k = st.facts.get(r)
            if k is None and r.op == "not":
                k = st.facts.get(r.args[0])
                k = None if k is None else not k
            if k is not None:
                r = ONE if k else ZERO
            return r, INT
        elif op in ("&", "|", "^", "<<", ">>"):
            if a.op == "num" and b.op == "num":
                x, y = int(a.args[0]), int(b.args[0])
                v = num({"&": x & y, "|": x | y, "^": x ^ y, "<<": x << y, ">>": x >> y}[op])
            elif op == "<<" and b.op == "num":
                v = mul(a, num(2 ** int(b.args[0])))
            elif op == ">>" and b.op == "num":
                v = idiv(a, num(2 ** int(b.args[0])))
            else:
                v = mk("fn", "bit" + op, a, b)
        else:
            raise AnalysisError("operator %s" % op)
        if not fl and v.op not in ("idiv", "mod", "fn"):
            v = norm(v)
        return v, ty

    def cint(self, a, ty):
        """Value of a constant operand converted to the common integer type."""
        if a.op == "fn" and a.args[0] == "u" and a.args[1].op == "num":
            a = a.args[1]
        if a.op != "num" or a.args[0].denominator != 1:
            return None
        v = int(a.args[0])
        return v % (1 << 8 * ty.size) if not ty.signed and ty.name != "_Bool" else v

    def cop(self, op, x, y, ty):
        """Integer operation on constants, with the wrap-around of unsigned types."""
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return (ONE if {"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "==": x == y, "!=": x != y}[op] else ZERO), INT
        if op in ("+", "-", "*"):
            v = x + y if op == "+" else x - y if op == "-" else x * y
        elif op in ("/", "%"):
            if y == 0:
                return None
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            v = q if op == "/" else x - q * y
        else:
            return None
        if not ty.signed and ty.name != "_Bool":
            b = 8 * ty.size
            v %= 1 << b
            if v >> (b - 1):
                return mk("fn", "u", num(v - (1 << b))), ty
        return num(v), ty

    def neglit(self, a):
        return a.op == "num" and a.args[0] < 0

    def ptrop(self, op, a, ta, b, tb, st):
        if op == "+":
            if isinstance(a, (Ptr, SelV)):
                return self.padd(a, b, st), ta
            return self.padd(b, a, st), tb
        if op == "-":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj and a.path == b.path:
                    return norm(sub(a.idx or ZERO, b.idx or ZERO)), LONG
                raise AnalysisError("difference of unrelated pointers at %s" % self.where())
            return self.padd(a, b, st, -1), ta
        if op in ("==", "!="):
            r = None
            if isinstance(a, SelV):
                r = sel(a.c, self.ptrop("==", a.a, ta, b, tb, st)[0], self.ptrop("==", a.b, ta, b, tb, st)[0])
            elif isinstance(b, SelV):
                r = sel(b.c, self.ptrop("==", a, ta, b.a, tb, st)[0], self.ptrop("==", a, ta, b.b, tb, st)[0])
            elif isinstance(a, T) and isinstance(b, T):
                r = cmp("==", a, b)
            elif isinstance(a, T) or isinstance(b, T):
                p = b if isinstance(a, T) else a
                if isinstance(p, Ptr) and p.obj.kind in ("extern", "stale") and p.obj.init == "sym" and p.obj.name.find("arg:") != 0:
                    r = mk("cmp", "isnull", mk("g", p.obj.name))
                else:
                    r = ZERO
            elif isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.obj is b.obj and a.path == b.path:
                    r = cmp("==", a.idx or ZERO, b.idx or ZERO)
                else:
                    r = ZERO
            else:
                r = ONE if a == b else ZERO
            return (r if op == "==" else notb(r)), INT
        if op in ("<", ">", "<=", ">=") and isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return self.binop(op, a.idx or ZERO, LONG, b.idx or ZERO, LONG, st)
        raise AnalysisError("pointer operation %s at %s" % (op, self.where()))

    def effect_free(self, e):
        if isinstance(e, (c_ast.FuncCall, c_ast.Assignment)):
            return False
        if isinstance(e, c_ast.UnaryOp) and e.op in ("p++", "p--", "++", "--"):
            return False
        return all(self.effect_free(c) for _, c in e.children())

    def ev_TernaryOp(self, e, st):
        c = self.truthv(self.rv(e.cond, st), st)
        if c is ONE:
            return self.ev(e.iftrue, st)
        if c is ZERO:
            return self.ev(e.iffalse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c, True)
        s2.assume(c, False)
        a, ta = self.ev(e.iftrue, s1)
        b, tb = self.ev(e.iffalse, s2)
        m = self.merge([s1, s2], st)
        st.mem, st.heap = m.mem, m.heap
        a, b = self.simp(s1, a), self.simp(s2, b)
        ty = ta
        if ta.kind in ("int", "float") and tb.kind in ("int", "float"):
            if ta.kind == "float" or tb.kind == "float":
                ty = ta if ta.kind == "float" else tb
            else:
                ty = ta if ta.size >= tb.size else tb
        elif tb.kind == "ptr":
            ty = tb
        return vsel(c, a, b), ty

    def ev_ExprList(self, e, st):
        r = None
        for x in e.exprs:
            r = self.ev(x, st)
        return r

    def ev_Assignment(self, e, st):
        if e.op == "=":
            v, vt = self.ev(e.rvalue, st)
            try:
                l = self.lv(e.lvalue, st)
            except SelDeref as sd:
                if isinstance(e.lvalue, c_ast.UnaryOp) and self.nonnull(sd.p):
                    return self.guarded_store(sd.p, v, vt, st)
                return self.split(sd.p, st, lambda s: self.assign(e.lvalue, s, lambda l, s: (v, vt)), e.lvalue)
            v = self.conv2(v, vt, l.ty)
            self.store(st, l, v)
            return v, l.ty
        op = e.op[:-1]
        b, tb = self.ev(e.rvalue, st)
        return self.assign(e.lvalue, st, lambda l, s: self.binop(op, self.load(s, l), l.ty, b, tb, s))

    def assign(self, lvalue, st, value):
        """Store value(location) in an lvalue, each alternative of a conditional pointer under its condition."""
        try:
            l = self.lv(lvalue, st)
        except SelDeref as sd:
            return self.split(sd.p, st, lambda s: self.assign(lvalue, s, value), lvalue)
        v, vt = value(l, st)
        v = self.conv2(v, vt, l.ty)
        self.store(st, l, v)
        return v, l.ty

    def nonnull(self, p):
        return self.nonnull(p.a) and self.nonnull(p.b) if isinstance(p, SelV) else isinstance(p, Ptr)

    def split(self, p, st, f, e=None):
        """f on the state under each alternative of the conditional value p."""
        if e is not None and not self.effect_free(e):
            raise AnalysisError("side effect in an access through a conditional pointer at %s" % self.where())
        live = []
        for q, positive in ((p.a, True), (p.b, False)):
            s = st.copy()
            s.assume(p.c, positive)
            if not isinstance(q, (Ptr, SelV)) and contradictory(s.facts):
                continue
            live.append((s,) + f(s))
        if not live:
            raise AnalysisError("access through a null pointer at %s" % self.where())
        if len(live) == 1:
            s, v, t = live[0]
        else:
            s = self.merge([x[0] for x in live], st)
            v, t = vsel(p.c, self.simp(live[0][0], live[0][1]), self.simp(live[1][0], live[1][1])), live[0][2]
        st.mem, st.heap = s.mem, s.heap
        return v, t

    def guarded_store(self, p, v, vt, st, cond=ONE):
        for q, c in ((p.a, p.c), (p.b, notb(p.c))):
            with self.under(c):
                c = andb(cond, c)
                if isinstance(q, SelV):
                    r = self.guarded_store(q, v, vt, st, c)[1]
                    continue
                if not isinstance(q, Ptr):
                    raise AnalysisError("store through possibly null pointer at %s" % self.where())
                l = Loc(q.obj, q.path, q.idx, q.ety)
                old = self.load(st, l, True)
                self.store(st, l, vsel(c, self.conv2(v, vt, l.ty), old))
                r = q.ety
        return v, r

    # ------------------------------------------------------------------ initialisers
    def store_init(self, st, loc, init):
        ty = loc.ty
        if isinstance(init, c_ast.InitList):
            if ty.kind == "struct":
                self.zero_fill(st, loc)
                fields = list(ty.fields)
                pos = 0
                for x in init.exprs:
                    if isinstance(x, c_ast.NamedInitializer):
                        n = x.name[0].name
                        pos = [f[0] for f in fields].index(n)
                        tgt = Loc(loc.obj, loc.path + (n,), loc.idx, fields[pos][1])
                        if len(x.name) > 1:
                            raise AnalysisError("nested designator")
                        self.store_init(st, tgt, x.expr)
                    else:
                        n, t = fields[pos]
                        self.store_init(st, Loc(loc.obj, loc.path + (n,), loc.idx, t), x)
                    pos += 1
                return
            if ty.kind == "array":
                base = self._sub(loc.idx, ty)
                pos = 0
                if isinstance(ty.n, int) and len(init.exprs) < ty.n or ty.to.kind == "array":
                    self.zero_fill(st, loc)
                for x in init.exprs:
                    if isinstance(x, c_ast.NamedInitializer):
                        if len(x.name) > 1:
                            raise AnalysisError("nested designator")
                        d = x.name[0]
                        pos = self.P.constexpr(self.frames[-1].unit if self.frames else self.P.units[self.where().split(":")[0]], getattr(d, "expr", d))
                        if not isinstance(pos, int):
                            v, _ = self.rv(pos, st), None
                            if not (isinstance(v, T) and v.op == "num"):
                                raise AnalysisError("designator that is not a constant at %s" % self.where())
                            pos = int(v.args[0])
                        x = x.expr
                    self.store_init(st, Loc(loc.obj, loc.path, norm(add(base, num(pos))), ty.to), x)
                    pos += 1
                return
            if len(init.exprs) == 1:
                return self.store_init(st, loc, init.exprs[0])
            raise AnalysisError("initialiser")
        if ty.kind == "array" and isinstance(init, c_ast.Constant) and init.type == "string":
            st.mem[(loc.obj.id, loc.path)] = Arr(("lam", fresh(), mk("sym", "str", self.unq(init.value))))
            return
        v, vt = self.ev(init, st)
        self.store(st, loc, self.conv2(v, vt, ty))

    def zero_fill(self, st, loc):
        ty = loc.ty
        if ty.kind == "struct":
            for p, t in self.leafs(ty):
                if t.kind == "array":
                    st.mem[(loc.obj.id, loc.path + p)] = Arr(("lam", fresh(), ZERO))
                    self.note_write(loc.obj, loc.path + p, None)
                else:
                    self.store(st, Loc(loc.obj, loc.path + p, loc.idx, t), ZERO, True)
        elif ty.kind == "array":
            if ty.to.kind == "struct":
                for p, t in self.leafs(ty.to):
                    st.mem[(loc.obj.id, loc.path + p)] = Arr(("lam", fresh(), ZERO))
                    self.note_write(loc.obj, loc.path + p, None)
            else:
                self.note_write(loc.obj, loc.path, None)
                st.mem[(loc.obj.id, loc.path)] = Arr(("lam", fresh(), ZERO))

    # ------------------------------------------------------------------ merging
    def merge(self, states, base):
        """Merge states reached under mutually exclusive conditions below base.pc."""
        if len(states) == 1:
            s = states[0]
            return s
        np = len(base.pc)
        # longest common prefix
        pre = list(states[0].pc)
        for s in states[1:]:
            k = 0
            while k < len(pre) and k < len(s.pc) and pre[k] is s.pc[k]:
                k += 1
            del pre[k:]
        k = len(pre)
        conds = []
        for s in states:
            c = ONE
            for x in s.pc[k:]:
                c = andb(c, x)
            conds.append(c)
        out = states[-1]
        m = State()
        m.mem = dict(out.mem)
        m.heap = dict(out.heap)
        facts = None
        for s in states:
            facts = dict(s.facts) if facts is None else {a: b for a, b in facts.items() if s.facts.get(a) == b}
        for s, c in list(zip(states[:-1], conds[:-1]))[::-1]:
            if s.mem is not m.mem:
                for key in set(s.mem) | set(m.mem):
                    a, b = s.mem.get(key), m.mem.get(key)
                    if a is b or a == b:
                        continue
                    o = self.objs[key[0]]
                    if o.kind == "global" and (a is None or b is None):
                        # static of a function one branch did not reach: still its initialiser
                        for oo, cells in self.static_inits:
                            if oo is o:
                                a = cells.get(key) if a is None else a
                                b = cells.get(key) if b is None else b
                        if a is b or a == b:
                            m.mem[key] = a
                            continue
                    if o.kind == "local" and (a is None or b is None):
                        # scratch local existing in one branch only
                        m.mem[key] = a if a is not None else b
                        continue
                    if isinstance(a, Arr) or isinstance(b, Arr):
                        if a is None:
                            a = Arr(("default",))
                        if b is None:
                            b = Arr(("default",))
                        if not isinstance(a, Arr):
                            a = Arr(("lam", fresh(), a))
                        if not isinstance(b, Arr):
                            b = Arr(("lam", fresh(), b))
                        m.mem[key] = self.amerge(c, a, b)
                        continue
                    if a is None or b is None:
                        t = self.leafty(o, key[1])
                        if a is None:
                            a = self.default(o, key[1], t)
                        if b is None:
                            b = self.default(o, key[1], t)
                    m.mem[key] = vsel(c, a, b)
            for h in set(s.heap) | set(m.heap):
                a, b = s.heap.get(h), m.heap.get(h)
                if a != b:
                    m.heap[h] = self.hmerge(c, a, b)
        m.pc = tuple(pre)
        d = ZERO
        for c in conds:
            d = orb(d, c)
        if d is not ONE and not self.exhaustive(conds):
            m.pc = m.pc + (d,)
        m.facts = facts or {}
        return m

    def hmerge(self, c, a, b):
        if a is None:
            # object does not exist on that path
            return b if b == "freed" else ("cond", c, "none", b)
        if b is None:
            return a if a == "freed" else ("cond", c, a, "none")
        return ("cond", c, a, b)

    def amerge(self, c, a, b):
        # keep per-cell granularity when both only differ in plain stores over the same base
        if a.base == b.base:
            i = 0
            while i < len(a.layers) and i < len(b.layers) and a.layers[i] == b.layers[i]:
                i += 1
            ra, rb = a.layers[i:], b.layers[i:]
            if all(l[0] == "st" for l in ra + rb):
                ia, ib = {l[1]: l[2] for l in ra}, {l[1]: l[2] for l in rb}
                idxs = list(ia) + [x for x in ib if x not in ia]
                ok = all(provably_diff(x, y) for n, x in enumerate(idxs) for y in idxs[:n])
                if ok and len(idxs) <= 64:
                    rest = Arr(a.base, a.layers[:i])
                    layers = list(a.layers[:i])
                    cells = []
                    for x in idxs:
                        if x in ia and x in ib:
                            cells.append(("st", x, vsel(c, ia[x], ib[x])))
                        else:
                            return Arr(("sel", c, a, b))
                    return Arr(a.base, tuple(layers + cells))
        return Arr(("sel", c, a, b))

    def exhaustive(self, conds):
        return len(conds) == 2 and conds[0] is notb(conds[1])

    def leafty(self, o, path):
        t = o.ty
        while t is not None and t.kind == "array":
            t = t.to
        for p in path:
            t = dict(t.fields)[p]
            while t.kind == "array":
                t = t.to
        return t

    # ------------------------------------------------------------------ statements
    # exec returns the normal-completion state or None
    def ex(self, s, st):
        if s is None:
            return st
        if s.coord is not None:
            self.line = s.coord.line
        m = getattr(self, "ex_" + type(s).__name__, None)
        if m is None:
            self.ev(s, st)
            return st
        return m(s, st)

    def ex_Compound(self, s, st):
        f = self.frames[-1]
        f.scopes.append({})
        items = s.block_items or []
        i = 0
        while i < len(items) and st is not None:
            x = items[i]
            if isinstance(x, c_ast.Pragma):
                i, st = self.omp(items, i, st)
                continue
            st = self.ex(x, st)
            i += 1
        f.scopes.pop()
        return st

    def ex_EmptyStatement(self, s, st):
        return st

    def ex_Pragma(self, s, st):
        if re.match(r"\s*omp\b", s.string or ""):
            raise AnalysisError("OpenMP pragma in an unsupported place at %s" % s.coord)
        return st

    def ex_DeclList(self, s, st):
        for d in s.decls:
            st = self.ex(d, st)
        return st

    def ex_Typedef(self, s, st):
        self.frames[-1].unit.typedefs[s.name] = self.P.ty(self.frames[-1].unit, s.type)
        return st

    def ex_Decl(self, s, st):
        f = self.frames[-1]
        if isinstance(s.type, c_ast.FuncDecl):
            return st
        if s.name is None:
            self.P.ty(f.unit, s.type)
            return st
        t = self.P.ty(f.unit, s.type)
        if t.kind == "array" and t.n is not None and not isinstance(t.n, int):
            nval = self.rv(t.n, st)
            t = cfront.Ty("array", to=t.to, n=int(nval.args[0]) if nval.op == "num" else None)
            vla = nval
        else:
            vla = None
        if t.kind == "array" and t.n is None and s.init is not None:
            n = len(s.init.exprs) if isinstance(s.init, c_ast.InitList) else len(self.unq(s.init.value)) + 1
            t = cfront.Ty("array", to=t.to, n=n, size=n * t.to.size)
        if "static" in s.storage:
            if self.pure_mode and "const" not in (s.quals or []):
                raise NotPure()
            key = ("static", id(s))
            o = self.statics.get(key)
            if o is None:
                r, self.region = self.region, None
                o = self.newobj(kind="global", name="%s:%s.%s" % (os.path.basename(f.func.file), f.func.name, s.name), ty=t, init="zero", where=str(s.coord))
                self.region = r
                o.const = "const" in (s.quals or []) and t.kind != "ptr"
                self.statics[key] = o
                if t.kind == "array":
                    o.size = num(elements(t))
                if not self.static_sym or o.const:
                    if s.init is not None:
                        l = Loc(o, (), None, t)
                        # before the program starts: not a write of the enclosing loops
                        w, self.written, pm, self.pure_mode = self.written, None, self.pure_mode, 0
                        self.quiet_log += 1
                        try:
                            self.store_init(st, l, s.init)
                        finally:
                            self.quiet_log -= 1
                            self.written, self.pure_mode = w, pm
                        self.static_inits.append((o, dict((k, v) for k, v in st.mem.items() if k[0] == o.id)))
                else:
                    o.init = "sym"
            elif not any(k[0] == o.id for k in st.mem) and o.init != "sym":
                for oo, cells in self.static_inits:
                    if oo is o:
                        st.mem.update(cells)
            f.scopes[-1][s.name] = Loc(o, (), None, t)
            return st
        if "extern" in s.storage:
            g = self.P.find_gvar(f.unit, s.name)
            f.scopes[-1][s.name] = Loc(self.gobj(g), (), None, g.ty)
            return st
        o = self.newobj(kind="local", name=s.name, ty=t, where=str(s.coord))
        if t.kind == "array":
            n = elements(t)
            o.size = num(n) if vla is None or t.n is not None else vla
        f.objs.append(o)
        loc = Loc(o, (), None, t)
        if s.init is not None:
            # the initialiser sees outer declarations of the same name in practice: none here
            if isinstance(s.init, c_ast.InitList) or t.kind == "array":
                f.scopes[-1][s.name] = loc
                self.store_init(st, loc, s.init)
            else:
                v, vt = self.ev(s.init, st)
                v = self.conv2(v, vt, t)
                f.scopes[-1][s.name] = loc
                self.store(st, loc, v)
        else:
            f.scopes[-1][s.name] = loc
            # a fresh activation of the block: undefined again
            for k in [k for k in st.mem if k[0] == o.id]:
                del st.mem[k]
        return st

    static_sym = False
    loop_log = None

    def ex_If(self, s, st):
        c = self.truthv(self.rv(s.cond, st), st)
        if c is ONE:
            return self.ex(s.iftrue, st)
        if c is ZERO:
            return self.ex(s.iffalse, st)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c, True)
        s2.assume(c, False)
        r1 = self.ex(s.iftrue, s1)
        r2 = self.ex(s.iffalse, s2)
        live = [x for x in (r1, r2) if x is not None]
        if not live:
            return None
        if len(live) == 1:
            return live[0]
        return self.merge(live, st)

    def ex_Return(self, s, st):
        v = None
        if s.expr is not None:
            v, t = self.ev(s.expr, st)
            v = self.conv2(v, t, self.frames[-1].func.ty.ret)
            if isinstance(v, T) and self.frames[-1].func.ty.ret.kind == "float" and self.frames[-1].func.ty.ret.size == 4:
                v = self.conv(v, self.frames[-1].func.ty.ret)
        self.frames[-1].returns.append((st, v))
        return None

    def ex_Break(self, s, st):
        self.frames[-1].brk[-1].append(st)
        return None

    def ex_Continue(self, s, st):
        self.frames[-1].cont[-1].append(st)
        return None

    def ex_Label(self, s, st):
        raise AnalysisError("label at %s" % s.coord)

    def ex_Switch(self, s, st):
        v, t = self.ev(s.cond, st)
        v = self.simp(st, v)
        body = s.stmt.block_items or []
        groups = []
        flat = []
        for x in body:
            while isinstance(x, (c_ast.Case, c_ast.Default)):
                groups.append((x, len(flat)))
                nxt = x.stmts or []
                if len(nxt) == 1 and isinstance(nxt[0], (c_ast.Case, c_ast.Default)):
                    x = nxt[0]
                else:
                    flat.extend(nxt)
                    x = None
            if x is not None:
                flat.append(x)
        f = self.frames[-1]
        default = None
        cases = []
        for g, pos in groups:
            if isinstance(g, c_ast.Default):
                default = pos
            else:
                cases.append((self.rv(g.expr, st), pos))
        outs = []
        cur = st
        f.brk.append([])
        f.scopes.append({})
        def run(pos, s0):
            i = pos
            while s0 is not None and i < len(flat):
                if isinstance(flat[i], c_ast.Pragma):
                    i, s0 = self.omp(flat, i, s0)
                    continue
                s0 = self.ex(flat[i], s0)
                i += 1
            if s0 is not None:
                outs.append(s0)
        for cv, pos in cases:
            c = self.truthv(cmp("==", v, cv), cur)
            if c is ZERO:
                continue
            if c is ONE:
                run(pos, cur)
                cur = None
                break
            s1 = cur.copy()
            s1.assume(c, True)
            run(pos, s1)
            cur = cur.copy()
            cur.assume(c, False)
        if cur is not None:
            if default is not None:
                run(default, cur)
            else:
                outs.append(cur)
        f.scopes.pop()
        outs = outs + f.brk.pop()
        if not outs:
            return None
        return self.merge(outs, st)

    # ------------------------------------------------------------------ loops
    def ex_For(self, s, st):
        f = self.frames[-1]
        f.scopes.append({})
        if s.init is not None:
            st = self.ex(s.init, st)
        r = self.loop(s.cond, s.next, s.stmt, st, False, s)
        f.scopes.pop()
        return r

    def ex_While(self, s, st):
        return self.loop(s.cond, None, s.stmt, st, False, s)

    @staticmethod
    def forever(cond):
        if cond is None:
            return True
        return isinstance(cond, c_ast.Constant) and cond.type in ("int", "char") and cond.value not in ("0", "0u", "0U", "0L")

    def head_break(self, cond, body):
        """A loop without a condition which starts with `if (c) break;' is a loop on !c."""
        if not self.forever(cond) or not isinstance(body, c_ast.Compound) or not body.block_items:
            return cond, body
        h = self.headed.get(id(body))
        if h is None:
            first = body.block_items[0]
            h = (body, cond, body)
            if isinstance(first, c_ast.If) and first.iffalse is None:
                then = first.iftrue
                if isinstance(then, c_ast.Compound) and len(then.block_items or ()) == 1:
                    then = then.block_items[0]
                if isinstance(then, c_ast.Break):
                    h = (body, c_ast.UnaryOp("!", first.cond, first.coord), c_ast.Compound(body.block_items[1:], body.coord))
            self.headed[id(body)] = h
        return h[1], h[2]

    def ex_DoWhile(self, s, st):
        if self.forever(s.cond):
            return self.loop(s.cond, None, s.stmt, st, False, s)
        # first iteration unconditionally, then a while loop
        f = self.frames[-1]
        f.brk.append([]); f.cont.append([])
        r = self.ex(s.stmt, st)
        conts = f.cont.pop()
        brks = f.brk.pop()
        live = ([r] if r is not None else []) + conts
        if not live:
            return self.merge(brks, st) if brks else None
        m = self.merge(live, st)
        out = self.loop(s.cond, None, s.stmt, m, False, s)
        outs = ([out] if out is not None else []) + brks
        return self.merge(outs, st) if outs else None

    def loop(self, cond, nxt, body, st, ws, node):
        """General loop: unroll while the condition is constant, else abstract."""
        cond, body = self.head_break(cond, body)
        f = self.frames[-1]
        brks = []
        it = 0
        base = st
        saved = (len(self.events), len(f.returns), len(self.regions), len(self.integrals))
        fast = None
        while True:
            if st is None:
                break
            c = ONE
            probe = st
            if cond is not None:
                if not self.effect_free(cond):
                    probe = st.copy()
                c = self.truthv(self.rv(cond, probe), probe)
            if c is ZERO:
                st = probe
                break
            if c is not ONE and not ws and self.counted(cond, probe):
                # a counter with a known bound, and another condition: one way out per iteration
                out = probe.copy()
                out.assume(c, False)
                brks.append(out)
                probe = probe.copy()
                probe.assume(c, True)
                c = ONE
            if c is not ONE:
                st = self.symloop(cond, nxt, body, st, ws, node)
                break
            if ws:
                return self.symloop(cond, nxt, body, base, ws, node)
            st = probe
            it += 1
            if it > (2000 if TM.ORACLE is not None else MAXUNROLL if not brks else min(MAXUNROLL, 40)):
                # many iterations: start again, analysing one iteration for all
                del self.events[saved[0]:]; del f.returns[saved[1]:]; del self.regions[saved[2]:]; del self.integrals[saved[3]:]
                return self.symloop(cond, nxt, body, base, ws, node)
            if it == 1:
                st = st.copy()
            f.brk.append([]); f.cont.append([])
            r = self.ex(body, st)
            live = ([r] if r is not None else []) + f.cont.pop()
            brks += f.brk.pop()
            st = self.merge(live, st) if live else None
            if st is not None and nxt is not None:
                self.ev(nxt, st)
        outs = ([st] if st is not None else []) + brks
        if not outs:
            return None
        return self.merge(outs, base) if len(outs) > 1 else outs[0]

    def counted(self, cond, st):
        """The condition is a conjunction with a part known to hold."""
        parts, todo = [], [cond]
        while todo:
            e = todo.pop()
            if isinstance(e, c_ast.BinaryOp) and e.op == "&&":
                todo += [e.left, e.right]
            else:
                parts.append(e)
        if len(parts) < 2 or not self.effect_free(cond):
            return False
        self.quiet_log += 1
        try:
            for e in parts:
                if not isinstance(e, c_ast.Constant) and isinstance(e, c_ast.BinaryOp) and e.op in ("<", "<=", ">", ">=", "!=") and self.truthv(self.rv(e, st), st) is ONE:
                    return True
        except AnalysisError:
            pass
        finally:
            self.quiet_log -= 1
        return False

    def run_body(self, cond, nxt, body, st, entry_cond):
        """One abstract iteration from st (condition assumed). Returns (end state, break states, returns)."""
        f = self.frames[-1]
        f.brk.append([]); f.cont.append([])
        nret = len(f.returns)
        base = st
        r = self.ex(body, st)
        live = ([r] if r is not None else []) + f.cont.pop()
        brks = f.brk.pop()
        rets = f.returns[nret:]
        del f.returns[nret:]
        end = self.merge(live, base) if live else None
        if end is not None and nxt is not None:
            self.ev(nxt, end)
        return end, brks, rets

    def symloop(self, cond, nxt, body, st, ws, node):
        tag = "%s@%s" % (os.path.basename(self.frames[-1].func.file) if self.frames[-1].func else "?", node.coord.line if node.coord else "?")
        # --- discovery: which cells does an iteration modify?
        W = {}
        self.quiet_log += 1
        savev, savel = self.wsl, self.loops
        saveph = self.phase
        try:
            for _ in range(12):
                s0, phis = self.phi_state(st, W, tag, {}, None)
                self.written = (self.written or []) + [{}]
                self.loops = savel + [(fresh("d"), None)]
                nid = self.nid
                c = self.truthv(self.rv(cond, s0), s0) if cond is not None else ONE
                if c.op != "num":
                    s0.assume(c)
                end, brks, rets = self.run_body(cond, nxt, body, s0, c)
                w = self.written.pop()
                if not self.written:
                    self.written = None
                new = False
                for key, idxs in w.items():
                    o = self.objs[key[0]]
                    if o.id > nid and o.kind == "local":
                        continue        # born in the body
                    if o.id > nid and o.kind == "heap":
                        continue
                    have = W.setdefault(key, set())
                    for ix in idxs:
                        if ix is not None:
                            ix = self.generalise(ix, savel)
                        if ix not in have:
                            have.add(ix)
                            new = True
                self.loops = savel
                if not new:
                    break
            else:
                raise AnalysisError("loop write set does not stabilise at %s" % node.coord)
            # --- induction variables
            ind = {}
            if end is not None:
                for pk, ph in phis.items():
                    if pk[1] != "scalar":
                        continue
                    v = end.mem.get(pk[0])
                    v0 = ph
                    if isinstance(ph, Ptr):
                        if isinstance(v, Ptr) and v.obj is ph.obj and v.path == ph.path:
                            v, v0 = v.idx, ph.idx
                        else:
                            continue
                    if isinstance(v, T):
                        d, cst = lin(sub(v, v0)) if v is not v0 else ({}, Fraction(0))
                        if not d and cst != 0 and cst.denominator == 1:
                            ind[pk[0]] = cst
        finally:
            self.quiet_log -= 1
            self.loops = savel
            self.wsl = savev
            self.phase = saveph
        # --- second phase: with induction variables resolved
        lv = fresh("i")
        n = None
        self.quiet_log += 1
        try:
            s0, phis = self.phi_state(st, W, tag, ind, lv)
            self.loops = savel + [(lv, None)]
            c = self.truthv(self.rv(cond, s0), s0) if cond is not None else ONE
            n = self.trip_count(c, lv)
        finally:
            self.loops = savel
            self.quiet_log -= 1
        s0, phis = self.phi_state(st, W, tag, ind, lv)
        self.loops = savel + [(lv, n)]
        saved_wsl = self.wsl
        if ws:
            self.wsl = self.wsl + [lv]
        nid = self.nid
        nheap0 = set(st.heap)
        npc = len(s0.pc)
        if cond is not None:
            self.quiet_log += 1
            c = self.truthv(self.rv(cond, s0), s0)
            self.quiet_log -= 1
            if n is None and c.op != "num":
                s0.assume(c)
            elif n is not None and c.op != "num":
                # the condition holds for every lv in range: a fact, not a guard
                f2 = dict(s0.facts); f2[c] = True
                s0.facts = f2
        keep_pc = s0.pc
        end, brks, rets = self.run_body(cond, nxt, body, s0, None)
        self.loops = savel
        self.wsl = saved_wsl
        irregular = bool(brks or rets) or n is None
        self.alive = None
        if brks and not rets and n is not None:
            self.alive = self.break_guard(brks, len(keep_pc), lv)
        if ws and irregular:
            raise AnalysisError("irregular work-sharing loop at %s" % node.coord)
        if end is None and not brks:
            if rets:
                # the loop always returns in its first iteration when entered
                for s_, v_ in rets:
                    self.frames[-1].returns.append((s_, v_))
            out = st.copy()
            return out
        ends = ([end] if end is not None else []) + brks
        # leaked heap: objects born in the body still live at its end
        for h, hs in (end.heap.items() if end is not None else ()):
            o = self.objs[h]
            if o.id > nid and hs != "freed":
                self.event("leak-iter", st, o, (), None, node.coord.line)
        out = st.copy()
        out.heap = dict(st.heap)
        for e_ in ends:
            for h, hs in e_.heap.items():
                if h in nheap0 and hs != st.heap.get(h):
                    # freed inside a loop body: freed again by the next iteration
                    out.heap[h] = hs
                    if hs == "freed":
                        self.event("free-in-loop", st, self.objs[h], (), None, node.coord.line)
                elif h not in nheap0:
                    out.heap[h] = hs
        res = {}
        fin = end if end is not None else brks[0]
        allphis = set()
        for pk, ph in phis.items():
            if pk[1] == "scalar" and pk[0] in ind:
                continue
            if isinstance(ph, T):
                allphis.add(ph)
            elif isinstance(ph, Ptr) and ph.idx is not None and ph.idx.op == "carried":
                allphis.add(ph.idx)
            elif isinstance(ph, Arr):
                allphis.add(mk("carried", ph.base[1]))
        if not irregular:
            self.own_slots(st, fin, phis, lv)
        keys = {}
        for pk in phis:
            keys.setdefault(pk[0], []).append(pk)
        for key, pks in keys.items():
            o = self.objs[key[0]]
            pre = st.mem.get(key)
            v = fin.mem.get(key)
            if irregular and brks:
                vs = [e_.mem.get(key) for e_ in ends]
                if any(x != vs[0] for x in vs[1:]) or end is None or True:
                    pass
            kind = pks[0][1]
            if kind == "scalar":
                out.mem[key] = self.after_scalar(key, o, pre, phis[pks[0]], v, ends, lv, n, allphis, irregular, ind, tag)
            else:
                out.mem[key] = self.after_array(key, o, pre, [(pk[2], phis[pk]) for pk in pks], v, ends, lv, n, allphis, irregular, tag, W[key])
        if self.loop_log is not None and (n is None or brks) and not rets:
            self.loop_log.append(LoopRec(node, self.frames[-1].func, lv, c, phis, st.mem, end.mem if end is not None else None,
                                         [(s_.pc[len(keep_pc):], s_.mem) for s_ in brks], out.mem))
        # cells born in the body that are not local scratch (lazily defaulted globals) keep defaults
        for s_, v_ in rets:
            # a return from inside an irregular loop: value depends on an unknown iteration
            c = mk("fix", "exit", tag, lv, *[x for x in s_.pc[len(st.pc):]])
            s2 = out.copy()
            s2.mem = dict(s_.mem)
            s2.heap = dict(s_.heap)
            s2.pc = st.pc + (mk("cmp", "==", c, ONE),)
            self.frames[-1].returns.append((s2, v_ if not isinstance(v_, T) else self.opaque_fix("ret", tag, lv, n, v_)))
            out.assume(mk("cmp", "==", c, ONE), False)
        return out

    def own_slots(self, st, fin, phis, lv):
        """A read of a slot no earlier iteration has written sees the value before the loop."""
        env = {}
        for pk, ph in phis.items():
            if pk[1] != "arr":
                continue
            key = pk[0]
            v = fin.mem.get(key)
            if not isinstance(v, Arr):
                continue
            stores = self.store_indices(v, ph)
            if stores is None:
                continue
            aff = []
            for ix in stores:
                d, c = lin(ix)
                d = dict(d)
                s = d.pop(lv, Fraction(0))
                if s == 0 or any(depends(x, {lv}) for x in d):
                    aff = None
                    break
                aff.append((s, unlin(d, c)))
            if aff is None:
                continue
            o = self.objs[key[0]]
            tagc = mk("carried", ph.base[1])
            pre = st.mem.get(key)
            if not isinstance(pre, Arr):
                pre = Arr(("default",)) if pre is None else Arr(("lam", fresh(), pre))
            et = self.leafty(o, key[1])
            cand = set()
            for k2, v2 in fin.mem.items():
                if (k2, "scalar", None) in phis or (k2, "arr", None) in phis or any(q[0] == k2 for q in phis):
                    for t in self.terms_of(v2):
                        for x in leaves(t, through_calls=False):
                            if x.op == "elem" and x.args[0] is tagc:
                                cand.add(x)
            for x in cand:
                d, c = lin(x.args[1])
                d = dict(d)
                s = d.pop(lv, Fraction(0))
                off = unlin(d, c)
                ok = True
                for s2, off2 in aff:
                    if s != s2:
                        ok = False
                        break
                    dd, cc = lin(sub(off, off2))
                    if dd or (cc / s2) < 0 and (cc / s2).denominator == 1:
                        ok = False
                        break
                if ok:
                    p0 = self.aread(State(), pre, x.args[1], o, key[1], et)
                    if isinstance(p0, T):
                        env[x] = p0
        if not env:
            return
        memo = {}
        for k2 in list(fin.mem):
            if any(q[0] == k2 for q in phis):
                fin.mem[k2] = self.map_terms(fin.mem[k2], lambda t: subst(t, env, memo))

    def store_indices(self, v, ph):
        """Indices stored to on top of the carried array, None when not all are explicit."""
        if v == ph:
            return []
        if v.base == ph.base:
            r = []
            for l in v.layers:
                if l[0] != "st":
                    return None
                r.append(l[1])
            return r
        if v.base[0] == "sel" and all(l[0] == "st" for l in v.layers):
            a, b = self.store_indices(v.base[2], ph), self.store_indices(v.base[3], ph)
            if a is None or b is None:
                return None
            return a + b + [l[1] for l in v.layers]
        return None

    def terms_of(self, v):
        out = []
        def f(t):
            out.append(t)
            return t
        self.map_terms(v, f)
        return out

    def map_terms(self, v, f):
        if isinstance(v, T):
            return f(v)
        if isinstance(v, Ptr):
            return v if v.idx is None else Ptr(v.obj, v.path, f(v.idx), v.ety)
        if isinstance(v, SelV):
            return vsel(f(v.c), self.map_terms(v.a, f), self.map_terms(v.b, f))
        if isinstance(v, Arr):
            b = v.base
            if b[0] == "lam":
                b = ("lam", b[1], self.map_terms(b[2], f))
            elif b[0] == "sel":
                b = ("sel", f(b[1]), self.map_terms(b[2], f), self.map_terms(b[3], f))
            elif b[0] == "last":
                b = ("last", b[1], f(b[2]), self.map_terms(b[3], f), self.map_terms(b[4], f))
            ls = []
            for l in v.layers:
                if l[0] == "st":
                    ls.append(("st", f(l[1]), self.map_terms(l[2], f)))
                else:
                    ls.append(("map", l[1], f(l[2]), l[3], f(l[4]), self.map_terms(l[5], f), f(l[6]), l[7]))
            return Arr(b, tuple(ls))
        return v

    def opaque_fix(self, name, tag, lv, n, *deps):
        return mk("fix", name, tag, lv, n if n is not None else ZERO, *[d for d in deps if isinstance(d, T)])

    ANY = mk("lv", "*any*")
    def generalise(self, ix, outer):
        """An index varying with the loop is just 'varying'; invariant ones stay themselves."""
        outer = set(lv for lv, n in outer)
        for x in leaves(ix, through_calls=False):
            if x.op == "carried" or x.op == "fix" or x.op == "lv" and x not in outer:
                return self.ANY
        return ix

    def phi_state(self, st, W, tag, ind, lv):
        """State at the start of a generic iteration."""
        s0 = st.copy()
        phis = {}
        for key, idxs in W.items():
            o = self.objs[key[0]]
            pre = st.mem.get(key)
            nm = "%s%s" % (o.name, "".join("." + p for p in key[1]))
            isarr = isinstance(pre, Arr) or any(i is not None for i in idxs)
            if not isarr:
                t = self.leafty(o, key[1])
                if pre is None:
                    pre = self.default(o, key[1], t)
                if key in ind:
                    if isinstance(pre, Ptr):
                        v = Ptr(pre.obj, pre.path, norm(add(pre.idx, mul(num(ind[key]), lv))), pre.ety)
                    else:
                        v = norm(add(pre, mul(num(ind[key]), lv)))
                    phis[(key, "scalar", None)] = v
                    s0.mem[key] = v
                    continue
                ph = mk("carried", "%s|%s" % (tag, nm), o.id)
                if isinstance(pre, Ptr):
                    ph = Ptr(pre.obj, pre.path, ph, pre.ety) if pre.idx is not None else pre
                elif isinstance(pre, SelV) or isinstance(pre, FnV) or isinstance(pre, Str):
                    ph = pre
                phis[(key, "scalar", None)] = ph
                s0.mem[key] = ph
            else:
                real = [i for i in idxs if i is not None]
                inv = all(i.op == "num" or not self.mentions_loop(i) for i in real) and len(real) == len(idxs)
                disj = inv and all(provably_diff(a, b) for k, a in enumerate(real) for b in real[:k])
                if disj and len(real) <= 64:
                    arr = pre if isinstance(pre, Arr) else Arr(("default",))
                    for i in sorted(real, key=lambda x: x.id):
                        ph = mk("carried", "%s|%s" % (tag, nm), o.id, i)
                        p0 = self.aread(st, arr, i, o, key[1], self.leafty(o, key[1]))
                        if isinstance(p0, T):
                            phis[(key, "cell", i)] = ph
                            arr = self.astore(arr, i, ph)
                        else:
                            phis[(key, "cell", i)] = p0
                    s0.mem[key] = arr
                else:
                    ph = Arr(("phi", "%s|%s#%d" % (tag, nm, o.id)))
                    phis[(key, "arr", None)] = ph
                    s0.mem[key] = ph
        return s0, phis

    def mentions_loop(self, i):
        """Index varying with the loop being analysed: mentions a loop variable or carried value
        introduced after the enclosing loops."""
        outer = set(lv for lv, n in self.loops)
        for x in leaves(i, through_calls=False):
            if x.op == "carried":
                return True
            if x.op == "lv" and x not in outer:
                return True
        return False

    def trip_count(self, c, lv):
        """Number of iterations for a condition on lv (0,1,2,...), or None."""
        if c.op != "cmp" and c.op != "not":
            return None
        if c.op == "not" and c.args[0].op == "cmp" and c.args[0].args[0] == "==":
            a, b = c.args[0].args[1], c.args[0].args[2]
            op = "!="
        elif c.op == "cmp":
            op, a, b = c.args
        else:
            return None
        if op == "<":
            d, k = lin(sub(b, a))        # continue while b-a > 0
            k = k - 1
        elif op == "<=":
            d, k = lin(sub(b, a))        # while b-a >= 0
        elif op == "!=":
            d, k = lin(sub(b, a))
            co = d.get(lv)
            if co is None:
                return None
            if co > 0:
                d = {x: -y for x, y in d.items()}
                k = -k
            k = k - 1
        else:
            return None
        co = d.get(lv)
        if co is None or co >= 0:
            return None
        if co != -1:
            # floor((rest)/|co|)+1
            rest = unlin({x: y for x, y in d.items() if x is not lv}, k)
            if rest.op == "num":
                return num(int(rest.args[0] // -co) + 1)
            return norm(add(mk("idiv", rest, num(-co)), ONE))
        rest = {x: y for x, y in d.items() if x is not lv}
        if any(depends(x, {lv}) for x in rest) or any(x.op == "carried" for y in rest for x in leaves(y)):
            return None
        return unlin(rest, k + 1)

    def after_scalar(self, key, o, pre, ph, v, ends, lv, n, allphis, irregular, ind, tag):
        t = self.leafty(o, key[1])
        if pre is None:
            pre = self.default(o, key[1], t)
        if irregular:
            vs = [e.mem.get(key) for e in ends]
            if all(x == ph for x in vs) and key not in ind:
                return pre
            if isinstance(pre, Ptr) or not all(isinstance(x, T) for x in vs):
                return mk("fix", "ptr", tag, lv, ZERO)
            r = self.broken_scalar(key, pre, ph, vs, lv, n, allphis, ind)
            if r is not None:
                return r
            return self.opaque_fix(o.name, tag, lv, n, pre, *vs)
        if key in ind:
            if isinstance(pre, Ptr):
                return Ptr(pre.obj, pre.path, norm(add(pre.idx, mul(num(ind[key]), self.trips(n)))), pre.ety)
            return norm(add(pre, mul(num(ind[key]), self.trips(n))))
        return self.after_value(pre, ph, v, lv, n, allphis, tag, o)

    def break_guard(self, brks, npc, lv):
        """(alive, before, conditions): the loop has not been left at or before / before iteration lv."""
        conds = []
        for s_ in brks:
            c = ONE
            for x in s_.pc[npc:]:
                c = andb(c, x)
            conds.append(c)
        left = conds[0]
        for c in conds[1:]:
            left = orb(left, c)
        if any(x.op in ("carried", "fix") for x in leaves(left, through_calls=False)):
            return None
        j = fresh("i")
        here = subst(sel(left, ONE, ZERO), {lv: j})
        alive = cmp("==", TM.mksum(j, add(lv, ONE), here), ZERO)
        before = cmp("==", TM.mksum(j, lv, here), ZERO)
        return alive, before, conds

    def broken_scalar(self, key, pre, ph, vs, lv, n, allphis, ind):
        """Scalar accumulated by a counted loop which may be left early; vs: at the end of an
        iteration, then at each break."""
        if self.alive is None or not isinstance(pre, T):
            return None
        alive, before, conds = self.alive
        if key in ind:
            if len(vs) != len(conds) + 1 or any(x is not ph for x in vs[1:]):
                return None
            return norm(add(pre, mul(num(ind[key]), self.mksum(lv, n, sel(alive, ONE, ZERO)))))
        if len(vs) != len(conds) + 1:
            return None
        bs = []
        for v in vs:
            r = self.linear_in(v, ph)
            if r is None or r[0] is not ONE or depends(r[1], allphis):
                return None
            bs.append(r[1])
        if all(b is ZERO for b in bs[1:]):
            return add(pre, self.mksum(lv, n, sel(alive, bs[0], ZERO)))
        e = bs[0]
        for c, b in zip(conds, bs[1:]):
            e = sel(c, b, e)
        return add(pre, self.mksum(lv, n, sel(before, e, ZERO)))

    def broken_array(self, o, pre, phs, vs, lv, n, allphis, path, et):
        if self.alive is None or len(vs) != len(self.alive[2]) + 1:
            return None
        alive = self.alive[0]
        if phs[0][0] is not None:
            A = pre
            es = State()
            for i, ph in phs:
                p0 = self.aread(es, pre, i, o, path, et)
                ws = [self.aread(es, v, i, o, path, et) for v in vs]
                if not isinstance(p0, T) or not all(isinstance(w, T) for w in ws):
                    return None
                r = p0 if all(w is ph for w in ws) else self.broken_scalar(None, p0, ph, ws, lv, n, allphis, {})
                if r is None:
                    return None
                A = self.astore(A, i, r)
            return A
        ph = phs[0][1]
        if any(v != ph for v in vs[1:]):
            return None
        v = vs[0]
        if v == ph:
            return pre
        if not isinstance(v, Arr) or v.base != ph.base or any(l[0] != "st" for l in v.layers):
            return None
        layers = []
        for l in v.layers:
            d, c = lin(l[1])
            s = d.get(lv, Fraction(0))
            off = unlin({k: x for k, x in d.items() if k is not lv}, c)
            if s == 0 or depends(off, {lv}) or isinstance(l[2], T) and depends(l[2], allphis):
                return None
            layers.append(("map", lv, n, s, off, l[2], alive, False))
        if not self.disjoint_maps(layers, n):
            return None
        return Arr(pre.base, pre.layers + tuple(layers))

    def trips(self, n):
        return n

    def after_value(self, pre, ph, v, lv, n, allphis, tag, o):
        if v is ph or v == ph:
            return pre
        if isinstance(v, T) and isinstance(ph, T):
            if not depends(v, allphis):
                last = subst(v, {lv: sub(n, ONE)})
                if isinstance(pre, T):
                    return sel(cmp("<", ZERO, n), last, pre) if not self.nonneg(sub(n, ONE)) else last
                return last
            r = self.linear_in(v, ph)
            if r is not None:
                a, b = r
                if a is ONE and not depends(b, allphis):
                    return add(pre, self.mksum(lv, n, b))
            return self.opaque_fix("rec:" + o.name, tag, lv, n, pre if isinstance(pre, T) else ZERO, v)
        if isinstance(v, Ptr) or isinstance(pre, Ptr):
            if isinstance(v, Ptr) and (v.idx is None or not depends(v.idx, allphis)):
                return self.vsubst(v, {lv: sub(n, ONE)})
            return mk("fix", "ptr", tag, lv, ZERO)        # an error where it is used
        return v

    def mksum(self, lv, n, b):
        return TM.mksum(lv, n, b)

    def linear_in(self, v, ph, memo=None):
        """v = a*ph + b with a in {0,1}; None if not of that shape."""
        if memo is None:
            memo = {}
        if v in memo:
            return memo[v]
        r = None
        if v is ph:
            r = (ONE, ZERO)
        elif not depends(v, {ph}):
            r = (ZERO, v)
        elif v.op == "+":
            x, y = self.linear_in(v.args[0], ph, memo), self.linear_in(v.args[1], ph, memo)
            if x and y and not (x[0] is ONE and y[0] is ONE):
                r = (ONE if (x[0] is ONE or y[0] is ONE) else ZERO, add(x[1], y[1]))
        elif v.op == "sel" and not depends(v.args[0], {ph}):
            x, y = self.linear_in(v.args[1], ph, memo), self.linear_in(v.args[2], ph, memo)
            if x and y and x[0] is y[0]:
                r = (x[0], sel(v.args[0], x[1], y[1]))
        memo[v] = r
        return r

    def after_array(self, key, o, pre, phs, v, ends, lv, n, allphis, irregular, tag, widx):
        path = key[1]
        if pre is None:
            pre = Arr(("default",))
        elif not isinstance(pre, Arr):
            pre = Arr(("lam", fresh(), pre))
        et = self.leafty(o, path)
        if irregular:
            vs = [e.mem.get(key) for e in ends]
            r = self.broken_array(o, pre, phs, vs, lv, n, allphis, path, et)
            if r is not None:
                return r
            x = fresh("x")
            deps = []
            for a in vs:
                if isinstance(a, Arr):
                    deps += [l[2] for l in a.layers if l[0] == "st" and isinstance(l[2], T)]
                    deps += [l[1] for l in a.layers if l[0] == "st"]
            if phs[0][0] is not None:
                A = pre
                for i, ph in phs:
                    p0 = self.aread(State(), pre, i, o, path, et)
                    if isinstance(p0, T):
                        A = self.astore(A, i, self.opaque_fix(o.name, tag, lv, n, p0, *deps))
                return A
            return Arr(("lam", x, mk("fix", "arr:" + o.name, tag, lv, n if n is not None else ZERO, x, *deps)))
        if phs[0][0] is not None:           # per-cell
            A = pre
            es = State()
            for i, ph in phs:
                p0 = self.aread(es, pre, i, o, path, et)
                v1 = self.aread(es, v, i, o, path, et)
                r = self.after_value(p0, ph, v1, lv, n, allphis, tag, o)
                A = self.astore(A, i, r)
            return A
        ph = phs[0][1]
        if v == ph:
            return pre
        if not isinstance(v, Arr):
            raise AnalysisError("array turned scalar in loop %s" % tag)
        dep = self.arr_dep(v, allphis)
        # stores on top of the carried content
        if v.base == ph.base and all(l[0] == "st" for l in v.layers):
            layers = []
            ok = True
            for l in v.layers:
                d, c = lin(l[1])
                s = d.get(lv, Fraction(0))
                off = unlin({k: x for k, x in d.items() if k is not lv}, c)
                if s == 0 or depends(off, {lv}) or any(depends(x, {lv}) for x in d if x is not lv):
                    ok = False
                    break
                val = l[2]
                g = ONE
                if isinstance(val, T) and depends(val, allphis):
                    ok = False
                    break
                layers.append(("map", lv, n, s, off, val, g, s == 1 and off is ZERO and self.covers(n, o)))
            if ok and self.disjoint_maps(layers, n):
                if len(layers) == 1 and layers[0][7]:
                    return Arr(("default",), tuple(layers))
                return Arr(pre.base, pre.layers + tuple(layers))
            # accumulation  A[f(i)] = A[f(i)] + e(i): exactly one store reading its own slot
            r = self.accum(v, ph, lv, n, allphis, pre, o, path, et)
            if r is not None:
                return r
        # guarded store: sel(c, phi+stores, phi)
        if v.base[0] == "sel" and not v.layers:
            r = self.guarded_map(v, ph, lv, n, allphis, pre, o)
            if r is not None:
                return r
        # maps over an inner variable with an index affine in this one
        if v.base == ph.base and not dep["phi_in_values"]:
            r = self.nested_map(v, ph, lv, n, allphis, pre, o)
            if r is not None:
                return r
        if not dep["any"]:
            return Arr(("last", lv, n, v, pre))
        x = fresh("x")
        deps = [l[2] for l in v.layers if l[0] == "st" and isinstance(l[2], T)] + [l[5] for l in v.layers if l[0] == "map" and isinstance(l[5], T)]
        return Arr(("lam", x, mk("fix", "arr:" + o.name, tag, lv, n, x, *deps)))

    def covers(self, n, o):
        return o.size is not None and norm(o.size) is norm(n)

    def disjoint_maps(self, layers, n):
        for i, a in enumerate(layers):
            for b in layers[:i]:
                if a[3] != b[3]:
                    return False
                d, c = lin(sub(a[4], b[4]))
                if d or not (0 < abs(c) < abs(a[3])):
                    return False
        return True

    def accum(self, v, ph, lv, n, allphis, pre, o, path, et):
        layers = []
        tagc = mk("carried", ph.base[1])
        for l in v.layers:
            d, c = lin(l[1])
            s = d.get(lv, Fraction(0))
            off = unlin({k: x for k, x in d.items() if k is not lv}, c)
            if s == 0 or not isinstance(l[2], T):
                return None
            own = mk("elem", tagc, norm(l[1]))
            old = self.aread(State(), pre, l[1], o, path, et)
            if not isinstance(old, T):
                return None
            val = subst(l[2], {own: old})
            if depends(val, allphis):
                return None
            layers.append(("map", lv, n, s, off, val, ONE, s == 1 and off is ZERO and self.covers(n, o)))
        if not self.disjoint_maps(layers, n):
            return None
        return Arr(pre.base, pre.layers + tuple(layers))

    def guarded_map(self, v, ph, lv, n, allphis, pre, o):
        c, a, b = v.base[1:]
        if a == ph:
            c, a, b = notb(c), b, a
        if b != ph or a.base != ph.base or depends(c, allphis):
            return None
        layers = []
        for l in a.layers:
            if l[0] != "st":
                return None
            d, k = lin(l[1])
            s = d.get(lv, Fraction(0))
            off = unlin({x: y for x, y in d.items() if x is not lv}, k)
            if s == 0 or isinstance(l[2], T) and depends(l[2], allphis):
                return None
            layers.append(("map", lv, n, s, off, l[2], c, False))
        if not self.disjoint_maps(layers, n):
            return None
        return Arr(pre.base, pre.layers + tuple(layers))

    def nested_map(self, v, ph, lv, n, allphis, pre, o):
        """for i: for j<m: A[i*m+j]=e  ->  map over i*m+j with i=idx/m, j=idx%m."""
        if len(v.layers) != 1 or v.layers[0][0] != "map":
            return None
        _, jv, m, s, off, val, g, whole = v.layers[0]
        d, c = lin(off)
        if s != 1 or not isinstance(val, T) or depends(val, allphis) or g is not ONE:
            return None
        # off = i*m (+const)
        want = norm(mul(lv, m))
        if norm(off) is not want:
            return None
        x = fresh("i")
        body = subst(val, {lv: mk("idiv", x, m), jv: mk("mod", x, m)})
        tot = norm(mul(n, m))
        return Arr(pre.base, pre.layers + (("map", x, tot, Fraction(1), ZERO, body, ONE, self.covers(tot, o)),))

    def arr_dep(self, v, allphis):
        res = {"any": False, "phi_in_values": False}
        seen = []
        def walk(a):
            if a.base[0] == "phi":
                res["any"] = res["any"] or mk("carried", a.base[1]) in allphis
            elif a.base[0] == "sel":
                if depends(a.base[1], allphis):
                    res["any"] = res["phi_in_values"] = True
                walk(a.base[2]); walk(a.base[3])
            elif a.base[0] == "last":
                walk(a.base[3]); walk(a.base[4])
            elif a.base[0] == "lam" and isinstance(a.base[2], T) and depends(a.base[2], allphis):
                res["any"] = res["phi_in_values"] = True
            whole = False
            for l in a.layers:
                vals = [l[2], l[1]] if l[0] == "st" else [l[5], l[4]]
                for x in vals:
                    if isinstance(x, T) and depends(x, allphis):
                        res["any"] = res["phi_in_values"] = True
        # a whole-array map on top kills everything below
        for i in range(len(v.layers) - 1, -1, -1):
            if v.layers[i][0] == "map" and v.layers[i][7]:
                v = Arr(("default",), v.layers[i:])
                break
        walk(v)
        return res

    # ------------------------------------------------------------------ OpenMP
    def omp(self, items, i, st):
        p = items[i]
        s = (p.string or "").strip()
        if not s.startswith("omp"):
            return i + 1, st
        d = s[3:].strip()
        m = re.match(r"(parallel\s+for|parallel|for\s+simd|for|critical|atomic(\s+\w+)?|barrier|flush|single|master|masked|threadprivate|simd|ordered)\b(.*)", d, re.S)
        if not m:
            raise AnalysisError("unsupported OpenMP directive '%s' at %s" % (d, p.coord))
        k = re.sub(r"\s+", " ", m.group(1))
        rest = m.group(3)
        clauses = self.clauses(rest)
        if k in ("barrier", "flush"):
            if k == "barrier":
                self.phase += 1
            return i + 1, st
        if k == "threadprivate":
            for n in re.match(r"\s*\((.*)\)", rest).group(1).split(","):
                l = self.lookup(n.strip())
                if l is None:
                    raise AnalysisError("threadprivate %s" % n)
                l.obj.tp = True
            return i + 1, st
        # find the statement
        j = i + 1
        while j < len(items) and isinstance(items[j], c_ast.Pragma) and not items[j].string.strip().startswith("omp"):
            j += 1
        if j >= len(items):
            raise AnalysisError("OpenMP directive without statement at %s" % p.coord)
        stmt = items[j]
        if k == "simd":
            return j, st
        if k == "parallel":
            return j + 1, self.parallel(stmt, clauses, st, p, False)
        if k == "parallel for":
            return j + 1, self.parallel(stmt, clauses, st, p, True)
        if k in ("for", "for simd"):
            r = self.omp_for(stmt, clauses, st, p)
            return j + 1, r
        if k.startswith("atomic") or k == "critical":
            old = self.crit
            m2 = re.match(r"\s*\((\w+)\)", rest or "")
            self.crit = ("atomic", "") if k.startswith("atomic") else ("critical", m2.group(1) if m2 else "")
            r = self.ex(stmt, st)
            self.crit = old
            return j + 1, r
        if k in ("single", "master", "masked"):
            old = self.crit
            self.crit = (k if k != "masked" else "master", p.coord.line if p.coord else 0)
            c = mk("cmp", "==", mk("tid", "single"), ZERO)
            if self.region is None:
                r = self.ex(stmt, st)
            else:
                s1, s2 = st.copy(), st.copy()
                s1.assume(c, True)
                s2.assume(c, False)
                r = self.ex(stmt, s1)
                r = self.merge([r, s2], st)
            self.crit = old
            if k == "single" and "nowait" not in clauses:
                self.phase += 1
            return j + 1, r
        raise AnalysisError("OpenMP directive '%s'" % d)

    def clauses(self, s):
        out = {}
        for m in re.finditer(r"(\w+)\s*(\(((?:[^()]|\([^()]*\))*)\))?", s):
            out.setdefault(m.group(1), []).append(m.group(3))
        return out

    def clause_vars(self, cl, name):
        r = []
        for x in cl.get(name, []):
            r += [v.strip() for v in (x or "").split(",") if v.strip()]
        return r

    def parallel(self, stmt, cl, st, p, isfor):
        if self.region is not None:
            raise AnalysisError("nested parallel region at %s" % p.coord)
        f = self.frames[-1]
        self.nregions += 1
        self.region = "%s#%d" % (os.path.basename(f.func.file), self.nregions)
        self.regions.append((self.region, f.func.name, p.coord.line if p.coord else None))
        self.phase = 0
        saved = st.copy()
        f.scopes.append({})
        # threadprivate: a generic thread starts with whatever an earlier region left there
        copyin = self.clause_vars(cl, "copyin")
        tps = [o for o in self.objs.values() if o.tp]
        oldinit = {}
        for u, g in self.all_gvars():
            if g.threadprivate and self.gobj(g) not in tps:
                tps.append(self.gobj(g))
        for o in tps:
            nm = o.name.split(":")[-1].split(".")[-1]
            if nm in copyin:
                continue
            for k in [k for k in st.mem if k[0] == o.id]:
                del st.mem[k]
            oldinit[o] = o.init
            o.init = "stale"
        for n in self.clause_vars(cl, "private") + self.clause_vars(cl, "firstprivate") + self.clause_vars(cl, "lastprivate"):
            l = self.lookup(n)
            if l is None:
                g = self.P.find_gvar(f.unit, n)
                if g is None:
                    raise AnalysisError("private(%s)" % n)
                l = Loc(self.gobj(g), (), None, g.ty)
            o = self.newobj(kind="local", name="private:" + n, ty=l.ty)
            if l.ty.kind == "array":
                o.size = num(l.ty.n)
            nl = Loc(o, (), None, l.ty)
            f.scopes[-1][n] = nl
            if n in self.clause_vars(cl, "firstprivate"):
                for k in [k for k in st.mem if k[0] == l.obj.id]:
                    st.mem[(o.id, k[1])] = st.mem[k]
        reds = []
        for x in cl.get("reduction", []):
            op, vs = x.split(":")
            for n in vs.split(","):
                n = n.strip()
                l = self.lookup(n)
                if l is None:
                    raise AnalysisError("reduction(%s)" % n)
                o = self.newobj(kind="local", name="reduction:" + n, ty=l.ty)
                nl = Loc(o, (), None, l.ty)
                f.scopes[-1][n] = nl
                if l.ty.kind != "array":
                    self.store(st, nl, ONE if op.strip() == "*" else ZERO, True)
                reds.append((op.strip(), l, nl))
                self.event("reduction", st, l.obj, (), None, (op.strip(), "float" if l.ty.kind == "float" or (l.ty.kind == "array" and l.ty.to.kind == "float") else "int"))
        st0 = st.copy()
        if isfor:
            r = self.omp_for(stmt, cl, st, p, combined=True)
        else:
            r = self.ex(stmt, st)
        if r is None:
            raise AnalysisError("parallel region does not complete at %s" % p.coord)
        # a heap object allocated by a thread and still live at region end is leaked per thread
        for h, hs in r.heap.items():
            o = self.objs[h]
            if o.kind == "heap" and o.region == self.region and hs != "freed":
                self.event("leak-region", r, o, (), None, hs)
        for op, l, nl in reds:
            if l.ty.kind != "array":
                v = self.load(r, nl, True)
                self.store(r, l, mk("redux", op, self.load(r, l, True), v) , True)
        f.scopes.pop()
        for o in tps:
            if o in oldinit:
                for k in [k for k in r.mem if k[0] == o.id]:
                    del r.mem[k]
                o.init = "stale"
        self.region = None
        return r

    def omp_for(self, stmt, cl, st, p, combined=False):
        if not isinstance(stmt, c_ast.For):
            raise AnalysisError("omp for without for loop at %s" % p.coord)
        f = self.frames[-1]
        if self.region is None:
            return self.ex(stmt, st)
        f.scopes.append({})
        priv = [] if combined else self.clause_vars(cl, "private") + self.clause_vars(cl, "firstprivate") + self.clause_vars(cl, "lastprivate")
        # the loop variable is private by rule
        if isinstance(stmt.init, c_ast.Assignment) and isinstance(stmt.init.lvalue, c_ast.ID):
            n = stmt.init.lvalue.name
            l = self.lookup(n)
            if l is not None and l.obj.region != self.region or l is None:
                priv.append(n)
        for n in priv:
            l = self.lookup(n)
            if l is None:
                g = self.P.find_gvar(f.unit, n)
                l = Loc(self.gobj(g), (), None, g.ty)
            o = self.newobj(kind="local", name="private:" + n, ty=l.ty)
            if l.ty.kind == "array":
                o.size = num(l.ty.n)
            f.scopes[-1][n] = Loc(o, (), None, l.ty)
            if n in self.clause_vars(cl, "firstprivate"):
                for k in [k for k in st.mem if k[0] == l.obj.id]:
                    st.mem[(o.id, k[1])] = st.mem[k]
        if not combined:
            for x in cl.get("reduction", []):
                op, vs = x.split(":")
                for n in vs.split(","):
                    l = self.lookup(n.strip())
                    o = self.newobj(kind="local", name="reduction:" + n.strip(), ty=l.ty)
                    f.scopes[-1][n.strip()] = Loc(o, (), None, l.ty)
                    if l.ty.kind != "array":
                        self.store(st, Loc(o, (), None, l.ty), ONE if op.strip() == "*" else ZERO, True)
                    self.event("reduction", st, l.obj, (), None, (op.strip(), "float" if l.ty.kind == "float" else "int"))
        f.scopes.append({})
        if stmt.init is not None:
            st = self.ex(stmt.init, st)
        self.in_ws = True
        r = self.loop(stmt.cond, stmt.next, stmt.stmt, st, True, stmt)
        f.scopes.pop()
        f.scopes.pop()
        if "nowait" not in cl:
            self.phase += 1
        return r

    # ------------------------------------------------------------------ calls
    def ev_FuncCall(self, e, st):
        args = e.args.exprs if e.args is not None else []
        fexp = e.name
        fv = None
        u = self.frames[-1].unit
        if isinstance(fexp, c_ast.ID) and self.lookup(fexp.name) is None:
            fd = self.P.find_func(u, fexp.name)
            fv = FnV(fd if fd is not None else fexp.name, None)
            if fd is None and self.P.proto(u, fexp.name) is None and self.P.find_gvar(u, fexp.name) is not None:
                fv = self.rv(fexp, st)
        else:
            while isinstance(fexp, c_ast.UnaryOp) and fexp.op == "*":
                fexp = fexp.expr
            fv = self.simp(st, self.rv(fexp, st))
        vals = []
        for a in args:
            vals.append(self.ev(a, st))
        if e.coord is not None:
            self.line = e.coord.line
        return self.call(fv, vals, st, e)

    def call(self, fv, vals, st, node=None):
        if isinstance(fv, SelV):
            s1, s2 = st.copy(), st.copy()
            s1.assume(fv.c, True); s2.assume(fv.c, False)
            a = self.call(fv.a, vals, s1, node)
            b = self.call(fv.b, vals, s2, node)
            m = self.merge([s1, s2], st)
            st.mem, st.heap = m.mem, m.heap
            return vsel(fv.c, a[0], b[0]), a[1]
        if not isinstance(fv, FnV):
            raise AnalysisError("call of %r at %s" % (fv, self.where()))
        name = fv.name if isinstance(fv.name, str) else fv.name.name
        self.ncalls += 1
        if self.intrinsics:
            h = getattr(self, "in_" + name, None)
            if h is not None:
                r = h(vals, st, fv)
                if r is not None:
                    return r
        if isinstance(fv.name, str):
            h = getattr(self, "lib_" + name, None)
            if h is None:
                raise AnalysisError("call of unknown function %s at %s" % (name, self.where()))
            return h([v for v, t in vals], st)
        return self.call_func(fv.name, vals, st)

    def call_func(self, fd, vals, st):
        depth = sum(1 for s in self.stack if s[0] is fd)
        if depth >= (64 if TM.ORACLE is not None else 1):
            # a recursion over scalars whose integers are literals that never repeat is unrolled
            lits = [v for v, t in vals if t.kind == "int"]
            if depth >= 32 or TM.ORACLE is not None or not lits or not all(isinstance(v, T) and v.op == "num" for v in lits) or any(t.kind not in ("int", "float") for v, t in vals) \
               or any(f.func is fd and f.lits == lits for f in self.frames):
                return self.recursion(fd, vals, st)
        if len(vals) != len(fd.ty.params or []):
            raise AnalysisError("call of %s with %d arguments at %s" % (fd.name, len(vals), self.where()))
        self.funcs_seen.add(fd)
        vals = [(self.conv2(v, t, pt), pt) for (v, t), pt in zip(vals, fd.ty.params)]
        if self.use_summaries and fd.ty.ret.kind == "float" and fd.ty.params and all(t.kind in ("float", "int") for t in fd.ty.params) and all(isinstance(v, T) for v, t in vals):
            r = self.summary(fd, vals, st)
            if r is not None:
                return r, fd.ty.ret
        return self.inline(fd, vals, st), fd.ty.ret

    def inline(self, fd, vals, st):
        unit = self.P.units[fd.file]
        f = Frame(fd, unit)
        f.lits = [v for v, t in vals if t.kind == "int"]
        line = self.line
        self.stack.append((fd, self.frames[-1].func.name if self.frames and self.frames[-1].func else None, line))
        self.frames.append(f)
        try:
            for n, (v, t) in zip(fd.params, vals):
                o = self.newobj(kind="local", name=n or "_", ty=t)
                f.objs.append(o)
                f.scopes[-1][n] = Loc(o, (), None, t)
                self.store(st, Loc(o, (), None, t), v, True)
            npc = len(st.pc)
            r = self.ex(fd.node.body, st)
            rets = list(f.returns)
            if r is not None:
                rets.append((r, None))
            if not rets:
                raise AnalysisError("function %s never returns" % fd.name)
            if len(rets) == 1:
                out, v = rets[0]
            else:
                v = rets[-1][1]
                # conditions relative to the common prefix
                states = [s for s, _ in rets]
                pre = list(states[0].pc)
                for s in states[1:]:
                    k = 0
                    while k < len(pre) and k < len(s.pc) and pre[k] is s.pc[k]:
                        k += 1
                    del pre[k:]
                for s, x in rets[:-1][::-1]:
                    c = ONE
                    for q in s.pc[len(pre):]:
                        c = andb(c, q)
                    if x is None and v is None:
                        continue
                    if x is None:
                        x = mk("undef", "noreturn")
                    if v is None:
                        v = mk("undef", "noreturn")
                    v = vsel(c, x, v)
                out = self.merge(states, st)
        finally:
            self.frames.pop()
            self.stack.pop()
        self.line = line
        # locals die
        dead = set(o.id for o in f.objs if o.kind == "local")
        mem = out.mem
        if dead:
            mem = {k: x for k, x in out.mem.items() if k[0] not in dead}
        st.mem, st.heap, st.pc, st.facts = mem, out.heap, out.pc, out.facts
        return v if v is not None else ZERO

    def call_entry(self, fd, vals, st):
        """Entry point of a scenario."""
        vals = [(self.conv2(v, t, pt), pt) for (v, t), pt in zip(vals, fd.ty.params or [])]
        self.funcs_seen.add(fd)
        u = self.use_summaries
        self.use_summaries = True
        return self.inline(fd, vals, st)

    def summary(self, fd, vals, st):
        key = (self.P.defines, self.P.repo, fd.file, fd.name, tuple((v if (t.kind == "int" and v.op == "num") else None) for v, t in vals))
        r = self.sums.get(key)
        if r is None:
            formals = []
            fv = []
            for i, (v, t) in enumerate(vals):
                if t.kind == "int" and v.op == "num":
                    fv.append((v, t))
                else:
                    x = mk("sym", "formal", fd.name, i)
                    formals.append(x)
                    fv.append((x, t))
            save = (self.region, self.crit, self.loops, self.wsl, self.written, self.quiet_log, self.line)
            self.pure_mode += 1
            self.loops, self.wsl, self.written, self.quiet_log = [], [], None, False
            out, self.pure_out = self.pure_out, []
            try:
                s0 = State()
                body = self.inline(fd, fv, s0)
                r = (tuple(formals), body, TM.size(body), self.pure_out) if isinstance(body, T) and not any(h != "freed" for h in s0.heap.values()) else False
            except NotPure:
                r = False
            finally:
                self.pure_out = out
                self.pure_mode -= 1
                self.region, self.crit, self.loops, self.wsl, self.written, self.quiet_log, self.line = save
            self.sums[key] = r
            if r:
                SUMMARIES[self.sumname(key)] = (r[0], r[1])
        if r is False:
            return None
        formals, body, size, prints = r
        for kind, detail, where in prints:
            self.event(kind, st, None, (), None, detail if kind != "printarg" else None)
        actuals = [v for v, t in vals if not (t.kind == "int" and v.op == "num")]
        if size <= 250:
            return subst(body, dict(zip(formals, actuals)))
        return mk("call", self.sumname(key), *actuals)

    def sumname(self, key):
        return "%s|%s|%s|%s" % (key[3], ",".join(str(k.args[0]) if k is not None else "_" for k in key[4]), "+".join(key[0]), key[1])

    def recursion(self, fd, vals, st):
        """A recursive call: opaque pure value of its arguments."""
        args = []
        for v, t in vals:
            v = self.conv2(v, t, t)
            if isinstance(v, T):
                args.append(v)
            elif isinstance(v, Ptr):
                args.append(mk("sym", "ptr", v.obj.name, ".".join(v.path)))
            else:
                raise AnalysisError("recursive call of %s" % fd.name)
        if fd.ty.ret.kind not in ("int", "float"):
            raise AnalysisError("recursive call of %s" % fd.name)
        return mk("fn", "rec:" + fd.name, *args), fd.ty.ret

    # ------------------------------------------------------------------ libc
    def _bin(self, name):
        pass

    def lib_printf(self, a, st):
        self.event("print", st, None, (), None, ("stdout", a[0].s if a and isinstance(a[0], Str) else None))
        for x in a[1:]:
            if isinstance(x, T):
                self.event("printarg", st, None, (), None, x)
        return ZERO, INT
    def lib_puts(self, a, st):
        return self.lib_printf(a, st)
    def lib_putchar(self, a, st):
        return self.lib_printf([Str("%c")], st)
    def lib_perror(self, a, st):
        self.event("print", st, None, (), None, ("stderr", None))
        return ZERO, INT
    def lib_fprintf(self, a, st):
        tgt = a[0].s if isinstance(a[0], Str) else "file"
        self.event("print", st, None, (), None, (tgt.strip("<>") if tgt != "file" else "file", a[1].s if len(a) > 1 and isinstance(a[1], Str) else None))
        return ZERO, INT
    def lib_fputs(self, a, st):
        return self.lib_fprintf([a[1], a[0]], st)
    def lib_fputc(self, a, st):
        return self.lib_fprintf([a[1], a[0]], st)
    def lib_fwrite(self, a, st):
        return self.lib_fprintf([a[3]], st)
    def lib_vprintf(self, a, st):
        return self.lib_printf(a[:1], st)
    def lib_vfprintf(self, a, st):
        return self.lib_fprintf(a[:2], st)
    def lib_write(self, a, st):
        n = a[0].args[0] if isinstance(a[0], T) and a[0].op == "num" else None
        self.event("print", st, None, (), None, ({1: "stdout", 2: "stderr"}.get(n, "file"), None))
        return mk("sym", "io"), LONG
    def lib_dprintf(self, a, st):
        self.lib_write(a, st)
        return ZERO, INT
    def lib_open(self, a, st):
        self.event("fopen", st, None, (), None, (a[0].s if isinstance(a[0], Str) else None, None))
        return mk("sym", "io"), INT
    def lib_creat(self, a, st):
        return self.lib_open(a, st)
    def lib_remove(self, a, st):
        return self.lib_open(a, st)
    def lib_unlink(self, a, st):
        return self.lib_open(a, st)
    def lib_system(self, a, st):
        self.event("print", st, None, (), None, ("command", None))
        return mk("sym", "io"), INT
    def lib_sprintf(self, a, st):
        return ZERO, INT
    def lib_snprintf(self, a, st):
        return ZERO, INT
    def lib_fflush(self, a, st):
        return ZERO, INT
    def lib_fopen(self, a, st):
        self.event("fopen", st, None, (), None, (a[0].s if isinstance(a[0], Str) else None, a[1].s if isinstance(a[1], Str) else None))
        o = self.newobj(kind="file", name="FILE", ty=None)
        return SelV(mk("cmp", "<", ZERO, mk("sym", "fopen_ok")), Ptr(o, (), None, VOID), ZERO), ptr(VOID)
    def lib_fclose(self, a, st):
        self.event("fclose", st)
        return ZERO, INT
    def lib_exit(self, a, st):
        self.event("exit", st)
        raise_exit = True
        return ZERO, VOID
    def lib_abort(self, a, st):
        return self.lib_exit(a, st)
    def lib_assert(self, a, st):
        return ZERO, VOID
    def lib_malloc(self, a, st):
        return self.alloc(a[0], False, st)
    def lib_calloc(self, a, st):
        return self.alloc(norm(mul(a[0], a[1])), True, st)
    def lib_realloc(self, a, st):
        raise AnalysisError("realloc at %s" % self.where())

    def alloc(self, size, zero, st):
        if self.pure_mode:
            self.pure_alloc = True
        w = self.where()
        self.nalloc = getattr(self, "nalloc", 0) + 1
        o = self.newobj(kind="heap", name="heap@%s" % w, ty=None, init="zero" if zero else "undef", where=w)
        st.heap[o.id] = "live"
        b = Bytes(size, zero, w)
        b.obj = o
        if not self.pure_mode:
            self.event("alloc", st, o, (), None, size)
        return b, ptr(VOID)

    def lib_free(self, a, st):
        p = self.simp(st, a[0])
        self.free(p, st)
        return ZERO, VOID

    def free(self, p, st):
        if isinstance(p, SelV):
            for q, c in ((p.a, p.c), (p.b, notb(p.c))):
                s2 = st.copy()
                s2.assume(c)
                self.free(q, s2)
                for h, hs in s2.heap.items():
                    if hs != st.heap.get(h):
                        st.heap[h] = self.hmerge(c, hs, st.heap.get(h))
            return
        if isinstance(p, T):
            if p is ZERO:
                return
            self.event("badfree", st, None, (), None, "free of an uninitialised pointer")
            return
        if isinstance(p, Bytes):
            st.heap[p.obj.id] = "freed"
            return
        if not isinstance(p, Ptr):
            raise AnalysisError("free of %r" % (p,))
        o = p.obj
        if o.kind != "heap":
            self.event("badfree", st, o, p.path, p.idx, "free of %s memory %s" % (o.kind, o.name))
            return
        if p.idx is not None and p.idx is not ZERO:
            self.event("badfree", st, o, p.path, p.idx, "free of an interior pointer")
            return
        h = self.hstate(st, st.heap.get(o.id))
        if h == "freed":
            self.event("doublefree", st, o)
        elif isinstance(h, tuple):
            self.event("doublefree", st, o, (), None, "on some path")
        st.heap[o.id] = "freed"
        if not self.pure_mode:
            self.event("free", st, o)

    def hstate(self, st, h):
        while isinstance(h, tuple):
            k = st.facts.get(h[1])
            if k is None and h[1].op == "not":
                k = st.facts.get(h[1].args[0])
                k = None if k is None else not k
            if k is None:
                return h
            h = h[2] if k else h[3]
        return h

    def hleaves(self, h):
        if isinstance(h, tuple):
            return self.hleaves(h[2]) | self.hleaves(h[3])
        return {h}

    def strv(self, v):
        return v
    def lib_strcmp(self, a, st):
        x, y = self.simp(st, a[0]), self.simp(st, a[1])
        if isinstance(x, Str) and isinstance(y, Str):
            return num((x.s > y.s) - (x.s < y.s)), INT
        if isinstance(x, SelV):
            return sel(x.c, self.lib_strcmp([x.a, y], st)[0], self.lib_strcmp([x.b, y], st)[0]), INT
        def t(v):
            return mk("sym", "str", v.s) if isinstance(v, Str) else mk("sym", "string", v.obj.name if isinstance(v, Ptr) else str(v))
        return mk("fn", "strcmp", t(x), t(y)), INT
    def lib_strncmp(self, a, st):
        if isinstance(a[0], Str) and isinstance(a[1], Str) and a[2].op == "num":
            n = int(a[2].args[0])
            x, y = a[0].s[:n], a[1].s[:n]
            return num((x > y) - (x < y)), INT
        return self.lib_strcmp(a[:2], st)
    def lib_strlen(self, a, st):
        if isinstance(a[0], Str):
            return num(len(a[0].s)), SIZE
        return mk("sym", "strlen"), SIZE

    def lib_memcpy(self, a, st):
        d, s, nb = a[0], a[1], a[2]
        if not (isinstance(d, Ptr) and isinstance(s, Ptr)):
            raise AnalysisError("memcpy at %s" % self.where())
        self.copy_cells(d, s, nb, st)
        return d, ptr(VOID)
    def lib_memmove(self, a, st):
        return self.lib_memcpy(a, st)

    def copy_cells(self, d, s, nb, st):
        ety = s.ety if s.ety.kind != "void" else d.ety
        while ety.kind == "array":
            ety = ety.to
        n = norm(idiv(nb, num(ety.size)))
        if ety.kind == "struct" and n is ONE:
            self.store(st, Loc(d.obj, d.path, d.idx, ety), self.load(st, Loc(s.obj, s.path, s.idx, ety)))
            return
        if n.op == "num" and n.args[0] <= 64:
            for i in range(int(n.args[0])):
                v = self.load(st, self.deref(self.padd(Ptr(s.obj, s.path, s.idx if s.idx is not None else (None if i == 0 else ZERO), ety), num(i), st), st))
                self.store(st, self.deref(self.padd(Ptr(d.obj, d.path, d.idx if d.idx is not None else (None if i == 0 else ZERO), ety), num(i), st), st), v)
            return
        lv = fresh("i")
        self.loops.append((lv, n))
        v = self.load(st, Loc(s.obj, s.path, norm(add(s.idx, lv)), ety))
        self.access("W", st, Loc(d.obj, d.path, norm(add(d.idx, lv)), ety))
        self.loops.pop()
        self.map_write(st, d, n, lv, v)

    def map_write(self, st, d, n, lv, v):
        key = (d.obj.id, d.path)
        self.note_write(d.obj, d.path, None)
        old = st.mem.get(key) or Arr(("default",))
        off = d.idx if d.idx is not None else ZERO
        whole = off is ZERO and self.covers(n, d.obj)
        L = ("map", lv, n, Fraction(1), off, v, ONE, whole)
        st.mem[key] = Arr(("default",), (L,)) if whole else Arr(old.base, old.layers + (L,))

    def lib_memset(self, a, st):
        d, c, nb = a
        if not isinstance(d, Ptr) or c is not ZERO:
            raise AnalysisError("memset at %s" % self.where())
        ety = d.ety
        if ety.kind == "struct":
            self.zero_fill(st, Loc(d.obj, d.path, d.idx, ety))
            return d, ptr(VOID)
        if ety.kind == "array":
            ety = ety.to
        n = norm(idiv(nb, num(ety.size or 1)))
        if n.op == "num" and n.args[0] <= 64:
            for i in range(int(n.args[0])):
                self.store(st, Loc(d.obj, d.path, norm(add(d.idx if d.idx is not None else ZERO, num(i))), ety), ZERO)
        else:
            lv = fresh("i")
            self.loops.append((lv, n))
            self.access("W", st, Loc(d.obj, d.path, norm(add(d.idx, lv)), ety))
            self.loops.pop()
            self.map_write(st, d, n, lv, ZERO)
        return d, ptr(VOID)

    def lib_time(self, a, st):
        return mk("sym", "clock"), LONG
    def lib_clock(self, a, st):
        return mk("sym", "clock"), LONG
    def lib_difftime(self, a, st):
        return mk("sym", "clock"), DOUBLE
    def lib_getenv(self, a, st):
        return mk("sym", "env"), ptr(CHAR)
    def lib_omp_get_wtime(self, a, st):
        return mk("sym", "clock"), DOUBLE
    def lib_omp_set_num_threads(self, a, st):
        self.event("set_threads", st)
        return ZERO, VOID
    def lib_omp_get_thread_num(self, a, st):
        return mk("tid", "num"), INT
    def lib_omp_get_num_threads(self, a, st):
        return mk("tid", "nthreads"), INT
    lib_omp_get_max_threads = lib_omp_get_num_threads
    lib_omp_get_num_procs = lib_omp_get_num_threads
    lib_omp_in_parallel = lib_omp_get_num_threads
    def lib_cubacores(self, a, st):
        return ZERO, VOID
    def lib_cubaaccel(self, a, st):
        return ZERO, VOID

    def _vegas(self, name, a, st):
        """Monte-Carlo integrator: integral[c] := Integral over the unit cube of component c of the callback."""
        cuba15 = "_CUBA15" in self.P.defines
        ndim, ncomp, cb = a[0], a[1], a[2]
        if ndim.op != "num" or ncomp.op != "num":
            raise AnalysisError("symbolic dimension in %s call" % name)
        integral, error, prob = a[-3], a[-2], a[-1]
        flags = a[5] if cuba15 else a[7]
        if not isinstance(flags, T) or flags.op != "num" or int(flags.args[0]) & 3:
            self.event("print", st, None, (), None, ("stdout", "messages of %s" % name))
        if not cuba15:
            sf = [x for x in a[8:] if isinstance(x, Str)]
            for x in sf:
                self.event("fopen", st, None, (), None, (x.s, "w"))
        nd, nc = int(ndim.args[0]), int(ncomp.args[0])
        xs = [fresh("x") for _ in range(nd)]
        xo = self.newobj(kind="local", name="xx", ty=cfront.Ty("array", to=DOUBLE, n=nd), init="undef")
        xo.size = num(nd)
        ff = self.newobj(kind="local", name="ff", ty=cfront.Ty("array", to=DOUBLE, n=nc), init="undef")
        ff.size = num(nc)
        no = self.newobj(kind="local", name="ndim", ty=INT)
        co = self.newobj(kind="local", name="ncomp", ty=INT)
        s0 = st.copy()
        for i, x in enumerate(xs):
            self.store(s0, Loc(xo, (), num(i), DOUBLE), x, True)
        self.store(s0, Loc(no, (), None, INT), ndim, True)
        self.store(s0, Loc(co, (), None, INT), ncomp, True)
        args = [(Ptr(no, (), None, INT), ptr(INT)), (Ptr(xo, (), ZERO, DOUBLE), ptr(DOUBLE)), (Ptr(co, (), None, INT), ptr(INT)), (Ptr(ff, (), ZERO, DOUBLE), ptr(DOUBLE))]
        if not cuba15:
            args.append((a[3], ptr(VOID)))
        fd = cb.name if isinstance(cb, FnV) else None
        if fd is None or isinstance(fd, str):
            raise AnalysisError("integrand of %s" % name)
        before = dict(s0.mem)
        self.written = (self.written or []) + [{}]
        self.loops.append((fresh("mc"), None))
        nid = self.nid
        self.call_func(fd, args, s0)
        self.loops.pop()
        w = self.written.pop()
        if not self.written:
            self.written = None
        for key, idxs in w.items():
            o = self.objs[key[0]]
            if o is ff or o.id > nid and o.kind in ("local", "heap"):
                continue
            self.event("integrand-effect", st, o, key[1])
        for h, hs in s0.heap.items():
            if h not in st.heap and hs != "freed":
                self.event("leak-iter", st, self.objs[h], (), None, "integrand")
        bodies = [self.load(s0, Loc(ff, (), num(i), DOUBLE), True) for i in range(nc)]
        for i in range(nc):
            v = mk("integ", len(xs), *(tuple(xs) + (bodies[i],)))
            self.store(st, Loc(integral.obj, integral.path, norm(add(integral.idx or ZERO, num(i))) if integral.idx is not None else None, DOUBLE), v)
        for pnt in (error, prob):
            for i in range(nc):
                self.store(st, Loc(pnt.obj, pnt.path, norm(add(pnt.idx, num(i))) if pnt.idx is not None else None, DOUBLE), mk("sym", "mcerror"))
        for pnt in a[-6:-3]:
            if isinstance(pnt, Ptr) and pnt.ety.kind == "int":
                self.store(st, Loc(pnt.obj, pnt.path, pnt.idx, INT), mk("sym", "mcstat"))
        self.integrals.append((name, self.where(), nd, nc, fd.name, xs, bodies))
        return ZERO, VOID

    def lib_Suave(self, a, st):
        return self._vegas("Suave", a, st)
    def lib_Vegas(self, a, st):
        return self._vegas("Vegas", a, st)

    # ------------------------------------------------------------------ math
    def _m1(self, name, a):
        return fn(name, a[0]), DOUBLE

    def mathfn(self, name, a, st):
        return fn(name, *a), DOUBLE

    # ------------------------------------------------------------------ library intrinsics
    def in_find_pk_lin(self, vals, st, fv):
        """Table lookup of the linear spectrum (see in_find_pk)."""
        g = self.P.gvars.get("pk_lin")
        if g is None:
            return None
        tab = self.load(st, Loc(self.gobj(g), (), None, g.ty))
        return self.do_lookup(tab, vals, st)

    def in_find_pk(self, vals, st, fv):
        tab = vals[0][0]
        if isinstance(tab, Ptr) and tab.ety.kind == "struct":
            tab = self.load(st, self.deref(tab, st))
        return self.do_lookup(tab, vals[1:], st)

    def do_lookup(self, tab, vals, st):
        if len(vals) != 4 or not isinstance(tab, StructV) or not isinstance(vals[0][0], Ptr) or not isinstance(vals[1][0], Ptr):
            raise AnalysisError("table lookup arguments at %s" % self.where())
        if self.pure_mode:
            raise NotPure()
        (kp, _), (pp, _), (n, _), (interp, _) = vals
        nk, tk, tp = tab.leaves[("nk",)], tab.leaves[("k",)], tab.leaves[("pk",)]
        self.event("lookup", st, tk.obj if isinstance(tk, Ptr) else None, (), None, self.tabname(tk, tp))
        def f(k):
            return self.lookup_term(st, nk, tk, tp, k, interp)
        self.vecop(f, kp, pp, n, st)
        return ZERO, VOID

    def tabname(self, tk, tp):
        return (tk.obj.name if isinstance(tk, Ptr) else repr(tk), tp.obj.name if isinstance(tp, Ptr) else repr(tp))

    def vecop(self, f, kp, pp, n, st):
        if n is ONE or n.op == "num" and n.args[0] == 1:
            k = self.load(st, Loc(kp.obj, kp.path, kp.idx, kp.ety))
            self.store(st, Loc(pp.obj, pp.path, pp.idx, pp.ety), f(k))
            return
        if n.op == "num" and n.args[0] <= 32:
            for i in range(int(n.args[0])):
                k = self.load(st, self.deref(self.padd(kp, num(i), st), st))
                self.store(st, self.deref(self.padd(pp, num(i), st), st), f(k))
            return
        lv = fresh("i")
        self.loops.append((lv, n))
        k = self.load(st, Loc(kp.obj, kp.path, norm(add(kp.idx or ZERO, lv)), kp.ety))
        self.access("W", st, Loc(pp.obj, pp.path, norm(add(pp.idx or ZERO, lv)), pp.ety))
        self.loops.pop()
        v = f(k)
        self.map_write(st, pp, n, lv, v)

    def table_elem(self, st, p, i, t):
        if isinstance(p, SelV):
            with self.under(p.c):
                a = self.table_elem(st, p.a, i, t)
            with self.under(notb(p.c)):
                b = self.table_elem(st, p.b, i, t)
            return sel(p.c, a, b)
        if not isinstance(p, Ptr):
            return mk("undef", "nulltable")
        return self.load(st, Loc(p.obj, p.path, norm(add(p.idx or ZERO, i)), DOUBLE))

    def lookup_term(self, st, nk, tk, tp, k, interp):
        i = mk("lv", "tab")
        self.loops.append((i, nk))
        a = self.table_elem(st, tk, i, None)
        b = self.table_elem(st, tp, i, None)
        self.loops.pop()
        return mk("lookup", i, nk, a, b, k, interp)

    def in_calc_running_sigmad2(self, vals, st, fv):
        if self.pure_mode:
            raise NotPure()
        g = self.P.gvars.get("pk_lin")
        if g is None or len(vals) != 4:
            return None
        tab = self.load(st, Loc(self.gobj(g), (), None, g.ty))
        (kp, _), (pp, _), (n, _), (cut, _) = vals
        nk, tk, tp = tab.leaves[("nk",)], tab.leaves[("k",)], tab.leaves[("pk",)]
        self.event("lookup", st, tk.obj if isinstance(tk, Ptr) else None, (), None, self.tabname(tk, tp))
        i = mk("lv", "tab")
        def f(k):
            self.loops.append((i, nk))
            a = self.table_elem(st, tk, i, None)
            b = self.table_elem(st, tp, i, None)
            self.loops.pop()
            return mk("sigd2", i, nk, a, b, k, cut)
        self.vecop(f, kp, pp, n, st)
        return ZERO, VOID

    def in_nodes_weights_gauss_legendre(self, vals, st, fv):
        if self.pure_mode:
            raise NotPure()
        (lo, _), (hi, _), (x, _), (w, _), (n, _) = vals
        if not isinstance(x, Ptr) or not isinstance(w, Ptr):
            return None
        for p, nm in ((x, "glx"), (w, "glw")):
            lv = fresh("i")
            self.loops.append((lv, n))
            self.access("W", st, Loc(p.obj, p.path, norm(add(p.idx or ZERO, lv)), p.ety))
            self.loops.pop()
            self.map_write(st, p, n, lv, mk("fn", nm, lo, hi, n, lv))
        return ZERO, VOID

class LoopRec(object):
    """A loop with a data-dependent number of iterations, as a transfer function: cond and end (and the
    states at its breaks) over the values phis of the cells at the start of an iteration."""
    def __init__(self, node, func, lv, cond, phis, pre, end, brks, post):
        self.lv = lv
        self.node, self.func, self.cond, self.phis, self.pre, self.end, self.brks, self.post = node, func, cond, phis, dict(pre), end and dict(end), brks, dict(post)

class Guard(object):
    def __init__(self, it, c):
        self.it, self.c = it, c
    def __enter__(self):
        self.it.guards.append(self.c)
    def __exit__(self, *a):
        self.it.guards.pop()

def contradictory(facts):
    """Some fact evaluates to its opposite under the others (propositionally)."""
    def val(t):
        if t.op == "num":
            return t.args[0] != 0
        if t.op == "not":
            r = val(t.args[0])
            return None if r is None else not r
        if t.op in ("and", "or"):
            a, b = val(t.args[0]), val(t.args[1])
            stop = t.op == "or"
            if a is stop or b is stop:
                return stop
            return None if a is None or b is None else not stop
        if t.op == "sel":
            c = val(t.args[0])
            return val(t.args[1]) if c is True else val(t.args[2]) if c is False else None
        return facts.get(t)
    for t, k in facts.items():
        if t.op in ("and", "or", "not", "sel", "num"):
            r = val(t)
            if r is not None and r != k:
                return True
    return False

class SelDeref(Exception):
    def __init__(self, p):
        self.p = p

def _mk_math():
    names = {}
    for n in ("log", "exp", "sqrt", "sin", "cos", "tan", "floor", "ceil", "log10", "log1p", "expm1", "cbrt", "exp2", "log2", "acos", "asin", "atan", "cosh", "sinh", "tanh", "round", "trunc", "lgamma", "tgamma"):
        names[n] = n
    for n in ("isnan", "isinf", "isfinite"):
        names[n] = n
    names["fabs"] = "abs"
    def one(nm, fl):
        def h(self, a, st):
            return fn(nm, a[0]), (FLOAT if fl else DOUBLE)
        return h
    for n, nm in names.items():
        setattr(Interp, "lib_" + n, one(nm, False))
        setattr(Interp, "lib_" + n + "f", one(nm, True))
    def p(fl):
        def h(self, a, st):
            return powt(a[0], a[1]), (FLOAT if fl else DOUBLE)
        return h
    Interp.lib_pow, Interp.lib_powf = p(False), p(True)
    def mx(less, fl):
        def h(self, a, st):
            x, y = a
            return (sel(cmp("<", x, y), x, y) if less else sel(cmp("<", x, y), y, x)), (FLOAT if fl else DOUBLE)
        return h
    Interp.lib_fmax, Interp.lib_fmin, Interp.lib_fmaxf, Interp.lib_fminf = mx(False, False), mx(True, False), mx(False, True), mx(True, True)
    Interp.lib_hypot = lambda self, a, st: (fn("sqrt", add(mul(a[0], a[0]), mul(a[1], a[1]))), DOUBLE)
    Interp.lib_fma = lambda self, a, st: (add(mul(a[0], a[1]), a[2]), DOUBLE)
    Interp.lib_abs = lambda self, a, st: (fn("abs", a[0]), INT)
    Interp.lib_labs = Interp.lib_abs
    Interp.lib_fmod = lambda self, a, st: (mk("fn", "fmod", a[0], a[1]), DOUBLE)
    Interp.lib_atan2 = lambda self, a, st: (mk("fn", "atan2", a[0], a[1]), DOUBLE)
    Interp.lib_copysign = lambda self, a, st: (mk("fn", "copysign", a[0], a[1]), DOUBLE)
    Interp.lib_isinf = lambda self, a, st: (mk("fn", "isinf", a[0]), INT)
_mk_math()
Interp.sums = {}
