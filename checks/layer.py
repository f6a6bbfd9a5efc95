"""The Python layer and the library together: Python sessions are interpreted over the syntax tree
(engine/pyfront), and every call into the library is given the effect of the C function called, as
summarised by abstract interpretation of the C sources: which pointers it keeps, which arrays it
reads and writes through its arguments and through the pointers kept."""
import numpy as np
from checks.common import *
import pyfront as PF
from pyfront import S, SArr, symarr, sarr, lift, PyRaise

class CSummary(object):
    """Effect of one library function: binds global cell -> parameter, reads/writes: names of
    parameters ('arg', p) or cells ('cell', name); unset: pointer cells it changes otherwise."""
    def __init__(self):
        self.binds, self.reads, self.writes, self.ints = {}, set(), set(), {}

def strparams(fd):
    return [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr" and t.to.kind == "int" and t.to.size == 1]

def summary(ctx, fname, strs, cfg=()):
    key = ("csummary", fname, tuple(sorted(strs.items())), cfg)
    s = ctx.runs.get(key)
    if s is not None:
        return s
    P = ctx.program(*cfg)
    r = ctx.run([(fname, dict(strs))], cfg, verbosity="QUIET", init="sym", log_all=True)
    s = CSummary()
    def name(o):
        if o.name.startswith("arg:%s." % fname):
            return ("arg", o.name.split(".")[-1])
        return ("cell", o.name)
    for e in r.it.events[r.marks[0]:]:
        o = e.obj
        if o is None or o.kind != "extern" or o.name.startswith("str:"):
            continue
        if e.kind in ("R", "lookup"):
            s.reads.add(name(o))
        elif e.kind == "W":
            s.writes.add(name(o))
    for (oid, path), v in r.st.mem.items():
        o = r.it.objs[oid]
        if o.kind != "global":
            continue
        cell = o.name + "".join("." + p for p in path)
        vo = getattr(v, "obj", None)
        if vo is not None and vo.kind == "extern" and vo.name.startswith("arg:%s." % fname):
            s.binds[cell] = vo.name.split(".")[-1]
    ctx.runs[key] = s
    return s

class Record(object):
    """One library call of a session: reads/writes are {cell or parameter: array}."""
    def __init__(self, call, reads, writes, params):
        self.call, self.reads, self.writes, self.params = call, reads, writes, params
        self.func, self.contents, self.outs = call.func, {}, set()

class LibModel(object):
    """State of the library across a session: the arrays it holds and the verbosity."""
    def __init__(self, ctx, cfg=(), light=False):
        self.ctx, self.cfg, self.light = ctx, cfg, light
        self.P = ctx.program(*cfg)
        self.cells = {}
        self.log = []
        self.verbose = None
        self.hooks = []
        self.n = 0

    def call(self, it, c):
        fd = self.P.funcs.get(c.func)
        if fd is None:
            raise PyRaise("AttributeError", "undefined symbol: %s" % c.func)
        params = {}
        strs = {}
        for p, t, (ty, v) in zip(fd.params, fd.ty.params or [], c.args):
            params[p] = v
            if isinstance(v, bytes):
                strs[p] = v.decode("latin1")
        keep = strparams(fd)
        if self.light or c.func.startswith("set_precision") or c.func.startswith("set_running"):
            rec = Record(c, {}, {}, params)
        else:
            s = summary(self.ctx, c.func, {p: strs[p] for p in keep if p in strs}, self.cfg)
            def arr(k):
                kind, n = k
                a = params.get(n) if kind == "arg" else self.cells.get(n)
                return a if isinstance(a, np.ndarray) else None
            reads = {k: arr(k) for k in s.reads}
            writes = {k: arr(k) for k in s.writes}
            rec = Record(c, reads, writes, params)
            rec.contents = {k: list(a.ravel()) for k, a in reads.items() if a is not None and k not in writes}
            rec.outs = set()
            for k, a in sorted(writes.items(), key=lambda x: x[0]):
                if a is None:
                    continue
                self.n += 1
                rec.outs.add(self.n)
                v = np.empty(a.shape, object)
                for i, ix in enumerate(np.ndindex(a.shape)):
                    v[ix] = S(sym("out", k[1], str(self.n), str(i)))
                a[...] = v
            for cell, p in s.binds.items():
                if isinstance(params.get(p), np.ndarray):
                    self.cells[cell] = params[p]
        self.log.append(rec)
        for h in self.hooks:
            h(it, rec)
        rt = fd.ty.ret if hasattr(fd.ty, "ret") else fd.ty.to
        if rt.kind == "void":
            return None
        return S(sym("ret", c.func, str(len(self.log))))

class Session(object):
    """A Python session with symbolic data."""
    def __init__(self, ctx, cfg=(), point=None, light=False):
        self.ctx = ctx
        self.lib = LibModel(ctx, cfg, light)
        P = self.lib.P
        exports = set(n for n, f in P.funcs.items() if not f.static)
        self.it = PF.Interp(ctx.repo, exports=exports, point=point, lib=self.lib)
        self.C = self.it.classes()
        self.roots = []
        ctx.stats["Python sessions"] += 1
    def new(self, cls, *a, **k):
        o = self.it.call(self.C[cls], list(a), k)
        return o
    def do(self, o, meth, *a, **k):
        return self.it.call(self.it.attr(o, meth), list(a), k)
    def get(self, o, key):
        return self.it.getitem(o, key)
    def set(self, o, key, v):
        self.it.call(self.it.attr(o, "__setitem__"), [key, v], {})
    def fields(self, o):
        return [f for f in list(self.it.attr(o, "FIELDS")) + ["own", "owns"] if self.it.truth(self.it.call(self.it.attr(o, "__contains__"), [f], {}))]
    def lin(self, name, n):
        """Linear spectrum given by the user: increasing wavenumbers, positive values."""
        return grid(name + ".k", n), symarr(name + ".pk", n)

def grid(name, n, at=None):
    """Symbolic wavenumbers increasing with their position (default 0..n-1)."""
    return sarr([S(sym("ordered", name, str(p))) for p in (range(n) if at is None else at)])

def pyregpt_classes(ctx):
    """Names of the calculator classes: subclasses of PyRegPT whose set_terms works."""
    return [f.cls for f in families(ctx)] 

class Family(object):
    pass

def family_table(ctx):
    """For every calculator class: the library family its set_terms/run_terms use, its fields, shapes
    and powers, found by interpreting one set_terms and one run_terms."""
    t = getattr(ctx, "_famtable", None)
    if t is not None:
        return t
    out = []
    s0 = Session(ctx, light=True)
    base = s0.C.get("PyRegPT")
    if base is None:
        raise AnalysisError("class PyRegPT not found")
    for n, c in s0.C.items():
        if c is base or base not in c.mro:
            continue
        s = Session(ctx, light=True)
        o = s.new(n)
        k, pk = s.lin("lin", 4)
        s.do(o, "set_pk_lin", k, pk)
        m = len(s.lib.log)
        s.do(o, "set_terms", grid("kout", 3))
        st = [r for r in s.lib.log[m:] if r.func.startswith("set_terms_")]
        m = len(s.lib.log)
        s.do(o, "run_terms")
        rt = [r for r in s.lib.log[m:] if r.func.startswith("run_terms_")]
        if not rt:
            raise AnalysisError("class %s runs no computation" % n)
        f = Family()
        f.cls, f.suffix = n, rt[-1].func[len("run_terms_"):]
        f.fields = list(s.it.attr(o, "FIELDS"))
        sh = dict(s.it.attr(o, "SHAPE"))
        f.shapes = []
        for x in f.fields:
            mm = 1
            for d in sh.get(x, ()):
                mm *= int(d)
            f.shapes.append((x, mm))
        f.scale = dict(s.it.attr(o, "SCALE")) if has(s.it, o, "SCALE") else None
        f.session, f.obj = s, o
        out.append(f)
    if len(out) < 6:
        raise AnalysisError("expected the calculator classes, found %s" % [f.cls for f in out])
    ctx._famtable = out
    return out

def has(it, o, n):
    try:
        it.attr(o, n)
        return True
    except PyRaise:
        return False

def same_arrays(a, b):
    """Elementwise identity of contents."""
    if a is None or b is None:
        return False
    x, y = list(np.asarray(a, object).ravel()), list(np.asarray(b, object).ravel())
    return len(x) == len(y) and all(lift(p).t is lift(q).t for p, q in zip(x, y))

def owner(a):
    while getattr(a, "base", None) is not None and isinstance(a.base, np.ndarray):
        a = a.base
    return a

def contents(s, o):
    return {f: list(np.asarray(s.get(o, f), object).ravel()) for f in s.fields(o)}
