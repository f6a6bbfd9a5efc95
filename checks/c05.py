"""Every call the Python layer makes into the library, in sessions covering every method, class and
layout of the user's arrays, is compared with the declaration of the C function it reaches: existence,
number of arguments, kind and width of each argument and of the result, contiguity, element type and
length of each array against the size passed, and order of the columns.  At every computation, the
storage behind each pointer the library keeps must still be reachable from the Python objects alive
at that moment."""
from checks.layer import *

RULE = "each foreign call matches its C declaration; arrays are contiguous, of the library's type, long enough and alive while the library uses them"
ASSUMPTIONS = ["ctypes converts arguments as its declared argument types say", "the library is built with the default floating-point type"]

DOCUMENTED = ["all", "all_q", "all_mu", "all_pklin", "spectrum_1loop_q", "spectrum_2loop_q", "gamma2_1loop_q", "A_2loop_q"]

class Watch(object):
    """Checks each call of a session as it happens."""
    def __init__(self, ctx, s, user):
        self.ctx, self.s, self.user, self.m = ctx, s, user, 0
        self.what = ""
        self.fields = set()
        for c in s.C.values():
            f = c.find("FIELDS") if c.has("FIELDS") else None
            self.fields |= set(f or [])
        s.lib.hooks.append(self.hook)

    def hook(self, it, rec):
        ctx, P, c = self.ctx, self.s.lib.P, rec.call
        fd = P.funcs[c.func]
        self.m += 1
        where = "%s (in %s)" % (c.func, c.stack[-1] if c.stack else "module")
        ps = list(zip(fd.params, fd.ty.params or []))
        if not ctx.check("number of arguments", len(ps) == len(c.args), "count:%s" % c.func, "%s: called with %d arguments, the library takes %d" % (where, len(c.args), len(ps))):
            return
        size = None
        for (p, t), (ty, v) in zip(ps, c.args):
            if t.kind == "int" and size is None and isinstance(v, (int, np.integer)) and t.size == 8:
                size = int(v)
        cols = None
        for i, ((p, t), (ty, v)) in enumerate(zip(ps, c.args)):
            key = "arg:%s:%s" % (c.func, p)
            who = "%s, argument %d (%s)" % (where, i + 1, p)
            if t.kind == "ptr" and t.to.kind == "int" and t.to.size == 1:
                ctx.check("string argument", getattr(ty, "kind", None) == "str" and isinstance(v, bytes), key, "%s: the library takes a string, Python passes %r" % (who, v))
            elif t.kind == "ptr":
                if not ctx.check("array argument", isinstance(v, np.ndarray), key, "%s: the library takes an array, Python passes %r" % (who, v)):
                    continue
                dt = getattr(v, "dt", None) or PF.dtname(v.dtype)
                ctx.check("element type of an array", dt == "f%d" % t.to.size, key + ":type", "%s: array of %s, the library's elements are floating-point of %d bytes" % (who, dt, t.to.size))
                # numpy's own rule, applied to the array the program really passes
                ctx.check("contiguity of an array", bool(v.flags["C_CONTIGUOUS"]), key + ":contiguous", "%s: the array is not contiguous" % who)
                need = self.need(c.func, p, i, ps, size)
                if need is not None:
                    ctx.check("length of an array", v.size >= need, key + ":length", "%s: array of %d elements, the library uses %d for size %s" % (who, v.size, need, size))
                ctx.check("array written by the library", not (("arg", p) in rec.writes and not v.flags.writeable), key + ":writeable", "%s: read-only array" % who)
            elif t.kind == "float":
                ctx.check("floating-point argument", getattr(ty, "kind", None) == "float" and ty.size == t.size, key, "%s: the library takes floating-point of %d bytes, Python passes %s" % (who, t.size, ty))
            elif t.kind in ("int", "enum"):
                ctx.check("integer argument", getattr(ty, "kind", None) in ("int", "bool") and ty.size == t.size, key, "%s: the library takes an integer of %d bytes, Python passes %s" % (who, t.size, ty))
            else:
                raise AnalysisError("parameter %s of %s" % (p, c.func))
        rt = fd.ty.ret if fd.ty.ret is not None else fd.ty.to
        if rt.kind == "float":
            ctx.check("result", getattr(c.restype, "kind", None) == "float" and c.restype.size == rt.size, "result:%s" % c.func, "%s: returns floating-point of %d bytes, Python reads it as %s" % (where, rt.size, c.restype))
        elif rt.kind == "ptr":
            ctx.check("result", getattr(c.restype, "size", 0) == 8, "result:%s" % c.func, "%s: returns a pointer, Python reads it as %s" % (where, c.restype))
        self.order(c, ps, where)
        if rec.func.startswith("run_") or any(k[0] == "cell" for k in rec.reads) or any(k[0] == "cell" for k in rec.writes):
            self.alive(it, rec, where)

    def need(self, func, p, i, ps, size):
        if size is None:
            return None
        m = 1
        if func.startswith("set_terms_"):
            sh = shapes(self.ctx, func[len("set_terms_"):])
            ptrs = [q for q, t in ps if t.kind == "ptr"]
            if len(sh) == len(ptrs):
                m = sh[ptrs.index(p)][1]
        return m * size

    def order(self, c, ps, where):
        """A parameter called like a column receives that column."""
        ptrs = [(p, v) for (p, t), (ty, v) in zip(ps, c.args) if t.kind == "ptr" and isinstance(v, np.ndarray)]
        if not c.func.startswith("set_terms_"):
            return
        for o in reach_objects(self.s, self.user):
            d = o.d.get("columns")
            if not isinstance(d, dict):
                continue
            for p, v in ptrs:
                names = [f for f, a in d.items() if a is v]
                q = p.strip("_")
                if names and q in self.fields:
                    self.ctx.check("order of the columns", q in names, "order:%s:%s" % (c.func, p), "%s: parameter %s receives the column %s" % (where, p, names[0]))

    def alive(self, it, rec, where):
        ids = None
        for acc in (rec.reads, rec.writes):
            for (kind, cell), a in acc.items():
                if kind != "cell" or a is None:
                    continue
                if ids is None:
                    ids = reach_arrays(self.s, self.user)
                self.ctx.check("storage alive while used", id(owner(a)) in ids, "lifetime:%s:%s" % (rec.func, cell), "%s: %s: the array behind %s has been released by Python when the library uses it" % (self.what, where, cell))

def walk(s, user):
    seen = set()
    todo = [user, s.it.mod.d] + [m.d for m in s.it.modules.values() if isinstance(m, PF.Module)] + [e for e in s.it.envs] + list(s.it.stack)
    while todo:
        x = todo.pop()
        if x is None or isinstance(x, (str, bytes, int, float, bool, S)) or id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        if isinstance(x, np.ndarray):
            if isinstance(x.base, np.ndarray):
                todo.append(x.base)
        elif isinstance(x, dict):
            todo += list(x.values())
        elif isinstance(x, (list, tuple, set, frozenset)):
            todo += list(x)
        elif isinstance(x, PF.Obj):
            todo += [x.d, x.cls]
        elif isinstance(x, PF.Cls):
            todo += [x.ns] + list(x.bases)
        elif isinstance(x, PF.Env):
            todo += [x.v, x.parent]
        elif isinstance(x, PF.Bound):
            todo += [x.fn, x.self_]
        elif isinstance(x, PF.Fn):
            todo += [x.env, x.defaults, x.d]
        elif isinstance(x, PF.Module):
            todo.append(x.d)
        elif isinstance(x, PF.Wrap):
            todo.append(x.f)
        elif isinstance(x, PF.Prop):
            todo += [x.fget, x.fset]
        elif isinstance(x, PF.Lib):
            todo.append(x.funcs)
        elif isinstance(x, PF.CFunc):
            todo += [x.argtypes, getattr(x, "d", None)]

def reach_arrays(s, user):
    return set(id(owner(x)) for x in walk(s, user) if isinstance(x, np.ndarray))

def reach_objects(s, user):
    return [x for x in walk(s, user) if isinstance(x, PF.Obj)]

def session(ctx, name, steps, light=False, exc=()):
    """A session whose user holds what steps stores in `user`.  An exception of the analysed code
    is a violation: the call is not accepted by its own declaration."""
    s = Session(ctx, light=light)
    user = {}
    w = Watch(ctx, s, user)
    for label, f in steps:
        w.what = "%s: %s" % (name, label)
        try:
            f(s, user)
            ctx.ok("session step")
        except PyRaise as e:
            ctx.check("session step", False, "raises:%s:%s" % (name.split(" ")[0], e.name), "%s: %s" % (w.what, e))
            break
    return s, w

def new(cls, var="x"):
    return ("new", lambda s, u: u.__setitem__(var, s.new(cls)))

LAYOUTS = ["plain", "strided", "column", "reversed view", "float32", "list"]

def laid(a, how):
    """The same numbers in another layout of memory."""
    n = a.size
    if how == "plain":
        return a
    if how == "strided":
        b = sarr([x for v in a for x in (v, S(sym("between", "0")))])
        return b[::2]
    if how == "column":
        b = sarr([x for v in a for x in (v, S(sym("between", "0")), S(sym("between", "1")))], (n, 3))
        return b[:, 0]
    if how == "reversed view":
        return sarr(list(a[::-1]))[::-1]
    if how == "float32":
        return sarr(list(a), dt="f4")
    if how == "list":
        return list(a)
    raise AnalysisError(how)

def lin(how="plain", var="x", name="lin", n=4, meth="set_pk_lin"):
    def f(s, u):
        k, pk = s.lin(name, n)
        k, pk = laid(k, how), laid(pk, how)
        if meth == "set_pk_lin":
            s.do(u[var], "set_pk_lin", k, pk)
        else:
            l = s.new("SpectrumLin", k=k, pk=pk)
            s.do(u[var], "set_spectrum_lin", l)
    return ("%s, %s arrays" % (meth, how), f)

def terms(how="plain", var="x", n=3):
    return ("set_terms, %s array" % how, lambda s, u: s.do(u[var], "set_terms", laid(grid("kout", n), how)))

def run_(var="x", **k):
    return ("run_terms", lambda s, u: s.do(u[var], "run_terms", **k))

def drop(*names):
    def f(s, u):
        for n in names:
            del u[n]
    return ("release of " + ", ".join(names), f)

def act(label, f):
    return (label, f)

def relayout(how):
    def f(s, u):
        for x in s.fields(u["x"]):
            v = s.get(u["x"], x)
            if v.ndim == 1:
                s.set(u["x"], x, laid(v, how) if how != "float32" else v.astype("f4"))
    return ("columns replaced by %s arrays" % how, f)

def run(ctx):
    fams = family_table(ctx)
    for f in fams:
        c = f.cls
        for how in LAYOUTS:
            session(ctx, "%s given %s arrays" % (c, how), [new(c), lin(how), terms(how), run_()])
            if how != "list":
                session(ctx, "%s given a %s SpectrumLin" % (c, how), [new(c), lin(how, meth="set_spectrum_lin"), terms(), run_()])
        for n in (1, 2, 5):
            session(ctx, "%s with %d modes" % (c, n), [new(c), lin(n=n + 2), terms(n=n), run_()])
        session(ctx, "%s with another linear spectrum" % c, [new(c), lin(), terms(), run_(), lin(name="lin2", n=6), run_(), lin(name="lin3", n=3), terms(n=4), run_()])
        for how in ("strided", "reversed view", "column"):
            session(ctx, "%s with %s columns" % (c, how), [new(c), lin(), terms(), relayout(how), run_()])
        session(ctx, "%s released" % c, [new(c), lin(), terms(), run_(), drop("x"), new(c)] + ([lin(name="lin2")] if c in needs_lin(ctx) else []) + [terms(), run_()])
        session(ctx, "%s released with its arrays" % c, [new(c), lin("strided", meth="set_spectrum_lin"), terms(), drop("x"), new(c), terms(), run_()] if c not in needs_lin(ctx) else [new(c), lin("strided", meth="set_spectrum_lin"), terms(), drop("x"), new(c), lin(), terms(), run_()])
        for g in fams:
            if g is not f:
                session(ctx, "%s and %s" % (c, g.cls), [new(c), lin(), terms(), new(g.cls, "y"), lin(name="lin2", n=5, var="y"), drop("y"), run_(), new(g.cls, "y")] + ([lin(name="lin4", var="y")] if g.cls in needs_lin(ctx) else []) + [terms(var="y"), drop("x"), run_("y")])
        session(ctx, "%s padded" % c, [new(c), lin(), terms(), run_(), act("pad_k", lambda s, u: s.do(u["x"], "pad_k", grid("kout", 0, [-1, 0, 1, 2, 3]))), run_()])
        session(ctx, "%s selected" % c, [new(c), lin(), terms(n=5), run_(), act("selection", lambda s, u: u.__setitem__("y", s.get(u["x"], slice(None, None, 2)))), drop("x")] + ([lin(var="y")] if c in needs_lin(ctx) else []) + [run_("y")])
        session(ctx, "%s deep copy" % c, [new(c), lin(), terms(), run_(), act("deepcopy", lambda s, u: u.__setitem__("y", s.do(u["x"], "deepcopy"))), drop("x"), run_("y")])
        session(ctx, "%s copy" % c, [new(c), lin(), terms(), run_(), act("copy", lambda s, u: u.__setitem__("y", s.do(u["x"], "copy"))), drop("x"), run_("y")])
        fn = s_fn(ctx, c)
        for kw in fn:
            session(ctx, "%s(%s)" % (c, kw), [new(c), lin(), terms(), run_(**kw)])
        session(ctx, "%s keeping its linear spectrum" % c, [new(c), lin(), terms(), act("growth and lookup", lambda s, u: (s.do(u["x"], "find_pk_lin", grid("q", 3)), s.do(u["x"], "calc_running_sigmad2", grid("q", 3)))), run_()])
    base(ctx)
    settings(ctx)

def needs_lin(ctx):
    """Classes whose computation reads the Python-side linear spectrum of the object."""
    t = getattr(ctx, "_needs_lin", None)
    if t is None:
        t = ctx._needs_lin = set()
        for f in family_table(ctx):
            s = Session(ctx, light=True)
            x = s.new(f.cls)
            s.do(x, "set_terms", grid("kout", 3))
            try:
                s.do(x, "run_terms")
            except PyRaise:
                t.add(f.cls)
    return t

def s_fn(ctx, cls):
    """Keyword combinations of run_terms."""
    s = Session(ctx, light=True)
    f = s.C[cls].find("run_terms")
    names = [a.arg for a in f.node.args.args[1:]]
    out = [{"nthreads": n} for n in (1, 16)] if "nthreads" in names else []
    if "a" in names:
        out += [{"a": x, "b": y} for x in ("delta", "theta") for y in ("delta", "theta")]
    return out

def base(ctx):
    k = lambda n=3, how="plain": laid(grid("q", n), how)
    for how in LAYOUTS:
        session(ctx, "lookups of %s arrays" % how, [new("PyRegPT"), lin(how),
            act("find_pk_lin", lambda s, u: s.do(u["x"], "find_pk_lin", k(3, how))), act("find_pk_lin lin", lambda s, u: s.do(u["x"], "find_pk_lin", k(2, how), interpol="lin")),
            act("calc_running_sigmad2", lambda s, u: s.do(u["x"], "calc_running_sigmad2", k(3, how))), act("cutoff", lambda s, u: s.do(u["x"], "calc_running_sigmad2", k(1, how), uvcutoff=2))])
    session(ctx, "lookups of a scalar", [new("PyRegPT"), lin(), act("find_pk_lin", lambda s, u: s.do(u["x"], "find_pk_lin", S(sym("ordered", "q", "0")))), act("calc_running_sigmad2", lambda s, u: s.do(u["x"], "calc_running_sigmad2", S(sym("ordered", "q", "0"))))])
    session(ctx, "lookups without own spectrum", [new("PyRegPT", "y"), lin("strided", "y", meth="set_spectrum_lin"), drop("y"), new("PyRegPT"), act("find_pk_lin", lambda s, u: s.do(u["x"], "find_pk_lin", k())), act("calc_running_sigmad2", lambda s, u: s.do(u["x"], "calc_running_sigmad2", k()))])
    for n in (2, 7):
        session(ctx, "tables of %d" % n, [new("PyRegPT"),
            act("nodes_weights_gauss_legendre", lambda s, u: s.do(u["x"], "nodes_weights_gauss_legendre", -1, S(sym("hi")), n)),
            act("interpol_poly", lambda s, u: s.do(u["x"], "interpol_poly", S(sym("v")), symarr("tx", n), symarr("ty", n))),
            act("interpol_lin", lambda s, u: s.do(u["x"], "interpol_lin", S(sym("v")), symarr("tx", n), symarr("ty", n)))])
    session(ctx, "linear spectrum alone", [new("SpectrumLin"), act("set", lambda s, u: (s.set(u["x"], "k", grid("k", 4)), s.set(u["x"], "pk", symarr("p", 4)))), new("PyRegPT", "r"), act("set_spectrum_lin", lambda s, u: s.do(u["r"], "set_spectrum_lin", u["x"])),
        act("selection given", lambda s, u: s.do(u["r"], "set_spectrum_lin", s.get(u["x"], slice(None, None, 2)))), act("lookup", lambda s, u: s.do(u["r"], "find_pk_lin", k()))])

def setting_names(ctx):
    P = ctx.program()
    pre = [n[len("set_precision_"):] for n, f in sorted(P.funcs.items()) if n.startswith("set_precision_") and not f.static]
    cut = [n[len("set_running_uvcutoff_"):] for n, f in sorted(P.funcs.items()) if n.startswith("set_running_uvcutoff_") and not f.static]
    if len(pre) < 15 or len(cut) < 5:
        raise AnalysisError("settings of the library: %s %s" % (pre, cut))
    return pre, cut

def settings(ctx):
    pre, cut = setting_names(ctx)
    for n in pre + DOCUMENTED:
        for kw in ({"n": 7}, {"min": 1, "max": 2}, {"interpol": "lin"}, {"n": 5, "min": S(sym("lo")), "max": S(sym("hi")), "interpol": "poly"}, {}):
            session(ctx, "precision %s %s" % (n, sorted(kw)), [new("PyRegPT"), act("set_precision", lambda s, u: s.do(u["x"], "set_precision", n, **kw))], light=True)
    for n in cut + ["all"]:
        session(ctx, "cutoff %s" % n, [new("PyRegPT"), act("set_running_uvcutoff", lambda s, u: s.do(u["x"], "set_running_uvcutoff", n, uvcutoff=2)), act("again", lambda s, u: s.do(u["x"], "set_running_uvcutoff", n))], light=True)
    for v in ("quiet", "info", "debug"):
        session(ctx, "verbosity %s" % v, [new("PyRegPT"), act("set_verbosity", lambda s, u: s.do(u["x"], "set_verbosity", v)), act("clear", lambda s, u: s.do(u["x"], "clear")), act("default", lambda s, u: s.do(u["x"], "set_verbosity"))], light=True)
