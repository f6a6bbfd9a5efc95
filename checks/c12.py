"""Output effects: every function of the library the Python layer can call is interpreted with the
verbosity set to each level, and every construct that writes to the terminal or opens a file is
collected with its call path; the cell holding the verbosity must be written by set_verbosity only
and no output column may depend on it.  On the Python side, sessions covering every method and class
are interpreted with the verbosity set by the user, and each call into the library must happen at
the verbosity the user set last."""
from checks.sessions import *
from checks.c03 import guarded_value

RULE = "no output construct is reachable at 'quiet', no file is opened at 'info', no message is written at 'debug'; only the user's calls set the verbosity"
ASSUMPTIONS = ["the Cuba integrators write only when their verbosity flags or state file ask for it"]

def run(ctx):
    for cfg in [(), ("_CUBA15",)] + ([("_FLOAT32",), ("_HAVE_OMP",)] if ctx.thorough else [("_HAVE_OMP",)]):
        library(ctx, cfg)
    python(ctx)

def vcell(ctx, cfg):
    """Cells set_verbosity writes."""
    r = ctx.run([("set_verbosity",)], cfg, verbosity=None, init="sym")
    out = set()
    for (oid, path), v in r.st.mem.items():
        o = r.it.objs[oid]
        if o.kind == "global" and not o.const:
            out.add((o.name, path))
    if not out:
        raise AnalysisError("set_verbosity sets nothing")
    return out

def calls_of(ctx, P, n):
    f = n[len("run_terms_"):] if n.startswith("run_terms_") else None
    if f is None:
        strs = strparams(P.funcs[n])
        pre = [("set_pk_lin",)] if not n.startswith("set_") else []
        if n.startswith("run_") and "set_terms_" + n[4:] in P.funcs:
            pre.append(("set_terms_" + n[4:],))
        return [pre + [(n, {p: w for p in strs})] for w in (["delta", "theta"] if strs else [""])]
    fls = flags(P, f)
    return [linear_calls_plain(P, f, fl) for fl in ([fls[0], fls[1]] if len(fls) > 1 else fls)]

def linear_calls_plain(P, f, fl):
    return [("set_pk_lin",), ("set_terms_" + f,), ("run_terms_" + f, dict(fl))]

def outputs(r, n):
    """(kind, detail, where) of each output construct reached by call number n and later."""
    return [(e.kind, e.detail, e.where) for e in r.it.events[r.marks[n]:] if e.kind in ("print", "fopen")]

def bad(v, kind, detail):
    """Is this output construct forbidden at this verbosity?"""
    tgt = detail[0] if kind == "print" and detail else None
    if kind == "fopen" and detail and detail[1] is not None and detail[1].startswith("r"):
        return False
    return v == "QUIET" or (v == "INFO" and (kind == "fopen" or tgt == "file")) or (v == "DEBUG" and kind == "print" and tgt == "stdout")

def reachable(e, vc, level):
    """Can the path condition hold at this verbosity?"""
    cells = {n + "".join("." + p for p in path) for n, path in vc}
    for c in e.pc:
        if isinstance(c, T):
            m = {x: level for x in leaves(c) if x.op == "g" and x.args and x.args[0] in cells}
            if m:
                d = norm(subst(c, m))
                if d.op == "num" and d.args[0] == 0:
                    return False
    return True

def library(ctx, cfg):
    P = ctx.program(*cfg)
    names = sorted(n for n in ctx.api() if n in P.funcs and not P.funcs[n].static)
    if len(names) < 30:
        raise AnalysisError("library functions called from Python: %d" % len(names))
    vc = vcell(ctx, cfg)
    table = ("find_pk", "find_pk_lin", "calc_running_sigmad2", "nodes_weights_gauss_legendre")
    for n in names:
        for ci, calls in enumerate(calls_of(ctx, P, n)):
            if ci and n.startswith("run_terms_"):
                continue
            lv = ["QUIET", "INFO", "DEBUG"] if n.startswith("run_") or not n.startswith("set_") or n in ("set_pk_lin", "set_verbosity") or n.startswith("set_terms") else ["QUIET", "INFO"]
            if cfg or ci:
                if cfg and ci and not ctx.thorough:
                    continue
                lv = lv[:1]
            for v in lv:
                mode = {"QUIET": "quiet", "INFO": "info", "DEBUG": "debug"}[v]
                cs = [("set_verbosity", {strparams(P.funcs["set_verbosity"])[0]: mode})] + calls
                if n == "set_verbosity":
                    if v != "QUIET":
                        continue
                    cs = [("set_verbosity", {strparams(P.funcs["set_verbosity"])[0]: m}, "set_verbosity#" + m) for m in ("debug", "quiet")]
                kw = {"intrinsics": False, "summaries": True} if n in table else {}
                ctx.ok("library function at a verbosity")
                if n.startswith("run_terms_"):
                    f = n[len("run_terms_"):]
                    fls = flags(P, f)
                    b = base_run(ctx, f, fls[1] if len(fls) > 1 else fls[0], cfg)
                    enums = {}
                    for u in P.units.values():
                        enums.update(u.enums)
                    evs = [e for e in b.it.events[b.marks[0]:] if e.kind in ("print", "fopen")]
                    ctx.ok("output construct", len(evs))
                    sets = [1 for (oid, path), x in b.st.mem.items() if b.it.objs[oid].kind == "global" and (b.it.objs[oid].name, path) in vc and getattr(x, "op", None) != "g"]
                    if not sets and not any(bad(v, e.kind, e.detail) and reachable(e, vc, num(enums[v])) for e in evs):
                        continue
                r = ctx.run(cs, cfg, verbosity=None, init="sym", **kw)
                for kind, detail, where in outputs(r, 0):
                    ctx.ok("output construct")
                    if bad(v, kind, detail):
                        what = "opens the file %s" % detail[0] if kind == "fopen" else "writes %r to %s" % (detail[1], detail[0])
                        ctx.violation("output:%s:%s:%s" % (mode, n, where.split(" (")[-1]), "%s at verbosity %r: %s (reached from %s) %s" % (n, mode, where, n, what))
                if n != "set_verbosity" and v == "QUIET":
                    for (oid, path), val in r.st.mem.items():
                        o = r.it.objs[oid]
                        if (o.name, path) in vc and o.kind == "global":
                            w0 = ctx.run(cs[:1], cfg, verbosity=None, init="sym")
                            same = [x for (i, p), x in w0.st.mem.items() if w0.it.objs[i].name == o.name and p == path and x is val]
                            ctx.check("verbosity left alone by the library", bool(same), "sets:%s" % n, "%s changes the verbosity" % n)
    cells = {n + "".join("." + p for p in path) for n, path in vc}
    for f in ctx.families():
        fls = flags(P, f)
        r = base_run(ctx, f, fls[1] if len(fls) > 1 else fls[0], cfg)
        for n, c, v, o in columns(ctx, r, f):
            dep = [x for x in leaves(guarded_value(v, None, f)) if x.op == "g" and x.args and x.args[0] in cells]
            ctx.check("column independent of the verbosity", not dep, "depends:%s:%s" % (f, n), "%s: column %s depends on the verbosity" % (f, n))
    for n, r in lookup_bodies(ctx, cfg):
        for e in r.it.events[r.marks[0]:]:
            if e.kind in ("print", "fopen"):
                free = not any(x.op == "g" and x.args and x.args[0] in cells for c in e.pc if isinstance(c, T) for x in leaves(c))
                ctx.check("output construct", not free, "output:any:%s" % n, "%s: %s writes whatever the verbosity" % (n, e.where))

# ---------------------------------------------------------------------------- Python side
class Verb(object):
    """Follows the verbosity of the library against the one the user set."""
    def __init__(self, ctx, s):
        self.ctx, self.s = ctx, s
        self.lib = None     # as the library was last told
        self.user = None    # as the user asked; None before the first object
        self.hist = []
        s.lib.hooks.append(self.hook)
    def hook(self, it, rec):
        if rec.func == "set_verbosity":
            v = [b for t, b in rec.call.args if isinstance(b, bytes)]
            self.lib = v[0].decode() if v else None
            return
        self.ctx.check("library call at the user's verbosity", self.user is None or self.lib == self.user, "verbosity:%s" % self.hist[-1].split(" ")[0],
                       lambda: "%s: %s is called at verbosity %r, the user set %r" % (", ".join(self.hist), rec.func, self.lib, self.user))
    def step(self, label, f, sets=None):
        self.hist.append(label)
        if sets is not None:
            self.user = None   # while the setting is applied
        m = len(self.s.it.events)
        r = f()
        if sets is not None:
            self.user = sets
        if self.user == "quiet" and sets is None:
            out = [e for e in self.s.it.events[m:] if e[0] == "print"]
            self.ctx.check("no output of the Python layer", not out, "pyprint:%s" % label.split(" ")[0], lambda: "%s: the Python layer prints at 'quiet'" % ", ".join(self.hist))
        if self.user is not None:
            self.ctx.check("verbosity as the user set it", self.lib == self.user, "verbosity:%s" % label.split(" ")[0],
                           lambda: "%s: the verbosity of the library is %r, the user set %r" % (", ".join(self.hist), self.lib, self.user))
        return r

def python(ctx):
    fams = [f.cls for f in family_table(ctx)]
    for c in fams + ["PyRegPT"]:
        for v in ("quiet", "debug", "info"):
            for other in ([fams[(fams.index(c) + 1) % len(fams)]] if c in fams else fams[:1]):
                session(ctx, c, other, v)

def session(ctx, c, other, v):
    s = Session(ctx, light=True)
    V = Verb(ctx, s)
    x = V.step("new %s" % c, lambda: s.new(c), sets="info")
    V.step("set_verbosity %s" % v, lambda: s.do(x, "set_verbosity", v), sets=v)
    V.step("linear spectrum", lambda: s.do(x, "set_pk_lin", *s.lin("lin.x", 4)))
    base = c == "PyRegPT"
    if not base:
        V.step("set_terms", lambda: s.do(x, "set_terms", grid("kout", 4)))
        V.step("run_terms of %s" % c, lambda: s.do(x, "run_terms"))
        V.step("run_terms again", lambda: s.do(x, "run_terms", nthreads=2))
        V.step("copy", lambda: s.do(x, "copy"))
        V.step("deepcopy", lambda: s.do(x, "deepcopy"))
        V.step("selection", lambda: s.get(x, slice(1, 3)))
        V.step("selection by mask", lambda: s.get(x, np.array([True, False, True, False])))
        V.step("pad_k", lambda: s.do(x, "pad_k", grid("kout", 0, [-1, 0, 1, 2, 3, 4])))
        for m in ("sigmav", "sigma8"):
            if has(s.it, x, m) and c not in ("A1Loop", "A2Loop", "B1Loop", "B2Loop") and has(s.it, x, "pk"):
                V.step(m, lambda: s.do(x, m))
        V.step("nan_to_zero", lambda: s.do(x, "nan_to_zero"))
        V.step("rescale", lambda: s.do(x, "rescale", S(sym("D"))))
    V.step("find_pk_lin", lambda: s.do(x, "find_pk_lin", grid("q", 2)))
    V.step("calc_running_sigmad2", lambda: s.do(x, "calc_running_sigmad2", grid("q", 2)))
    V.step("nodes_weights_gauss_legendre", lambda: s.do(x, "nodes_weights_gauss_legendre", -1, 1, 3))
    V.step("set_precision", lambda: s.do(x, "set_precision", "all", n=10))
    V.step("set_precision reset", lambda: s.do(x, "set_precision", "all_q"))
    V.step("set_running_uvcutoff", lambda: s.do(x, "set_running_uvcutoff"))
    y = V.step("new %s" % other, lambda: s.new(other))
    V.step("linear spectrum of another object", lambda: s.do(y, "set_pk_lin", *s.lin("lin.y", 4)))
    V.step("set_terms of another object", lambda: s.do(y, "set_terms", grid("kout2", 3)))
    V.step("run_terms of %s" % other, lambda: s.do(y, "run_terms"))
    V.step("deepcopy of another object", lambda: s.do(y, "deepcopy"))
    w = {"quiet": "info", "info": "debug", "debug": "quiet"}[v]
    V.step("set_verbosity %s" % w, lambda: s.do(y, "set_verbosity", w), sets=w)
    if not base:
        V.step("run_terms of %s" % c, lambda: s.do(x, "run_terms"))
    V.step("new %s" % c, lambda: s.new(c))
    V.step("clear", lambda: s.do(x, "clear"), sets="info")
    V.step("new %s" % other, lambda: s.new(other))
    V.step("run_terms of %s" % other, lambda: s.do(y, "run_terms"))
    V.step("set_verbosity %s" % v, lambda: s.do(x, "set_verbosity", v), sets=v)
    V.step("new %s" % c, lambda: s.new(c))
    V.step("set_verbosity default", lambda: s.do(x, "set_verbosity"), sets="info")
    V.step("new %s" % other, lambda: s.new(other))
