"""Non-interference of calculator objects: sessions with two calculators of every pair of classes,
their steps interleaved in every order, are interpreted over the Python syntax tree with symbolic
data; library calls have the effect summarised from the C sources (pointers kept, arrays read and
written).  At each computation, every array the library reads must hold data of the object computed
only, its linear-spectrum table must be exactly the one given to that object, every column of the
object must have been filled by this computation, and nothing held by the other object may change."""
from checks.sessions import *

RULE = "a computation reads only its own object's data, fills all of its own columns and changes no other object"
ASSUMPTIONS = ["the arrays given to different objects are distinct", "a single Python thread drives the library"]
STEPS = ["new", "lin", "terms", "run"]
STEPS2 = ["new", "terms", "lin", "run"]

def run(ctx):
    fams = family_table(ctx)
    names = [f.cls for f in fams]
    for a in names:
        for b in names:
            seqs = list(merges(STEPS, STEPS))
            if a > b:
                continue
            if not ctx.thorough:
                # every relative order of the two lin/terms/run triples once per class pair
                keep = 70 if a == b and not a.startswith("B2") else 14
                seqs = seqs[::max(1, len(seqs) // keep)]
            for q in seqs:
                session(ctx, [a, b], q)
            for q in (list(merges(STEPS2, STEPS)) if ctx.thorough else list(merges(STEPS2, STEPS))[7::23]):
                session(ctx, [a, b], q)
    for a in names:
        session(ctx, [a, a], [(0, x) for x in STEPS] + [(1, x) for x in STEPS] + [(0, "run"), (1, "relin"), (0, "run"), (1, "run"), (0, "relin"), (0, "run")])
        copies(ctx, a)
        lookups(ctx, a, [n for n in names if n != a][0])
        storage(ctx, a)

def session(ctx, classes, seq):
    s = Session(ctx)
    cs = [Calc(s, c, "%s%d" % ("xy"[i], i)) for i, c in enumerate(classes)]
    done = []
    for i, st in seq:
        done.append("%s.%s" % ("xy"[i], st))
        perform(ctx, s, cs, cs[i], lambda: cs[i].step(st), st == "run", "(%s) %s" % (", ".join("%s=%s" % ("xy"[j], c) for j, c in enumerate(classes)), " ".join(done)))

def perform(ctx, s, cs, me, action, isrun, hist):
    others = [c for c in cs if c is not me and c.obj is not None]
    before = [snapshot(s, c.obj) for c in others]
    n0, m = s.lib.n, len(s.lib.log)
    action()
    for c, b in zip(others, before):
        a = snapshot(s, c.obj)
        ok = samec(a[0], b[0]) and samec(a[1], b[1])
        ctx.check("other object unchanged by a step", ok, "interference:%s:%s:%s" % (me.cls, "run" if isrun else "step", c.cls),
                  lambda: "%s: the last step changed the %s of %s" % (hist, "columns " + ", ".join(k for k in b[0] if k not in a[0] or not samec({k: a[0][k]}, {k: b[0][k]})) if not samec(a[0], b[0]) else "linear spectrum", c.name))
    if isrun:
        computed(ctx, s, me, m, n0, hist)

def computed(ctx, s, me, m, n0, hist):
    own = ["lin." + me.name, "kout." + me.name, "pad." + me.name]
    tab = table_cells(ctx)
    for rec in s.lib.log[m:]:
        if not rec.func.startswith("run_"):
            continue
        for (kind, cell), vals in rec.contents.items():
            bad = []
            for v in vals:
                bad += foreign(lift(v).t, own, n0)
            ctx.check("array read by a computation", not bad, "reads:%s:%s" % (me.cls, cell),
                      lambda: "%s: %s reads through %s data that is not that of %s: %s" % (hist, rec.func, cell, me.name, bad[0]))
            if cell in tab and me.haslin:
                want = me.k if tab[cell] == 0 else me.pk
                ok = len(vals) == want.size and all(lift(x).t is lift(y).t for x, y in zip(vals, want))
                ctx.check("linear spectrum used by a computation", ok, "table:%s:%s" % (me.cls, cell), lambda: "%s: %s uses a table %s other than the linear spectrum given to %s" % (hist, rec.func, cell, me.name))
    cols = contents(s, me.obj)
    fields = s.fields(me.obj)
    for f in fields:
        if f == fields[0]:
            ok = not any(foreign(lift(v).t, own, n0) for v in cols[f])
            ctx.check("output wavenumbers kept", ok, "wavenumbers:%s" % me.cls, lambda: "%s: the wavenumbers of %s are changed" % (hist, me.name))
            continue
        old = [i for i, v in enumerate(cols[f]) if not (outnum(lift(v).t) or 0) > n0]
        ctx.check("column filled by its object's computation", not old, "filled:%s:%s" % (me.cls, f), lambda: "%s: element %d of column %s of %s is not filled by the computation" % (hist, old[0], f, me.name))

def table_cells(ctx):
    """cells of the linear-spectrum table -> 0 for wavenumbers, 1 for values."""
    s = summary(ctx, "set_pk_lin", {})
    fd = ctx.program().funcs["set_pk_lin"]
    ps = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
    return {cell: ps.index(p) for cell, p in s.binds.items()}

def copies(ctx, cls):
    """A deep copy and a selection of modes are objects of their own."""
    for how in ("deepcopy", "mask"):
        s = Session(ctx)
        x = Calc(s, cls, "x0")
        for st in STEPS:
            perform(ctx, s, [x], x, lambda: x.step(st), st == "run", cls + " " + st)
        y = Calc(s, cls, "x0")
        y.name = "x0"
        if how == "deepcopy":
            y.obj = s.do(x.obj, "deepcopy")
            y.k, y.pk, y.kout, y.haslin = x.k, x.pk, x.kout, True
        else:
            y.obj = s.get(x.obj, np.array([True, False, True]))
            y.k, y.pk = x.k, x.pk
            s.do(y.obj, "set_pk_lin", y.k, y.pk)
            y.haslin = True
        for me, oth in ((y, x), (x, y)):
            perform(ctx, s, [x, y], me, lambda: me.step("run"), True, "%s run, %s, run of the %s" % (cls, how, "copy" if me is y else "original"))
        s.do(y.obj, "pad_k", grid("kout.x0", 0, [-2, -1, 0, 1, 2, 3]))
        perform(ctx, s, [x, y], y, lambda: y.step("run"), True, "%s run, %s, padding and run of the copy" % (cls, how))

def lookups(ctx, a, b):
    """Lookups through an object use its own linear spectrum."""
    for meth in ("find_pk_lin", "calc_running_sigmad2"):
        s = Session(ctx)
        x, y = Calc(s, a, "x0"), Calc(s, b, "y1")
        for c in (x, y):
            c.step("new"); c.step("lin")
        m, n0 = len(s.lib.log), s.lib.n
        q = grid("kout.x0", 2)
        s.do(x.obj, meth, q)
        tab = table_cells(ctx)
        seen = False
        for rec in s.lib.log[m:]:
            for (kind, cell), vals in rec.contents.items() if rec.writes else ():
                if cell in tab:
                    seen = True
                    want = x.k if tab[cell] == 0 else x.pk
                    ok = len(vals) == want.size and all(lift(p).t is lift(w).t for p, w in zip(vals, want))
                    ctx.check("linear spectrum used by a lookup", ok, "lookup:%s" % meth, "%s of an object uses the linear spectrum last given to another object" % meth)
        if not seen:
            raise AnalysisError("%s reads no table" % meth)

def storage(ctx, a):
    """Two objects given the very same arrays keep storage of their own, before and after a run."""
    s = Session(ctx)
    x, y = Calc(s, a, "x0"), Calc(s, a, "x0")
    y.k, y.pk, y.kout = x.k, x.pk, x.kout
    user = {"the wavenumbers given to set_terms": x.kout, "the wavenumbers given to set_pk_lin": x.k, "the values given to set_pk_lin": x.pk}
    for st in STEPS:
        for c in (x, y):
            c.step(st)
        if st not in ("terms", "run"):
            continue
        held = []
        for n, c in (("one object", x), ("another", y)):
            held += [("column %s of %s" % (f, n), s.get(c.obj, f)) for f in s.fields(c.obj)]
            l = s.it.attr(c.obj, "spectrum_lin")
            held += [("column %s of the linear spectrum of %s" % (f, n), s.get(l, f)) for f in s.fields(l)]
        for i, (n, h) in enumerate(held):
            for m, u in list(user.items()) + held[:i]:
                ctx.check("storage of its own", not shares(h, u), "storage:%s:%s" % (a, n.split(" of ")[0]),
                          lambda: "%s, after %s: %s shares the storage of %s" % (a, st, n, m))

def shares(a, b):
    return isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and np.shares_memory(a, b)
