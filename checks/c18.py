"""Containers and calculators are interpreted over the Python syntax tree with symbolic columns:
copies, deep copies, selections, assignments and paddings of every class are compared element by
element with the specified result, and storage is checked to be shared or independent by writing
through one object and looking at the other."""
from checks.sessions import *

RULE = "copies and selections have exactly the original's columns; padding keeps old entries and places the new ones; storage is shared (copy) or independent (deepcopy)"
ASSUMPTIONS = ["numpy functions behave as modelled (concatenation, padding, indexing, views)"]

def tags(x):
    return [lift(v).t for v in np.asarray(x, object).ravel()]

def eq(a, b):
    return np.asarray(a, object).shape == np.asarray(b, object).shape and all(x is y for x, y in zip(tags(a), tags(b)))

def build(ctx, s, cls, name="x0", n=3, run=True):
    """An object with all of its columns set."""
    o = s.new(cls)
    base = s.C["PyRegPT"]
    if base in s.C[cls].mro:
        k, pk = s.lin("lin." + name, 4)
        s.do(o, "set_pk_lin", k, pk)
        if s.C[cls] is not base:
            s.do(o, "set_terms", grid("kout." + name, n))
            if run:
                s.do(o, "run_terms")
    else:
        for i, f in enumerate(s.it.attr(o, "FIELDS")):
            s.set(o, f, grid("kout." + name, n) if i == 0 else symarr(name + "." + f, n))
    if getattr(ctx, "_own", False) and s.fields(o):      # columns of the user's own, with one or more values per mode
        s.set(o, "own", symarr(name + ".own", n))
        s.set(o, "owns", symarr(name + ".owns", n, 2))
    return o

def classes(ctx):
    s = Session(ctx, light=True)
    out = []
    for n, c in s.C.items():
        fields = c.find("FIELDS") if c.has("FIELDS") else None
        if fields or n == "PyRegPT":
            out.append(n)
    if len(out) < 8:
        raise AnalysisError("containers found: %s" % out)
    return out

def guarded(ctx, cls, what, f):
    """The operation must be defined: an exception raised by the analysed code is a violation."""
    try:
        return f()
    except PyRaise as e:
        ctx.check("operation defined", False, "raises:%s:%s" % (cls, what), "%s: %s raises %s" % (cls, what, e))
        return None
    finally:
        ctx.ok("operation analysed")

def run(ctx):
    for cls in classes(ctx):
        ctx._own = True
        for f in (copying, deepcopying, selecting, assigning) + ((padding,) if ctx.thorough else ()):
            f(ctx, cls)
        pad_some(ctx, cls)
        ctx._own = False
        for f in (copying, deepcopying, unset, selecting, assigning, padding):
            f(ctx, cls)
    nowiggle(ctx)

def cols(s, o):
    return {f: s.get(o, f) for f in s.fields(o)}

def same_columns(ctx, s, cls, what, o, c):
    a, b = cols(s, o), cols(s, c)
    ctx.check("columns of the result", list(a) == list(b), "columns:%s:%s" % (cls, what), lambda: "%s.%s has columns %s, the original %s" % (cls, what, list(b), list(a)))
    for f in a:
        if f in b:
            ctx.check("column of the result", eq(a[f], b[f]), "column:%s:%s:%s" % (cls, what, f), lambda: "%s.%s: column %s differs from the original's" % (cls, what, f))
    la, lb = lincols(s, o), lincols(s, c)
    if la is not None:
        ctx.check("linear spectrum of the result", lb is not None and samec(la, lb), "lin:%s:%s" % (cls, what), lambda: "%s.%s: the linear spectrum differs from the original's" % (cls, what))

def poke(ctx, s, cls, what, o, c, shared):
    """Write through c, look at o, and the other way round."""
    n = 0
    for src, dst, who in ((c, o, "copy"), (o, c, "original")):
        pairs = [(s.get(src, f), s.get(dst, f), "column " + f) for f in s.fields(src) if f in s.fields(dst)]
        if has(s.it, src, "spectrum_lin") and has(s.it, dst, "spectrum_lin"):
            l, m = s.it.attr(src, "spectrum_lin"), s.it.attr(dst, "spectrum_lin")
            pairs += [(s.get(l, f), s.get(m, f), "linear spectrum column " + f) for f in s.fields(l)]
        for a, b, nm in pairs:
            if not isinstance(a, np.ndarray) or not a.size:
                continue
            for ix in (tuple([0] * a.ndim), tuple([-1] * a.ndim)):
                old = a[ix]
                n += 1
                mark = S(sym("poke", str(n)))
                a[ix] = mark
                seen = lift(b[ix]).t is mark.t
                a[ix] = old
                ctx.check("storage of a copy", seen == shared, "storage:%s:%s:%s" % (cls, what, nm), lambda: "%s.%s: writing to %s of the %s %s the other object" % (cls, what, nm, who, "changes" if seen else "does not change"))

def copying(ctx, cls):
    s = Session(ctx, light=False)
    o = build(ctx, s, cls)
    c = guarded(ctx, cls, "copy", lambda: s.do(o, "copy"))
    if c is not None:
        ctx.check("class of the result", c.cls is o.cls and c is not o, "class:%s:copy" % cls, "%s.copy returns %r" % (cls, c))
        same_columns(ctx, s, cls, "copy", o, c)
        poke(ctx, s, cls, "copy", o, c, True)

def deepcopying(ctx, cls):
    s = Session(ctx)
    o = build(ctx, s, cls)
    c = guarded(ctx, cls, "deepcopy", lambda: s.do(o, "deepcopy"))
    if c is not None:
        ctx.check("class of the result", c.cls is o.cls and c is not o, "class:%s:deepcopy" % cls, "%s.deepcopy returns %r" % (cls, c))
        same_columns(ctx, s, cls, "deepcopy", o, c)
        poke(ctx, s, cls, "deepcopy", o, c, False)
        f = s.fields(o)
        if f:
            before = contents(s, o)
            s.set(c, f[-1], symarr("other", 3))
            ctx.check("storage of a copy", samec(before, contents(s, o)), "storage:%s:deepcopy:dict" % cls, "%s.deepcopy: replacing a column of the copy replaces the original's" % cls)

def unset(ctx, cls):
    """Before anything is set."""
    s = Session(ctx)
    o = s.new(cls)
    for what in ("copy", "deepcopy"):
        c = guarded(ctx, cls, what + " of a new object", lambda: s.do(o, what))

def selecting(ctx, cls):
    s = Session(ctx)
    o = build(ctx, s, cls, n=5)
    if not s.fields(o):
        return
    a = {f: v.copy() for f, v in cols(s, o).items()}
    for what, sel in (("mask", np.array([True, False, True, True, False])), ("slice", slice(1, 4)), ("stride", slice(None, None, 2)), ("list of modes", np.array([3, 0, 3])), ("reversed", slice(None, None, -1)), ("none", np.zeros(5, bool))):
        c = guarded(ctx, cls, "selection by " + what, lambda: s.get(o, sel))
        if c is None:
            continue
        b = cols(s, c)
        ctx.check("class of the result", c.cls is o.cls, "class:%s:select" % cls, "%s: selecting modes returns %r" % (cls, c))
        ctx.check("columns of the result", list(a) == list(b), "columns:%s:select" % cls, "%s: selecting modes drops or adds columns" % cls)
        for f in a:
            if f in b:
                ctx.check("column of a selection", eq(a[f][sel], b[f]), "select:%s:%s" % (cls, f), lambda: "%s: selecting modes by %s gives the wrong column %s" % (cls, what, f))
        ctx.check("original unchanged by a selection", all(eq(a[f], v) for f, v in cols(s, o).items()), "select-orig:%s" % cls, "%s: selecting modes changes the original" % cls)
        n = s.it.call(s.it.attr(c, "__len__"), [], {})
        ctx.check("size of a selection", n == len(np.arange(5)[sel]), "select-size:%s" % cls, "%s: a selection of %s has size %s" % (cls, what, n))

def assigning(ctx, cls):
    s = Session(ctx)
    o = build(ctx, s, cls, n=4)
    if not s.fields(o):
        return
    for sel in (np.array([True, False, False, True]), slice(1, 3)):
        a = {f: v.copy() for f, v in cols(s, o).items()}
        mark = S(sym("assigned"))
        if guarded(ctx, cls, "assignment to modes", lambda: s.it.call(s.it.attr(o, "__setitem__"), [sel, mark], {}) or True) is None:
            continue
        for f, v in cols(s, o).items():
            w = a[f].copy()
            w[sel] = mark
            ctx.check("assignment to modes", eq(v, w), "assign:%s:%s" % (cls, f), lambda: "%s: assigning to modes gives the wrong column %s" % (cls, f))

PADS = [("both ends", [-2, -1, 0, 1, 2, 3, 4, 5], 2, 3), ("start only", [-1, 0.5, 1], 1, 0), ("end only", [0, 1, 2, 3.5, 4], 0, 2), ("nothing", [0, 1, 2], 0, 0), ("inside", [0.5, 1.5], 0, 0),
        ("outside only", [-3, -2, 7], 2, 1), ("one each", [-1, 3], 1, 1)]

def padding(ctx, cls):
    for what, at, ps, pe in PADS:
        for given in (False, True):
            for mode in ("default", "constant", "edge"):
                if mode != "default" and (given or what not in ("both ends", "nothing", "end only")):
                    continue
                pad_one(ctx, cls, what, at, ps, pe, given, mode)

def pad_some(ctx, cls):
    for what, at, ps, pe in PADS[:4]:
        pad_one(ctx, cls, what, at, ps, pe, what == "both ends", "default")

def pad_one(ctx, cls, what, at, ps, pe, given, mode):
    s = Session(ctx)
    o = build(ctx, s, cls)
    fields = s.fields(o)
    if not fields:
        return
    a = {f: v.copy() for f, v in cols(s, o).items()}
    k = grid("kout.x0", 0, at)
    kw = {}
    const = num(0)
    if mode == "constant":
        kw["constant_values"] = S(sym("const_value"))
        const = kw["constant_values"].t
    if mode == "edge":
        kw["mode"] = "edge"
    vals = {}
    if given:
        for f in fields[1:]:
            v = symarr("given." + f, len(at)) if a[f].ndim == 1 else symarr("given." + f, len(at), a[f].shape[1])
            vals[f] = kw[f] = v
    m = len(s.lib.log)
    d = "%s.pad_k (%s%s%s)" % (cls, what, ", values given" if given else "", "" if mode == "default" else ", " + mode)
    if guarded(ctx, cls, "pad_k" + ("" if mode == "default" else " mode " + mode) + (" with values" if given else ""), lambda: s.do(o, "pad_k", k, **kw) or True) is None:
        return
    b = cols(s, o)
    n = len(a[fields[0]])
    for f in fields:
        key = "pad:%s:%s" % (cls, f)
        v = b.get(f)
        ok = isinstance(v, np.ndarray) and v.shape == (n + ps + pe,) + a[f].shape[1:]
        if not ctx.check("shape of a padded column", ok, key + ":shape", lambda: "%s: column %s has shape %s, expected %s" % (d, f, getattr(v, "shape", None), (n + ps + pe,) + a[f].shape[1:])):
            continue
        ctx.check("old entries of a padded column", eq(v[ps:ps + n], a[f]), key + ":old", lambda: "%s: existing entries of column %s are changed" % (d, f))
        for i in list(range(ps)) + list(range(n + ps, n + ps + pe)):
            j = i if i < ps else len(at) - (n + ps + pe - i)
            got = [lift(x).t for x in np.asarray(v[i], object).ravel()] if v.ndim > 1 else [lift(v[i]).t]
            if f == fields[0]:
                want = [lift(k[j]).t]
            elif f in vals:
                w = vals[f][j]
                want = [lift(x).t for x in np.asarray(w, object).ravel()] if v.ndim > 1 else [lift(w).t]
            elif f in ("pk_lin", "sigmad2"):
                ctx.check("new entry of a padded column", lookup_of(s, m, got[0], k[j], f), key + ":new", lambda: "%s: the new entry %d of column %s is not that of its wavenumber" % (d, i, f))
                continue
            elif mode == "edge":
                e = a[f][0 if i < ps else -1]
                want = [lift(x).t for x in np.asarray(e, object).ravel()] if v.ndim > 1 else [lift(e).t]
            else:
                want = [const] * len(got)
            ctx.check("new entry of a padded column", len(got) == len(want) and all(x is y for x, y in zip(got, want)), key + ":new", lambda: "%s: new entry %d of column %s is %s, expected %s" % (d, i, f, show(got[0], 3), show(want[0], 3)))

def lookup_of(s, m, t, k, f):
    """t is what the library returned for wavenumber k, from the function that defines column f."""
    n = outnum(t)
    if n is None:
        return False
    for rec in s.lib.log[m:]:
        for key, arr in rec.writes.items():
            if arr is None:
                continue
        want = {"pk_lin": "find_pk_lin", "sigmad2": "calc_running_sigmad2"}[f]
        if rec.func == want and rec.outs and n in rec.outs:
            i = int(t.args[3])
            ks = [v for kk, v in rec.contents.items() if kk[0] == "arg"]
            return any(i < len(v) and lift(v[i]).t is lift(k).t for v in ks)
    return False

def nowiggle(ctx):
    """The no-wiggle spectrum fills its column from the modes and is normalised to the given spectrum."""
    s = Session(ctx)
    if "SpectrumNoWiggle" not in s.C:
        return
    cls = "SpectrumNoWiggle"
    o = s.new(cls)
    k = grid("kout.x0", 3)
    if guarded(ctx, cls, "set_terms", lambda: s.do(o, "set_terms", k) or True) is None:
        return
    ctx.check("columns prepared", set(s.fields(o)) == {"k", "pk"} and eq(s.get(o, "k"), k), "nowiggle:terms", "SpectrumNoWiggle.set_terms does not prepare its columns")
    pk = symarr("given.pk", 3)
    if guarded(ctx, cls, "run_terms", lambda: s.do(o, "run_terms", pk) or True) is None:
        return
    P = PF.PyPoint(5)
    v = s.get(o, "pk")
    ctx.check("normalisation", len(v) == 3 and close_(P(lift(v[0]).t), P(lift(pk[0]).t)), "nowiggle:norm", "SpectrumNoWiggle.run_terms is not normalised to the first value of the given spectrum")

def close_(a, b):
    return abs(a - b) <= 1e-30 * (abs(a) + abs(b))
