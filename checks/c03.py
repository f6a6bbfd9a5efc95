"""Dependence and effect analysis of each computation from an arbitrary library state: every global
starts as an unknown, so that a leaf of an output column that is neither the linear spectrum, the
output wavenumbers nor a cell owned by a setter is a trace of history; cells owned by setters, the
linear spectrum and the columns of every other family must have the same value after the computation
as before."""
from context import *
from checks.common import *

RULE = "outputs depend only on setter-owned cells, the current linear spectrum and the modes; a computation leaves setter-owned cells, input arrays and other families' columns unchanged"
ASSUMPTIONS = ["the arrays passed to the library are distinct"]

def is_setter(n):
    return n.startswith("set_") and n != "set_num_threads"

def setter_cells(ctx, cfg=()):
    """(object name, path) of every global a user-callable setter writes."""
    P = ctx.program(*cfg)
    owned = {}
    for n in sorted(ctx.api()):
        if not is_setter(n) or n not in P.funcs:
            continue
        r = ctx.run([(n,)], cfg, verbosity=None, init="sym")
        for (oid, path), v in r.st.mem.items():
            o = r.it.objs[oid]
            if o.kind == "global" and not o.const:
                owned.setdefault((o.name, path), n)
    if len(owned) < 20:
        raise AnalysisError("only %d cells owned by setters" % len(owned))
    return owned

def leaf_cells(v):
    """Names of global cells and arrays a value depends on."""
    out = set()
    for x in leaves(v):
        if x.op == "g":
            out.add(x.args[0])
    return out

def run(ctx):
    cfgs = [()] + ([("_CUBA15",), ("_FLOAT32",)] if ctx.thorough else [])
    for cfg in cfgs:
        P = ctx.program(*cfg)
        owned = setter_cells(ctx, cfg)
        names = {n + "".join("." + p for p in path) for n, path in owned}
        ctx.stats["cells owned by setters"] = len(owned)
        fams = ctx.families()
        for f in fams:
            fls = flags(P, f)
            if not ctx.thorough and len(fls) > 1:
                fls = [fls[1]] if f.endswith("2loop") else [fls[0], fls[1], fls[3]]
            for fl in fls:
                one(ctx, cfg, P, f, fams, fl, owned, names)
        # other user-callable computations
        for n in sorted(ctx.api()):
            if n in P.funcs and not is_setter(n) and not n.startswith("run_terms_"):
                r = ctx.run([("set_pk_lin",), (n,)], cfg, verbosity=None, init="sym")
                before = ctx.run([("set_pk_lin",)], cfg, verbosity=None, init="sym")
                unchanged(ctx, r, n, owned, 1, {n}, before)
        helpers(ctx, cfg, names)

def one(ctx, cfg, P, f, fams, fl, owned, names):
    calls = [("set_pk_lin",)] + [("set_terms_" + g,) for g in fams] + [("run_terms_" + f, dict(fl))]
    r = ctx.run(calls, cfg, verbosity=None, init="sym")
    before = ctx.run(calls[:-1], cfg, verbosity=None, init="sym")
    for name, c, v, o in columns(ctx, r, f):
        cells = leaf_cells(v)
        for g in sorted(cells):
            if g.startswith("arg:"):
                lab = g[4:].rsplit(".", 1)[0]
                ok = lab == "set_pk_lin" or lab == "set_terms_" + f or lab.startswith("run_terms_")
                what = "the arrays of " + lab
            else:
                ok = g in names or any(g.startswith(n + ".") for n in names)
                what = "%s, which no setter owns: it is left over from an earlier computation" % g
            ctx.check("leaf of an output column", ok, "history:%s:%s:%s" % (f, name, g), lambda: "%s: column %s[%d] depends on %s" % (f, name, c, what))
        bad = opaque_leaves(v)
        ctx.check("output column without unknown leaves", not bad, "opaque:%s:%s" % (f, name), lambda: "%s: column %s[%d] %s" % (f, name, c, bad[0][1]))
        # old contents of the column itself may remain only outside the modes
        own = [x for x in leaves(v) if x.op == "elem" and x.args[0].op == "g" and x.args[0].args[0].startswith("arg:set_terms_" + f)]
        inner = guarded_value(v, r, f)
        if inner is not None:
            kname = [p for p, t in zip(P.funcs["set_terms_" + f].params, P.funcs["set_terms_" + f].ty.params) if t.kind == "ptr"][0]
            bad = [x for x in leaves(inner) if x.op == "elem" and x.args[0].op == "g" and x.args[0].args[0].startswith("arg:set_terms_") and not x.args[0].args[0] == "arg:set_terms_%s.%s" % (f, kname)]
            ctx.check("previous contents of a column", not bad, "old-contents:%s:%s" % (f, name), lambda: "%s: column %s[%d] depends on what the array %s contained before the computation" % (f, name, c, bad[0].args[0].args[0]))
    unchanged(ctx, r, f, owned, len(calls) - 1, {"set_terms_" + f}, before)

def guarded_value(v, r, f):
    """Value for a mode inside the range: the arm of sel(mode<nk, value, old)."""
    if v.op == "sel" and depends(v.args[0], {MODE}):
        c = v.args[0]
        inside = c.op == "cmp" and c.args[0] == "<" and c.args[1] is MODE
        inner = v.args[1] if inside else v.args[2]
        return subst(inner, {c: ONE if inside else ZERO, notb(c): ZERO if inside else ONE})
    return v

def unchanged(ctx, r, f, owned, ncalls, ownlabels, before=None):
    it, st = r.it, r.st
    bobj = {o.name: o for o in before.it.objs.values() if o.kind in ("global", "extern")} if before is not None else {}
    for (name, path), setter in sorted(owned.items()):
        objs = [o for o in it.objs.values() if o.kind == "global" and o.name == name]
        for o in objs:
            v = st.mem.get((o.id, path))
            b = None
            if before is not None and name in bobj:
                b = before.st.mem.get((bobj[name].id, path))
            same = equal(it, o, path, v, b, r, before)
            ctx.check("setter-owned cell", same, "setting:%s%s" % (name, "".join("." + p for p in path)),
                      lambda: "%s changes %s%s, which only %s should set (now %s)" % (f, name, "".join("." + p for p in path), setter, describe(v)))
    for (label, pn), o in sorted(((k, v) for k, v in r.args.items() if isinstance(k[1], str)), key=lambda x: x[0]):
        own = label in ownlabels or label == f or pn in ownlabels and label not in ("set_pk_lin",)
        first = not label.startswith("set_terms") or pn in ("k",) or pn == firstptr(it, label)
        if own and not first:
            continue
        if own and not label.startswith("set_"):
            continue
        ctx.check("input or foreign array", (o.id, ()) not in st.mem, "array:%s.%s" % (label, pn), "%s writes the array %s given to %s" % (f, pn, label))

def firstptr(it, label):
    fd = it.P.funcs[label]
    return [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"][0]

def describe(v):
    if isinstance(v, T):
        return show(v, 3)
    return getattr(getattr(v, "obj", None), "name", str(v)[:60])

def equal(it, o, path, v, b, r, before):
    if b is None and v is None:
        return True
    if b is None:
        # initial value: the symbolic cell itself
        d = it.default(o, path, it.leafty(o, path))
        return same(v, d)
    return v is not None and same(v, b)

def same(a, b):
    if isinstance(a, T) or isinstance(b, T):
        return a is b
    from cinterp import Ptr, Arr
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj.name == b.obj.name and a.obj.kind == b.obj.kind and a.path == b.path and a.idx is b.idx
    if isinstance(a, Arr) and isinstance(b, Arr):
        return a == b
    return a == b

def helpers(ctx, cfg, names):
    for n, r in lookup_bodies(ctx, cfg):
        fd = r.it.P.funcs[n]
        for e in r.it.events[r.marks[-2]:]:
            if e.kind == "W":
                ok = e.obj.kind == "extern" and e.obj.name.startswith("arg:%s." % n)
                ctx.check("write by a table helper", ok, "helper-write:%s:%s" % (n, e.obj.name), "%s keeps state in %s (%s)" % (n, e.obj.name, e.where))
            elif e.kind == "R" and e.obj.kind == "global":
                nm = e.obj.name + "".join("." + p for p in e.path)
                ctx.check("read by a table helper", e.obj.const or nm in names, "helper-read:%s:%s" % (n, nm), "%s depends on %s, which no setter owns (%s)" % (n, nm, e.where))
