"""Dependence analysis of output columns.  The value stored for a symbolic mode is computed as one
expression over the inputs; the wavenumber array may occur in it only through the element of that
mode, and the number of modes only in the test that the mode exists.  The vectorised helpers that
fill the tree-level columns are interpreted with their own loops, so that any value carried from one
mode to the next appears as a loop-carried leaf.  The Python layer, interpreted over its syntax tree,
must hand the library the wavenumbers in the order given."""
from context import *
from checks.common import *
from checks.c03 import guarded_value
import checks.c26 as C26
from checks.layer import Session, has

RULE = "column[mode] depends on the wavenumber array through k[mode] only, not on the number or position of the modes, and on no loop-carried value of the loop over modes"
ASSUMPTIONS = ["the arrays passed to the library are distinct"]

def run(ctx):
    cfgs = [()] + ([("_CUBA15",), ("_FLOAT32",)] if ctx.thorough else [])
    for cfg in cfgs:
        P = ctx.program(*cfg)
        for f in ctx.families():
            fls = flags(P, f)
            if not ctx.thorough and len(fls) > 1:
                fls = [fls[1]] if f.endswith("2loop") else [fls[0], fls[1]]
            fd = P.funcs["set_terms_" + f]
            ptrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
            nk = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "int"]
            for fl in fls:
                r = base_run(ctx, f, fl, cfg)
                for name, c, v, o in columns(ctx, r, f):
                    column(ctx, f, name, c, v, "arg:set_terms_%s.%s" % (f, ptrs[0]), [sym("arg", "set_terms_" + f, n) for n in nk])
        for n in ("find_pk", "find_pk_lin", "calc_running_sigmad2"):
            if n in P.funcs:
                helper(ctx, cfg, n)
    # the Python layer creates the columns for the wavenumbers as given
    for cls in C26.classes(ctx):
        if has(Session(ctx, light=True).it, Session(ctx, light=True).new(cls), "set_terms"):
            C26.creating(ctx, cls)

def column(ctx, f, name, c, v, kname, nks):
    if not (v.op == "sel" and depends(v.args[0], {MODE})):
        ctx.check("column written for every mode", False, "unwritten:%s:%s" % (f, name), "%s: column %s[%d] is not set by a loop over the modes" % (f, name, c))
        return
    inner = guarded_value(v, None, f)
    L = leaves(inner)
    kel = [x for x in L if x.op == "elem" and x.args[0].op == "g" and x.args[0].args[0] == kname]
    other = [x for x in kel if x.args[1] is not MODE]
    ctx.check("wavenumber of the mode", not other, "othermode:%s:%s" % (f, name), lambda: "%s: column %s[%d] depends on another mode's wavenumber, %s" % (f, name, c, show(other[0])))
    ctx.check("position of the mode", not any(x is MODE for x in leaves(subst(inner, {x: sym("kmode") for x in kel}))), "position:%s:%s" % (f, name), lambda: "%s: column %s[%d] depends on the position of the mode" % (f, name, c))
    ctx.check("number of modes", not any(x in L for x in nks), "count:%s:%s" % (f, name), lambda: "%s: column %s[%d] depends on the number of modes requested" % (f, name, c))
    bad = opaque_leaves(inner)
    ctx.check("no value carried between modes", not bad, "carried:%s:%s" % (f, name), lambda: "%s: column %s[%d] %s" % (f, name, c, bad[0][1]))
    if kel:
        ctx.sample("%s.%s[%d]: %d nodes, wavenumber occurrences: %s" % (f, name, c, len(L), sorted(set(show(x) for x in kel))))
    else:
        ctx.sample("%s.%s[%d]: %d nodes, independent of the wavenumber" % (f, name, c, len(L)))

def free_carried(t):
    """Loop-carried leaves not enclosed in the value of their own loop."""
    out, seen = set(), set()
    stack = [(t, frozenset())]
    while stack:
        u, b = stack.pop()
        if (u, b) in seen:
            continue
        seen.add((u, b))
        if u.op == "carried":
            if u.args[0].split("|")[0] not in b:
                out.add(u)
        nb = b | {u.args[1]} if u.op == "fix" and len(u.args) > 1 and isinstance(u.args[1], str) else b
        for a in u.args:
            if isinstance(a, T):
                stack.append((a, nb))
        if u.op == "call":
            stack.append((TM.SUMMARIES[u.args[0]][1], nb))
    return out

def helper(ctx, cfg, n):
    r = dict(lookup_bodies(ctx, cfg))[n]
    fd = r.it.P.funcs[n]
    ptrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr" and t.to.kind == "float"]
    kname = "arg:%s.%s" % (n, ptrs[0])
    done = 0
    for p in ptrs[1:]:
        o = r.args[(n, p)]
        if (o.id, ()) not in r.st.mem:
            continue
        v = SC.cell(r, o, MODE)
        done += 1
        if not (isinstance(v, T) and v.op == "sel" and depends(v.args[0], {MODE})):
            c = [x for x in leaves(v) if x.op == "carried" and not x.args[0].split("|")[1].startswith("arg:")] if isinstance(v, T) else []
            if not c:
                raise AnalysisError("%s does not fill %s mode by mode" % (n, p))
            ctx.check("helper: no value carried between modes", False, "carried:%s" % n, "%s: the value for one mode depends on %s, carried over from the modes before it" % (n, c[0].args[0].split("|")[1]))
            continue
        inner = guarded_value(v, None, n)
        L = leaves(inner)
        other = [x for x in L if x.op == "elem" and x.args[0].op == "g" and x.args[0].args[0] == kname and x.args[1] is not MODE]
        ctx.check("wavenumber of the mode", not other, "othermode:%s" % n, lambda: "%s depends on another mode's wavenumber, %s" % (n, show(other[0])))
        bad = sorted(free_carried(inner), key=lambda x: x.id) + [x for x in L if x.op in ("stale", "tid", "undef")]
        ctx.check("helper: no value carried between modes", not bad, "carried:%s" % n, lambda: "%s: the value for one mode depends on the modes before it (%s)" % (n, show(bad[0])[:100]))
        ctx.sample("%s: value of a mode has %d nodes and no loop-carried leaf of the loop over modes" % (n, len(L)))
    if not done:
        raise AnalysisError("%s fills no array" % n)
