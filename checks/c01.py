"""Effect analysis of every parallel region.  Each region is interpreted once for a generic thread,
logging every access to memory that is not private to the thread together with the lock, phase,
work-sharing loop and index of the access; two accesses to one location, one of them a write, must be
ordered.  The output columns are then checked to be functions of inputs, mode and settings alone: no
data left by another thread, no thread number or count, no accumulation across threads."""
from context import *
from checks.common import *
from itertools import combinations

RULE = "conflicting shared accesses are ordered by a lock, a barrier, one construct executed by one thread, or disjoint indices of one work-sharing loop; outputs carry no thread-dependent leaf"
ASSUMPTIONS = ["the arrays passed to the library are distinct", "OpenMP and Cuba behave as specified"]

def run(ctx):
    cfgs = [(), ("_CUBA15",)] + ([("_FLOAT32",)] if ctx.thorough else [])
    nreg = 0
    for cfg in cfgs:
        P = ctx.program(*cfg)
        for f in ctx.families():
            if cfg == ("_CUBA15",) and not (f.startswith("A_2loop") or f.startswith("spectrum_2loop")):
                continue
            fls = flags(P, f)
            if not ctx.thorough and len(fls) > 1:
                fls = [fls[1]] if f.endswith("2loop") else [fls[1], fls[3]]
            if cfg:
                fls = fls[:1]
            for fl in fls:
                r = base_run(ctx, f, fl, cfg)
                nreg += regions(ctx, r, f)
                values(ctx, r, f)
        # any other entry point opening a region
        for n in sorted(set(ctx.api()) | {"run_spectrum_1loop"}):
            if n.startswith("run_terms_") or n not in P.funcs or cfg:
                continue
            if n in ("find_pk_lin", "calc_running_sigmad2", "nodes_weights_gauss_legendre"):
                continue
            if n.startswith("set_") and not ctx.thorough:
                continue
            over = {p: "delta" for p, t in zip(P.funcs[n].params, P.funcs[n].ty.params) if t.kind == "ptr" and t.to.kind == "int" and t.to.size == 1}
            r = ctx.run([("set_pk_lin",), (n, over)], cfg, verbosity=None, init="sym")
            nreg += regions(ctx, r, n)
        helpers(ctx, cfg)
    if nreg < 6:
        raise AnalysisError("fewer parallel regions than the library is known to have")

def helpers(ctx, cfg):
    """Helpers called from every thread touch nothing but their arguments, private memory and the table."""
    for n, r in lookup_bodies(ctx, cfg):
        fd = r.it.P.funcs[n]
        for e in r.it.events[r.marks[-2]:]:
            if e.kind == "W" and e.obj.kind in ("global", "static", "extern", "stale"):
                ok = e.obj.kind == "extern" and e.obj.name.startswith("arg:") and not e.obj.name.startswith(("arg:set_pk_lin", "arg:table"))
                ctx.check("write by a helper called from threads", ok, "helper-write:%s:%s" % (n, e.obj.name),
                          "%s, called by every thread, writes shared %s at %s" % (n, e.obj.name, e.where))

def loc_name(e):
    return e.obj.name + "".join("." + p for p in e.path)

def regions(ctx, r, f):
    evs = {}
    bad = set()
    for e in r.it.events:
        if e.kind == "integrand-effect":
            ctx.violation("integrand:%s" % loc_name(e), "%s: the Monte-Carlo integrand, evaluated by several workers, modifies %s at %s" % (f, loc_name(e), e.where))
        if e.region is None:
            continue
        if e.kind in ("R", "W"):
            evs.setdefault((e.region, e.obj, e.path), []).append(e)
        elif e.kind == "reduction" and e.detail[1] == "float":
            ctx.violation("reduction:%s" % e.obj.name, "%s: floating-point reduction over %s: the order of accumulation depends on the threads" % (f, e.obj.name))
        elif e.kind == "dangling":
            ctx.violation("stale-pointer:%s" % e.obj.name, "%s: a thread dereferences %s, which it has not set, at %s" % (f, e.obj.name, e.where))
    n = 0
    for (reg, obj, path), es in evs.items():
        ws = [e for e in es if e.kind == "W"]
        if not ws:
            ctx.ok("shared location only read in a region")
            continue
        # distinct access patterns
        pats = {}
        for e in es:
            pats.setdefault((e.kind, e.idx, e.crit, e.phase, e.wsl, e.loops), e)
        pl = list(pats.values())
        for i, a in enumerate(pl):
            for b in pl[i:]:
                if a.kind == "R" and b.kind == "R":
                    continue
                ok, why = ordered(a, b, a is b)
                ctx.check("pair of conflicting accesses", ok, "race:%s:%s" % (loc_name(a), "/".join(sorted(set((fn(a), fn(b)))))),
                          lambda: "%s: threads race on %s: %s at %s and %s at %s (%s)" % (f, loc_name(a), a.kind, a.where, b.kind, b.where, why))
                n += 1
        # values accumulated or published in thread order
        for e in ws:
            if e.crit is not None and e.crit[0] in ("critical", "atomic") and isfloat(r, e):
                ctx.check("write under a lock", False, "ordered-accumulation:%s" % loc_name(e),
                          "%s: %s is updated under a lock at %s: its value depends on the order of the threads" % (f, loc_name(e), e.where))
            if e.crit is not None and e.crit[0] == "single" and e.detail is not None and isinstance(e.detail, T):
                b = [x for x in leaves(e.detail) if x.op in ("stale", "tid")]
                ctx.check("value published by one thread", not [x for x in b if x.op == "stale"], "single-stale:%s" % loc_name(e), "%s: %s is set at %s from another thread's data" % (f, loc_name(e), e.where))
    regs = set(e.region for e in r.it.events if e.region)
    for (reg, fnm, line) in r.it.regions:
        ctx.ok("parallel region")
        ctx.sample("%s: region in %s, %d shared locations, %d written" % (f, fnm, len([1 for k in evs if k[0] == reg]), len([1 for k, v in evs.items() if k[0] == reg and any(e.kind == "W" for e in v)])))
    return len(r.it.regions)

def fn(e):
    return e.stack[-1][0].name if e.stack else "?"

def isfloat(r, e):
    if e.obj.ty is None:
        return True
    try:
        t = r.it.leafty(e.obj, e.path)
    except Exception:
        return True
    return t is None or t.kind == "float"

def ordered(a, b, same):
    if a.phase != b.phase:
        return True, ""
    if a.crit and b.crit:
        if a.crit[0] == b.crit[0] == "atomic":
            return True, ""
        if a.crit[0] == b.crit[0] == "critical" and a.crit[1] == b.crit[1]:
            return True, ""
        if a.crit[0] == b.crit[0] == "master":
            return True, ""
        if a.crit[0] == b.crit[0] == "single" and a.crit[1] == b.crit[1]:
            return True, ""
    common = [l for l in a.wsl if l in b.wsl]
    if not common:
        return False, "not in one work-sharing loop and under no common lock"
    if a.idx is None or b.idx is None:
        return False, "same scalar from different iterations"
    lv = common[-1]
    da, ca = lin(a.idx)
    db, cb = lin(b.idx)
    sa, sb = da.get(lv), db.get(lv)
    if sa is None or sa != sb:
        return False, "indices %s and %s" % (show(a.idx), show(b.idx))
    ra = {k: v for k, v in da.items() if k is not lv}
    rb = {k: v for k, v in db.items() if k is not lv}
    if any(depends(k, {lv}) for k in list(ra) + list(rb)):
        return False, "index not linear in the work-sharing loop"
    # parts not varying within the iteration cancel
    inner = lambda e: {l: n for l, n in e.loops if l not in e.wsl}
    la, lb = inner(a), inner(b)
    amin, amax = bounds(ra, ca, la)
    bmin, bmax = bounds(rb, cb, lb)
    if amin is None or bmin is None:
        d = dict(ra)
        for k, v in rb.items():
            d[k] = d.get(k, 0) - v
        d = {k: v for k, v in d.items() if v}
        if not d and not any(depends(k, set(la) | set(lb)) for k in list(ra) + list(rb)) and abs(ca - cb) < abs(sa):
            return True, ""
        return False, "extent of the index within one iteration is not bounded"
    if amax - bmin < abs(sa) and bmax - amin < abs(sa):
        return True, ""
    return False, "different iterations reach the same element (%s and %s)" % (show(a.idx), show(b.idx))

def bounds(rest, c, loops):
    lo = hi = c
    for k, v in rest.items():
        n = loops.get(k)
        if n is None or n.op != "num":
            return None, None
        m = (n.args[0] - 1) * v
        lo += min(0, m)
        hi += max(0, m)
    return lo, hi

def values(ctx, r, f):
    for name, c, v, o in columns(ctx, r, f):
        if not isinstance(v, T):
            raise AnalysisError("column %s of %s is not a number" % (name, f))
        bad = opaque_leaves(v)
        if any(x.op == "sym" and "num_threads" in [str(a) for a in x.args] for x in leaves(v)):
            bad.append(("nthreads", "depends on the requested number of threads"))
        ctx.check("output column", not bad, "value:%s:%s:%s" % (f, name, bad[0][0] if bad else ""), lambda: "%s: column %s[%d] %s" % (f, name, c, bad[0][1]))
