"""Bounds analysis: every access to an array of known extent is enumerated over the value graph and its
index proved inside, from path conditions and loop ranges, for all sizes; the indices of the
data-dependent search and interpolation windows are decided for each table length of a range and
each position of the wavenumber relative to the nodes."""
from checks.tables import *
from checks.common import *
from checks.vn import linear_calls
from intprove import prove_range

RULE = "0 <= index < extent at every access, or the access is unreachable"
ASSUMPTIONS = ["arrays handed over by the caller have the length the call states (checked for the Python layer by C05)", "tables of at least three nodes", "no overflow of sizes"]

def run(ctx):
    ctx.unsized = Counter()
    cfgs = [(), ("_CUBA15",)] + ([("_FLOAT32",)] if ctx.thorough else [])
    for cfg in cfgs:
        P = ctx.program(*cfg)
        for f in ctx.families():
            if cfg == ("_CUBA15",) and not ctx.thorough and not f.endswith("2loop"):
                continue
            fls = flags(P, f)
            if not ctx.thorough and len(fls) > 1:
                fls = [fls[0], fls[1]] if f.endswith("1loop") else [fls[1]]
            for fl in fls:
                family(ctx, P, f, fl, cfg)
    P = ctx.program()
    others = [n for n in ctx.api() if n in P.funcs and not n.startswith(("run_terms_", "set_", "find_pk", "calc_running", "nodes_", "interpol_poly"))]
    for n in sorted(others):
        fd = P.funcs[n]
        calls = [("set_pk_lin",), (n, {p: "delta" for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr" and t.to.kind == "int" and t.to.size == 1})]
        r = SC.scenario(P, calls, verbosity=None, init="mixed", log_all=True, sizes=sizes_of(P, None, {}))
        judge(ctx, r, n)
    quadrature(ctx, P)
    polynomial(ctx, P)
    tables(ctx)
    if ctx.unsized:
        ctx.stats["accesses to arrays of unknown extent (not decided)"] += sum(ctx.unsized.values())
        ctx.unknown("accesses through pointers left by calls before the scenario have no extent: %s" % dict(ctx.unsized.most_common(6)))

def sizes_of(P, f, sh):
    names = list(sh)
    def sizes(fname, label, p):
        fd = P.funcs[fname]
        nk = [q for q, t in zip(fd.params, fd.ty.params) if t.kind == "int" and t.size == 8]
        if not nk:
            return None
        ptrs = [q for q, t in zip(fd.params, fd.ty.params) if t.kind == "ptr" and t.to.kind == "float"]
        m = sh[names[ptrs.index(p)]] if f is not None and fname == "set_terms_" + f else 1
        return norm(mul(num(m), sym("arg", label, nk[0])))
    return sizes

def family(ctx, P, f, fl, cfg):
    sh = dict(shapes(ctx, f))
    scen = [family_calls(P, f, fl)]
    if "set_spectra_" + f in P.funcs:
        scen.append(linear_calls(ctx, P, f, fl))
    for calls in scen:
        r = SC.scenario(P, calls, verbosity=None, init="mixed", log_all=True, sizes=sizes_of(P, f, sh))
        judge(ctx, r, f)

def judge(ctx, r, label):
    ctx.note(r)
    extra = [cmp("<=", num(3), sym("arg", "set_pk_lin", p)) for p in ("nk", "n")]
    seen = {}
    n = 0
    for e in r.it.events:
        if e.kind == "inb":
            n += 1
            continue
        if e.kind == "oob":
            ctx.violation("oob:%s:%s" % (fname(e), oname(e)), "%s: %s at %s on %s" % (label, e.detail, e.where, e.obj.name))
            continue
        if e.kind != "oob?":
            if e.kind in ("R", "W") and e.idx is not None and e.obj.size is None:
                ctx.unsized[oname(e)] += 1
            continue
        k = (e.idx, e.detail[1], e.pc, e.loops)
        ok = seen.get(k)
        if ok is None:
            ok = seen[k] = prove_range(e.idx, e.detail[1], e.pc, e.loops, extra)
        ctx.ok("access proved inside by path conditions")
        if not ok:
            ctx.violation("oob:%s:%s" % (fname(e), oname(e)), "%s: %s of %s[%s] at %s is not inside its extent %s%s" % (
                label, "write" if e.detail[0] == "W" else "read", e.obj.name, show(e.idx, 4)[:80], e.where, show(e.detail[1], 4)[:80],
                " under " + " and ".join(show(c, 3)[:60] for c in e.pc[-3:]) if e.pc else ""))
        elif len(ctx.samples) < 8:
            ctx.sample("%s: %s[%s] at %s inside %s" % (label, e.obj.name, show(e.idx, 3)[:60], e.where, show(e.detail[1], 3)[:60]))
    ctx.ok("access inside by linear form", n)

def polynomial(ctx, P):
    """Interpolation on a window of given nodes: any length, any order of the distances to the nodes."""
    n = "interpol_poly"
    if n not in P.funcs:
        return
    fd = P.funcs[n]
    cnt = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "int"][0]
    ptrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
    x = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "float"][0]
    for N in range(1, 9 if not ctx.thorough else 16):
        xs, ys = nodes(N, ctx.seed), ordinates(N, ctx.seed)
        for l, k in positions(N, xs, ctx.seed, dense=True):
            vn = Window(xs, ys, [k], ptrs, x)
            orc = Oracle(vn)
            TM.ORACLE = orc
            try:
                r = SC.scenario(P, [(n, {cnt: num(N)})], verbosity="QUIET", init="sym", intrinsics=False, summaries=False, log_all=True, sizes=lambda f, lab, p: num(N))
            finally:
                TM.ORACLE = None
            judge(ctx, r, n)

class Window(At):
    def __init__(self, xs, ys, k, ptrs, x):
        At.__init__(self, xs, ys, k)
        self.ptrs, self.x = ptrs, x
    def element(self, t, arr, idx):
        p = str(arr.args[0]).split(".")[-1] if len(arr.args) == 1 else arr.args[-1]
        for q, tab in ((self.ptrs[0], self.xs), (self.ptrs[1], self.ys)):
            if p == q and 0 <= idx < len(tab):
                return tab[idx]
        return At.element(self, t, arr, idx)
    def scalar(self, name):
        if name.startswith("arg:"):
            return self.k[0]
        return Valnum.scalar(self, name)

def fname(e):
    return e.stack[-1][0].name if e.stack else "?"

def oname(e):
    import re
    return re.sub(r":\d+", "", e.obj.name or "")

def quadrature(ctx, P):
    n = "nodes_weights_gauss_legendre"
    fd = P.funcs[n]
    r = SC.scenario(P, [(n,)], verbosity="QUIET", init="mixed", intrinsics=False, log_all=True, sizes=sizes_of(P, None, {}))
    judge(ctx, r, n)

def tables(ctx):
    P = ctx.program()
    lens = list(range(3, 10)) + [15, 16, 17, 18] if not ctx.thorough else list(range(3, 40))
    for N in lens:
        xs, ys = nodes(N, ctx.seed), ordinates(N, ctx.seed)
        pos = positions(N, xs, ctx.seed, dense=False)
        ks = [k for l, k in pos]
        for n in ("find_pk_lin", "find_pk", "calc_running_sigmad2"):
            overs = [{}]
            if n != "calc_running_sigmad2":
                ip, modes = interp_param(P, n)
                overs = [{ip: v} for v in modes.values()]
            for ov in overs:
                for kk in [[]] + [[k] for k in ks] + [ks[::-1]]:
                    r, v = lookup_run(ctx, n, N, len(kk), At(xs, ys, kk, cut=mpf(1)), ov)
                    judge(ctx, r, n)
