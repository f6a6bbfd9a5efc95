"""Symbolic interpretation of the bodies of the table lookup and of the running dispersion, for each
table length of a range and each position of the argument relative to the nodes; every path's value
is a formula in the tabulated numbers, compared by value numbering with the formula it must be."""
from checks.tables import *
from checks.layer import *
from checks.c14 import Window

RULE = "node: P(k_i) = P_i; inside: chord (linear), parabola reproduced (polynomial); outside: power law continued, no jump at the ends; dispersion = integral of the chords up to the cutoff / (6 pi^2)"
ASSUMPTIONS = ["real arithmetic", "tables with increasing wavenumbers and positive values", "table lengths analysed: see coverage; the routine treats longer tables with the same code"]
TINY = mpf(10) ** -40

def lengths(ctx):
    return list(range(3, 12)) + [15, 16, 17, 18, 19, 33] if not ctx.thorough else list(range(3, 41)) + [64, 100]

def run(ctx):
    P = ctx.program()
    for N in lengths(ctx):
        xs, ys = nodes(N, ctx.seed), ordinates(N, ctx.seed)
        for n in ("find_pk_lin", "find_pk"):
            ip, modes = interp_param(P, n)
            for nm, iv in modes.items():
                lookup(ctx, n, N, xs, ys, ip, nm, iv)
        dispersion(ctx, N, xs, ys)
    windows(ctx)
    python(ctx)
    ctx.sample("lengths of table: %s" % lengths(ctx))

def go(ctx, n, N, xs, ys, k, over):
    """The value at ordinates ys, as a function of other ordinates."""
    r, v = lookup_run(ctx, n, N, 1, At(xs, ys, [k]), over)
    return v[0]

def at(v, xs, ys, k, cut=None):
    return At(xs, ys, [k], cut=cut)(v)

def lookup(ctx, n, N, xs, ys, ip, nm, iv):
    over = {ip: iv}
    e = mpf("-2.5") + h01(ctx.seed, "e") * 2
    line = [mpf(2) + mpf(3) * x for x in xs]
    parab = [mpf(2) + mpf(3) * x + mpf(5) * x * x for x in xs]
    plaw = [mpf("1.7") * x ** e for x in xs]
    for lab, k in positions(N, xs, ctx.seed, dense=N <= 19):
        v = go(ctx, n, N, xs, ys, k, over)
        what = "%s (%s interpolation, table of %d) %s" % (n, nm, N, lab)
        def key(x):
            return "%s:%s:%s:%s" % (x, n, nm, lab.split()[0])
        if lab.startswith("node"):
            i = int(lab.split()[1])
            ctx.check("value at a node", close(at(v, xs, ys, k), ys[i]), key("node"), "%s is not the tabulated value: %s instead of %s" % (what, mpmath.nstr(at(v, xs, ys, k), 8), mpmath.nstr(ys[i], 8)))
        elif lab.startswith("between"):
            i = int(lab.split()[1])
            if nm == "lin":
                c = ys[i] + (k - xs[i]) / (xs[i + 1] - xs[i]) * (ys[i + 1] - ys[i])
                ctx.check("value on the chord", close(at(v, xs, ys, k), c), key("chord"), "%s is not on the chord between the neighbouring nodes: %s instead of %s" % (what, mpmath.nstr(at(v, xs, ys, k), 8), mpmath.nstr(c, 8)))
            ctx.check("straight line reproduced", close(at(v, xs, line, k), 2 + 3 * k), key("line"), "%s: a straight line is not reproduced" % what)
            if nm == "poly":
                ctx.check("parabola reproduced", close(at(v, xs, parab, k), 2 + 3 * k + 5 * k * k), key("parabola"), "%s: a parabola is not reproduced" % what)
        else:
            ctx.check("power law continued", close(at(v, xs, plaw, k), mpf("1.7") * k ** e), key("power"), "%s: a power law is not continued: %s instead of %s" % (what, mpmath.nstr(at(v, xs, plaw, k), 8), mpmath.nstr(mpf("1.7") * k ** e, 8)))
    for lab, k, y in (("just below the first node", xs[0] * (1 - TINY), ys[0]), ("just above the last node", xs[-1] * (1 + TINY), ys[-1]), ("just above the first node", xs[0] * (1 + TINY), ys[0]), ("just below the last node", xs[-1] * (1 - TINY), ys[-1])):
        v = go(ctx, n, N, xs, ys, k, over)
        ctx.check("no jump at an end", close(at(v, xs, ys, k), y), "jump:%s:%s:%s" % (n, nm, lab), "%s (%s interpolation, table of %d) jumps %s" % (n, nm, N, lab))

def dispersion(ctx, N, xs, ys):
    P = ctx.program()
    for cut in (mpf("0.5"), mpf("1.3")):
        for lab, k in positions(N, xs, ctx.seed + 1, dense=N <= 19):
            kk = k / cut
            r, v = lookup_run(ctx, "calc_running_sigmad2", N, 1, At(xs, ys, [kk], cut=cut))
            got = at(v[0], xs, ys, kk, cut)
            tot = mpf(0)
            for i in range(N - 1):
                hi = min(k, xs[i + 1])
                if hi <= xs[i]:
                    break
                yh = ys[i] + (hi - xs[i]) / (xs[i + 1] - xs[i]) * (ys[i + 1] - ys[i])
                tot += (hi - xs[i]) * (ys[i] + yh) / 2
            exp = tot / (6 * mpmath.pi() ** 2)
            ctx.check("running dispersion", close(got, exp), "dispersion:%s" % lab.split()[0], "calc_running_sigmad2 (table of %d, cutoff %s) is not the integral of the table up to the cutoff / 6 pi^2: %s instead of %s" % (N, lab, mpmath.nstr(got, 8), mpmath.nstr(exp, 8)))

class Chord(At):
    def __init__(self, vals):
        At.__init__(self, [], [], [])
        self.vals = vals
    def scalar(self, name):
        return self.vals[str(name).split(":")[-1]]

class Win(Window):
    def scalar(self, name):
        return self.k[0] if str(name).split(":")[-1] == self.x else Window.scalar(self, name)

def windows(ctx):
    """The interpolation formulas themselves: the polynomial through all the nodes, and the chord."""
    P = ctx.program()
    n = "interpol_poly"
    if n in P.funcs:
        fd = P.funcs[n]
        cnt = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "int"][0]
        ptrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
        x = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "float"][0]
        for N in range(1, 9 if not ctx.thorough else 14):
            xs, ys = nodes(N, ctx.seed), ordinates(N, ctx.seed)
            for lab, k in positions(N, xs, ctx.seed):
                vn = Win(xs, ys, [k], ptrs, x)
                TM.ORACLE = Oracle(vn)
                try:
                    r = SC.scenario(P, [(n, {cnt: num(N)})], verbosity="QUIET", init="sym", intrinsics=False, summaries=False, log_all=True, sizes=lambda f, l, p: num(N))
                finally:
                    TM.ORACLE = None
                ctx.note(r)
                got = vn(r.rets[0])
                want = mpf(0)
                for i in range(N):
                    f = ys[i]
                    for j in range(N):
                        if j != i:
                            f = f * (k - xs[j]) / (xs[i] - xs[j])
                    want += f
                ctx.check("polynomial through the nodes", abs(got - want) <= mpf(10) ** -30 * max(abs(want), max(ys)), "polynomial:%s" % lab.split()[0], "interpol_poly on %d nodes %s is not the polynomial through them: %s instead of %s" % (N, lab, mpmath.nstr(got, 8), mpmath.nstr(want, 8)))
    n = "interpol_lin"
    if n in P.funcs:
        fd = P.funcs[n]
        r = SC.scenario(P, [(n, {})], verbosity="QUIET", init="sym", intrinsics=False, summaries=False, log_all=True)
        for i in range(6):
            a = [mpf(1) + 3 * h01(ctx.seed, "chord", i, j) for j in range(5)]
            got = Chord(dict(zip(fd.params, a)))(r.rets[0])
            want = a[3] + (a[0] - a[1]) / (a[2] - a[1]) * (a[4] - a[3])
            ctx.check("chord through two points", close(got, want), "chord", "interpol_lin(x, x1, x2, y1, y2) is not the chord: %s instead of %s" % (mpmath.nstr(got, 8), mpmath.nstr(want, 8)))

def attempted(ctx, key, text, f):
    try:
        return f()
    except PyRaise as e:
        ctx.check("lookup defined", False, key, "%s raises %s" % (text, e))
        return None
    finally:
        ctx.ok("lookup through the Python layer")

def returned(s, m, t):
    """(record, position) of the library call since m whose output is the term t."""
    if not (isinstance(t, T) and t.op == "sym" and t.args[0] == "out"):
        return None, 0
    for rec in s.lib.log[m:]:
        if int(t.args[2]) in rec.outs:
            return rec, int(t.args[3])
    return None, 0

def python(ctx):
    """The Python methods hand the library the wavenumbers, the interpolation and the cutoff asked for,
    on the table of the object, and return what it computed."""
    P = ctx.program()
    lows = {}
    for meth in ("find_pk_lin", "calc_running_sigmad2"):
        fd = P.funcs[meth]
        arrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
        opt = [p for p, t in zip(fd.params, fd.ty.params) if t.kind != "ptr"][-1]
        if meth == "find_pk_lin":
            ip, modes = interp_param(P)
            asks = [({}, modes["poly"]), ({"interpol": "poly"}, modes["poly"]), ({"interpol": "lin"}, modes["lin"])]
        else:
            c = S(sym("cut"))
            asks = [({}, num(Fraction(1, 2))), ({"uvcutoff": c}, c.t), ({"uvcutoff": S(num(Fraction(13, 10)))}, num(Fraction(13, 10)))]
        for cls in ["PyRegPT"] + [f.cls for f in family_table(ctx)]:
            for how, q in (("array", grid("kout", 3)), ("scalar", S(sym("ordered", "kout", "0"))), ("list", [S(sym("ordered", "kout", str(i))) for i in (2, 0, 1)])):
                for kw, want in asks:
                    text = "%s.%s(%s%s)" % (cls, meth, how, "".join(", %s=%s" % (a, b if isinstance(b, str) else "given") for a, b in kw.items()))
                    key = "python:%s" % meth
                    s = Session(ctx)
                    o = s.new(cls)
                    k, pk = s.lin("lin", 4)
                    s.do(o, "set_pk_lin", k, pk)
                    m = len(s.lib.log)
                    v = attempted(ctx, key + ":raises", text, lambda: s.do(o, meth, q, **kw))
                    if v is None:
                        continue
                    ks = list(np.atleast_1d(np.asarray(q, object)).ravel())
                    vs = list(np.atleast_1d(np.asarray(v, object)).ravel())
                    ctx.check("one value per wavenumber", len(vs) == len(ks), key + ":size", "%s returns %d values for %d wavenumbers" % (text, len(vs), len(ks)))
                    for a, b in zip(ks, vs):
                        rec, i = returned(s, m, lift(b).t)
                        if not ctx.check("value the library computed", rec is not None and rec.func == meth, key + ":value", "%s does not return what the library computed" % text):
                            continue
                        inp = rec.contents.get(("arg", arrs[0]), [])
                        ctx.check("wavenumber looked up", i < len(inp) and lift(inp[i]).t is lift(a).t, key + ":k", "%s looks up other wavenumbers than those given" % text)
                        got = rec.params[opt]
                        got = got[1] if isinstance(got, tuple) else got
                        ctx.check("option handed to the library", lift(got).t is want, key + ":" + opt, "%s hands %s=%s to the library" % (text, opt, show(lift(got).t, 2)))
    for meth, args in (("interpol_poly", None), ("interpol_lin", None)):
        s = Session(ctx, light=True)
        if not has(s.it, s.new("PyRegPT"), meth):
            continue
        fd = P.funcs[meth]
        for n in (2, 3, 5):
            o = s.new("PyRegPT")
            x, tx, ty = S(sym("x")), grid("tx", n), symarr("ty", n)
            m = len(s.lib.log)
            v = attempted(ctx, "python:%s:raises" % meth, "PyRegPT.%s" % meth, lambda: s.do(o, meth, x, tx, ty))
            if v is None:
                continue
            t = lift(v).t
            recs = [r for r in s.lib.log[m:] if r.func == meth]
            ok = len(recs) == 1 and t.op == "sym" and t.args[:2] == ("ret", meth)
            if not ctx.check("value the library computed", ok, "python:%s" % meth, "PyRegPT.%s does not return what the library computes" % meth):
                continue
            got = [recs[0].params[p] for p in fd.params]
            got = [g[1] if isinstance(g, tuple) else g for g in got]
            want = [x, tx, ty, n] if meth == "interpol_poly" else [x, tx[0], tx[-1], ty[0], ty[-1]]
            same = all(same_arrays(g, w) if isinstance(w, np.ndarray) else lift(g).t is lift(w).t for g, w in zip(got, want))
            ctx.check("arguments of the interpolation", same, "python:%s:args" % meth, "PyRegPT.%s(x, tabx, taby) with %d nodes hands other arguments to the library" % (meth, n))
