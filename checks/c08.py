"""Symmetry of the spectra in their two fields.  The columns of the computations that take two fields are
extracted for the four pairs and numbered at the same points: exchanging the fields must exchange the two
sets of propagator columns and leave the others unchanged, the propagators of one field must not depend
on the other field, and the integrands of the auto and cross terms must be products of the same vertices
of one field each: squares and products of the auto terms equal those of the cross term.  The Python
spectrum is interpreted with the two sets of propagator columns exchanged."""
from checks.onepoint import *
from checks.layer import *
from checks.c13 import PyNum
from checks.c23 import Columns, PAIRS, NAME, ptpoints, spec0
from checks.c24 import prepared, holders

RULE = "columns(b,a) = columns(a,b) with the propagators exchanged; auto and cross integrands are products of the same factors"
ASSUMPTIONS = ["real arithmetic"]
TOL = mpf(10) ** -20

def swapped(n):
    """Column holding the same propagator of the other field."""
    if n.startswith("gamma1a"):
        return "gamma1b" + n[7:]
    if n.startswith("gamma1b"):
        return "gamma1a" + n[7:]
    return n

def columns_of(ctx, P, f):
    out = {}
    for fl in flags(P, f):
        v = list(fl.values())
        r = ctx.run(linear_calls(ctx, P, f, fl), (), verbosity=None, init="mixed")
        out[v[0], v[1]] = {n: e for (n, c), e in values(ctx, r, f).items()}
    return out

def exchange(ctx, P, f):
    cols = columns_of(ctx, P, f)
    for seed in points(ctx, 3):
        num = {ab: {n: Named(seed)(e) for n, e in c.items()} for ab, c in cols.items()}
        for (a, b), c in num.items():
            for n, x in c.items():
                m = swapped(n)
                if not ctx.check("counterpart of a column", m in c, "counterpart:%s:%s" % (f, n), "%s: column %s has no counterpart %s" % (f, n, m)):
                    continue
                y = num[b, a][m]
                ctx.check("exchange of the fields", close(x, y, TOL), "exchange:%s:%s" % (f, n),
                          lambda: "%s: column %s of (%s,%s) is %s, column %s of (%s,%s) is %s" % (f, n, a, b, mpmath.nstr(x, 8), m, b, a, mpmath.nstr(y, 8)))
                if m != n:
                    for o in ("delta", "theta"):
                        z = num[(a, o) if n.startswith("gamma1a") else (o, b)][n]
                        ctx.check("propagator of one field", close(x, z, TOL), "other:%s:%s" % (f, n),
                                  lambda: "%s: column %s of (%s,%s) is %s, with the other field %s it is %s" % (f, n, a, b, mpmath.nstr(x, 8), o, mpmath.nstr(z, 8)))
    ctx.sample("%s: columns %s for the four pairs" % (f, ", ".join(sorted(list(cols.values())[0]))))

def products(ctx, f):
    C = {p: Columns(ctx, f, *p) for p in PAIRS}
    names = C["d", "t"].cols
    seen = {}
    cl = lambda x, y: abs(x - y) <= mpf(10) ** -15 * max(abs(x), abs(y))
    for i, (x, v) in enumerate(zip(ptpoints(ctx, 3, "c08", 0.2, 4), ("0.37", "0.71", "0.13", "0.9", "0.55", "0.05", "0.3", "0.8", "0.45"))):
        k = mpf("0.17") + mpf("0.06") * i
        t = [h01(ctx.seed, "cube", i, j) for j in range(5)]
        t[0] = t[3] = mpf("0.5") + t[3] / 8
        def at(n, p):
            return C[p].at(n, k, x * k, mpf(v), pt=t)
        where = "k=%s q/k=%s" % (mpmath.nstr(k, 3), mpmath.nstr(x, 4))
        got = {}
        for n in names:
            if n.startswith("pk_gamma"):
                got[n] = {p: at(n, p) for p in PAIRS}
                seen[n] = seen.get(n, 0) + (got[n]["d", "t"] != 0)
        # tree levels and squares of the loop-corrected vertices
        for n, g in got.items():
            if n == "pk_gamma2_tree_1loop":
                continue
            ctx.check("auto and cross terms", cl(g["d", "d"] * g["t", "t"], g["d", "t"] ** 2), "product:%s:%s" % (f, n), "%s at %s: the integrands of %s for delta-delta and theta-theta do not multiply to the square of that for delta-theta" % (f, where, n))
            ctx.check("auto terms are squares", g["d", "d"] >= 0 and g["t", "t"] >= 0, "square:%s:%s" % (f, n), "%s at %s: %s of an auto spectrum is a square, but negative" % (f, where, n))
        n0, n1, n2 = "pk_gamma2_tree_tree", "pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop"
        if n1 in got and n2 in got:
            g0, g1, g2 = got[n0], got[n1], got[n2]
            for p in (("d", "d"), ("t", "t")):
                ctx.check("auto and cross terms", cl(g1[p] ** 2, 4 * g0[p] * g2[p]), "mixed:%s:%s" % (f, "".join(p)), "%s at %s: the mixed term of the %s auto spectrum is not twice the product of its tree and 1-loop vertices" % (f, where, NAME[p[0]]))
            want = g0["d", "d"] * g2["t", "t"] + g0["t", "t"] * g2["d", "d"] + 2 * g0["d", "t"] * g2["d", "t"]
            ctx.check("auto and cross terms", cl(g1["d", "t"] ** 2, want), "mixed:%s:dt" % f, "%s at %s: the mixed term of the cross spectrum is not the sum of the products of tree and 1-loop vertices of either field" % (f, where))
            # signs
            s = mpmath.sign
            ctx.check("auto and cross terms", cl(g1["d", "d"] * g1["t", "t"], 4 * g0["d", "t"] * g2["d", "t"]), "mixed:%s:sign" % f, "%s at %s: the mixed auto terms do not multiply to those of the cross spectrum" % (f, where))
    for n, m in seen.items():
        if not m:
            raise AnalysisError("%s of %s is zero at every point" % (n, f))
    ctx.stats["two-field computations"] += 1

def python(ctx):
    n = 0
    for cls, c in holders(ctx):
        s, o, fields, sh = prepared(ctx, cls)
        if "gamma1a_1loop" not in fields:
            continue
        D, sd = S(sym("user", "D")), S(sym("user", "sigmad2"))
        for kw in ({}, dict(Dgrowth=D), dict(Dgrowth=D, sigmad2=sd)):
            s, o, fields, sh = prepared(ctx, cls)
            x = np.asarray(s.do(o, "pk", **kw), object)
            old = {m: s.get(o, m) for m in fields}
            for m in fields:
                s.set(o, m, old[swapped(m)])
            y = np.asarray(s.do(o, "pk", **kw), object)
            for seed in points(ctx, 2):
                vn = PyNum(seed)
                ok = x.shape == y.shape and all(close(vn(lift(p).t), vn(lift(q).t), TOL) for p, q in zip(x.ravel(), y.ravel()))
                ctx.check("spectrum with the fields exchanged", ok, "pk:%s" % cls, "%s.pk changes when the propagators of the two fields are exchanged" % cls)
            n += 1
    if n < 6:
        raise AnalysisError("no spectrum with two sets of propagators")

def run(ctx):
    P = ctx.program()
    n = 0
    for f in ctx.families():
        if len(flags(P, f)) == 4:
            n += 1
            exchange(ctx, P, f)
            products(ctx, f)
    if n < 2:
        raise AnalysisError("only %d computations take two fields" % n)
    python(ctx)
