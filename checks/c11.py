"""Special formulas near singular points and in limits.  The extracted integrands and vertices are
numbered inside every special range and compared with what the general formula tends to there: the
perturbation-theory integrals themselves where the general formula is exact (propagators, vertices, A
components), the analytic continuation of the general branch for the two-loop fit.  The deviation must
fall with the distance to the limit at least as fast as the first term the replacement leaves out, stay
below the accuracy of the replacement over the whole range of its argument, and the formula in use must
not lose its digits by cancellation at double precision."""
from checks.onepoint import *
import checks.ptheory as PT
import checks.c13 as C13
from checks.c23 import Columns, pair, NAME, PAIRS, ptpoints

RULE = "deviation of a replacement formula <= K * distance**order, order and K being those of the first neglected term"
ASSUMPTIONS = ["the general branches are exact (C13, C23)", "double precision: rounding is estimated by numbering the formula with 53 bits"]
FLOOR = mpf(10) ** -11          # accuracy of the averages of F4

def flat(tab, y):
    return mpf(1)

def within(ctx, what, got, want, bound, key, text, scale=None):
    d = abs(got - want) / (abs(want) if scale is None else scale)
    ctx.check(what, d <= bound, key, lambda: "%s: %s, the formula it replaces tends to %s (relative deviation %s, allowed %s)" % (text, mpmath.nstr(got, 10), mpmath.nstr(want, 10), mpmath.nstr(d, 3), mpmath.nstr(mpf(bound), 3)))

def rounding(ctx, fun, key, text, tol=mpf("0.01"), hi=None, scale=None):
    hi = fun() if hi is None else hi
    with mpmath.workprec(53):
        lo = fun()
    ctx.check("no loss of digits at double precision", abs(lo - hi) <= tol * (scale or abs(hi)), key, lambda: "%s: cancellation leaves %s of %s at double precision" % (text, mpmath.nstr(lo, 8), mpmath.nstr(hi, 8)))

def s(x):
    return mpmath.nstr(mpf(x), 6)

# -- one-loop propagators

def propagators(ctx):
    for a, b in PAIRS[:1] + PAIRS[3:]:
        C = Columns(ctx, "spectrum_1loop", a, b)
        C.need("gamma1a_1loop")
        k = mpf("0.15")
        def value(x):
            return C.at("gamma1a_1loop", k, x * k, spec=flat) / C.L / (x * k) ** 3 * (2 * mpmath.pi()) ** 3
        pts = [(1 + sg * mpf(d), 8 * mpf(d) ** 3 * (1 - mpmath.log(mpf(d)))) for d in ("0.0099", "0.006", "0.002", "0.0004") for sg in (1, -1)]
        pts += [(mpf(x), 8 * mpf(x) ** -6) for x in ("10.1", "16", "40", "150", "700")]
        # over the whole range
        pts += [(x, mpf("2e-5")) for x in ptpoints(ctx, 12, "c11g1", 0.002, 60, avoid=[(mpf("0.99999"), mpf("1.00001"))])]
        pts += [(mpf(x), mpf("2e-5")) for x in ("0.004", "0.03", "0.15", "0.5", "0.8", "1.2", "1.6", "2.1", "2.6", "3.5", "5", "7", "9.7")]
        pts += [(1 + sg * mpf(d), mpf("2e-5")) for d in ("0.011", "0.03", "0.08") for sg in (1, -1)]
        for x, bound in pts:
            text = "one-loop propagator of %s at q/k = 1%+.4g" % (NAME[a], float(x - 1)) if abs(x - 1) < 0.1 else "one-loop propagator of %s at q/k = %s" % (NAME[a], s(x))
            within(ctx, "special range of the one-loop propagator", value(x), PT.propagator(x)["dt".index(a)], bound + mpf(10) ** -25, "gamma1:%s" % a, text)
            rounding(ctx, lambda: value(x), "gamma1:%s" % a, text, mpf("1e-4") if x > mpf("0.01") else 1)
        for d in ("1e-5", "1e-7", "-1e-6"):
            rounding(ctx, lambda: value(1 + mpf(d)), "gamma1:%s" % a, "one-loop propagator of %s near q=k" % NAME[a], mpf("1e-4"))
        for x in ("300", "3000"):
            rounding(ctx, lambda: value(mpf(x)), "gamma1:%s" % a, "one-loop propagator of %s at q/k = %s" % (NAME[a], x), mpf("1e-4"))

# -- two-loop propagators

def solve(basis, xs, ys):
    n = len(basis)
    A = mpmath.matrix(n, n)
    for i, x in enumerate(xs):
        for j, f in enumerate(basis):
            A[i, j] = f(x)
    c = mpmath.lu_solve(A, mpmath.matrix(ys))
    return lambda x: sum(c[j] * f(x) for j, f in enumerate(basis))

def twoloop(ctx):
    for a, b in PAIRS[:1] + PAIRS[3:]:
        C = Columns(ctx, "spectrum_2loop", a, b)
        C.need("gamma1a_2loop")
        k = mpf("0.13")
        C.need("gamma1a_1loop")
        def column(p, q):
            return pair(C, "gamma1a_2loop", "gamma1a_1loop", k, p * k, q * k) / 2
        def value(y, swap=False):
            """Both momenta far below k, where only their ratio matters."""
            p, q = small * (1 + y), small * (1 - y)
            if swap:
                p, q = q, p
            return column(p, q) * (p * p + q * q) / (p * q * k * k) ** 3 * (2 * mpmath.pi()) ** 6
        small = mpf(10) ** -8
        name = "two-loop propagator of %s" % NAME[a]
        # towards very unequal momenta: a series in 1 - y
        n = 26
        zs = [mpf("0.051") + mpf("0.45") * (1 - mpmath.cos(mpmath.pi() * (2 * i + 1) / (2 * n))) / 2 for i in range(n)]
        f = solve([(lambda z, j=j: z ** j) for j in range(n)], zs, [value(1 - z) for z in zs])
        test = mpf("0.07")
        if abs(f(test) / value(1 - test) - 1) > mpf(10) ** -9:
            ctx.check("branches of the two-loop propagator continue one another", False, "beta:%s" % a, "%s is not one analytic function of the ratio of momenta away from its special ranges" % name)
        for z in ("0.049", "0.03", "0.01", "0.002"):
            for sw in (False, True):
                z = mpf(z)
                within(ctx, "special range of the two-loop propagator", value(1 - z, sw), f(z), z ** 5 / 4 + mpf(10) ** -13, "beta:%s" % a, "%s at |q1-q2|/(q1+q2) = 1 - %s" % (name, s(z)))
        # towards equal momenta: a series in y^2, with logarithms
        n = 7
        basis = [(lambda y, j=j: y ** (2 * j)) for j in range(n)] + [(lambda y, j=j: y ** (2 * j + 4) * mpmath.log(y)) for j in range(n - 2)]
        ys = [mpf("0.0105") * mpf(20) ** (mpf(i) / (len(basis) - 1)) for i in range(len(basis))]
        g = solve(basis, ys, [value(y) for y in ys])
        test = mpf("0.0137")
        if abs(g(test) / value(test) - 1) > mpf(10) ** -8:
            ctx.check("branches of the two-loop propagator continue one another", False, "beta:%s" % a, "%s is not one analytic function of the ratio of momenta away from its special ranges" % name)
        for y in ("0.0097", "0.004", "0.001", "0.0001"):
            y = mpf(y)
            within(ctx, "special range of the two-loop propagator", value(y), g(y), 60 * y ** 4 * (1 - mpmath.log(y)) + mpf(10) ** -13, "beta:%s" % a, "%s at |q1-q2|/(q1+q2) = %s" % (name, s(y)))
        for z in ("0.2", "0.08", "0.052", "0.045", "1e-3", "1e-5"):
            rounding(ctx, lambda: column(mpf("0.6") - mpf("0.3") * mpf(z), mpf("0.3") * mpf(z)), "beta:%s" % a, "%s at |q1-q2|/(q1+q2) = 1 - %s" % (name, z), mpf("1e-4"))

# -- components of A

def aterm(ctx):
    cols = C13.columns_of(ctx, "A_1loop")
    full = (mpf(-1), mpf(1))
    def pick(*on):
        return lambda tab, y: mpf(1) if any(C13.hits(y, z) for z in on) else mpf(0)
    for xs in ("0.00003", "0.00009", "0.0003", "0.02", "0.17", "0.3", "0.94", "0.9996", "1.0007", "1.05", "3.1", "8", "40", "90", "104", "130", "800"):
        k, x = mpf("80.1"), mpf(xs)
        q = x * k
        got, want, size = [mpf(0)] * 5, [mpf(0)] * 5, [mpf(0)] * 5
        if mpf("0.5") < x < 2:      # a finite sum of powers of |k-q|: nodes in its logarithm
            l0, l1 = mpmath.log(abs(1 - x)), mpmath.log(1 + x)
            nodes = [((l0 + l1 + (l1 - l0) * t) / 2, w * (l1 - l0) / 2) for t, w in C13.gauss(24)]
            nodes = [((1 + x * x - mpmath.exp(2 * t)) / (2 * x), w * mpmath.exp(2 * t) / x) for t, w in nodes]
        else:
            nodes = C13.gauss(20)
        for m, w in nodes:
            X = mpmath.sqrt(1 + x * x - 2 * x * m)
            y, M = X * k, (1 - x * m) / X
            u, v = PT.A_density(k, q, m, "qk")[0], PT.A_density(k, y, M, "kr")[0]
            for c in range(5):
                g = cols[c].at(k, q, m, pick(k, q), full) + cols[c].at(k, y, M, pick(k, q), full) * (q / y) ** 3
                t = u[c] + v[c] * (q / y) ** 3
                got[c] += w * g
                want[c] += w * t
                size[c] += w * abs(t)
        for c in range(5):
            tol = mpf(10) ** -14 if x < mpf("0.01") or x > 60 else mpf(10) ** -9
            within(ctx, "special range of a component of A", got[c], want[c], tol, "A:%d" % c, "component %d of A at q/k = %s, averaged over the direction" % (c, xs), scale=max(abs(want[c]), size[c] * x * mpf(10) ** -3))
        if x < 1 or x > 50:
            def one(c):
                near = lambda tab, y: mpf(1) if min(abs(y / k - 1), abs(y / q - 1)) < mpf(10) ** -9 else mpf(0)
                return cols[c].at(k, q, mpf("0.3"), near, full)
            size = max(abs(one(c)) for c in range(5))
            for c in range(5):
                rounding(ctx, lambda: one(c), "A:%d" % c, "component %d of A at q/k = %s" % (c, xs), mpf("0.001"), scale=size)

# -- loop-corrected vertices

def vertices(ctx):
    vert = C13.vertices(ctx)
    L = mpmath.log(QMAX / QMIN)
    def value(a, k, q):
        e, n = vert["2" + a]
        z = OnePoint(ctx.seed, k[0], mpmath.log(q / QMIN) / L, mpf("0.5"), flat)
        for j, y in enumerate(k):
            z.env[sym("leg", str(j))] = y
        return z(e) / L / q ** 3 * (2 * mpmath.pi()) ** 3
    n = [0]
    def go(what, k, q, bound, oracle=True, tol=mpf("0.01"), floor=FLOOR):
        k, q = [mpf(x) for x in k], mpf(q)
        want = PT.vertex(*k, q) if oracle else (None, None)
        for a, w in zip("dt", want):
            text = "one-loop vertex of %s with wavenumbers (%s) at q=%s" % (NAME[a], ", ".join(s(x) for x in k), s(q))
            v = value(a, k, q)
            if w is not None:
                within(ctx, what, v, w, bound + floor, "gamma2%s:%s" % (a, what), text)
            # where the general formula is used, and one time in four elsewhere
            n[0] += 1
            if tol and (not oracle or "whole" in what or n[0] % 4 == 0 or ctx.thorough):
                rounding(ctx, lambda: value(a, k, q), "gamma2%s:digits" % a, text, tol, hi=v)
    r = lambda *t: mpf(h01(ctx.seed, "c11v", *t))
    many = 3 if ctx.thorough else 1
    for i in range(3 * many):
        # a triangle with no short side, with unequal or nearly equal first sides
        k = [mpf(1), mpf("1.06") + r(i, 0) * mpf("0.7"), mpf(0)] if i % 3 < 2 else [mpf(1), 1 + (r(i, 0) - mpf("0.5")) * mpf("0.03"), mpf(0)]
        k[2] = k[1] - 1 + (2 - mpf("0.6")) * (mpf("0.35") + mpf("0.6") * r(i, 1))
        if i % 3 == 1:
            k[0], k[1] = k[1], k[0]
        top, bot = max(k), min(k)
        # large and small q: two orders of magnitude
        for e in ("0.098", "0.02", "0.006"):
            e = mpf(e)
            go("vertex at small loop momentum", k, bot * e, 8 * e ** 6, floor=mpf(10) ** -14)
            go("vertex at large loop momentum", k, top / e, 4 * e ** 4)
        for e in ("1e-3", "1e-4"):
            go("vertex at small loop momentum", k, bot * mpf(e), 0, oracle=False)
            go("vertex at large loop momentum", k, top / mpf(e), 0, oracle=False)
        # ratios around the ends of these ranges
        for e in (mpf("0.11"), mpf("0.15") + r(i, 2) * mpf("0.2"), mpf("0.35") + r(i, 3) * mpf("0.6")):
            go("vertex over the whole range", k, bot * e, mpf("3e-4"))
            go("vertex over the whole range", k, top / e, mpf("3e-4"))
    # q close to one of the sides
    for k, acc in (([1, "1.3", "1.9"], "1e-7"), (["1.25", "0.8", "0.7"], "1e-4"), (["0.9", "0.904", "1.1"], "3e-5"), (["0.8", "1.3", "1.1"], "1e-6")):
        for i in range(3):
            for d in ("0.0009", "-0.0004", "0.0013", "-0.004") if i % 2 or ctx.thorough else ("-0.0009", "0.0004", "0.02"):
                go("vertex near a coinciding momentum", k, mpf(k[i]) * (1 + mpf(d)), mpf(acc))
            for d in ("1e-5", "-1e-9"):
                # the kernel is continuous
                q0, q1 = mpf(k[i]) * (1 + mpf("0.0003")), mpf(k[i]) * (1 + mpf(d))
                kk = [mpf(x) for x in k]
                for a in "dt":
                    w = value(a, kk, q0)
                    within(ctx, "vertex near a coinciding momentum", value(a, kk, q1), w, mpf("0.05"), "gamma2%s:continuous" % a, "one-loop vertex of %s with wavenumbers (%s) at q = side %d * (1 + %s)" % (NAME[a], ", ".join(s(x) for x in kk), i, d))
                go("", k, q1, 0, oracle=False)
    # nearly equal first two sides
    for d, k3, q in (("0.019", "1.4", "1.7"), ("-0.012", "0.7", "0.4"), ("0.003", "1.1", "0.8"), ("0.0001", "1.3", "3.1"), ("0.0000001", "0.5", "2"), ("0.03", "1.2", "1.6"), ("-0.05", "0.8", "0.5"), ("0.018", "1.7", "0.19"), ("0.01", "0.9", "7")):
        go("vertex with nearly equal sides", [1, 1 + mpf(d), k3], mpf(q), mpf("3e-6"))
    for k3, q in (("0.02", "0.9"), ("0.03", "1.9"), ("0.02", "0.5")):
        go("vertex with nearly equal sides", [1, "1.01", k3], mpf(q), mpf("2e-5"))
    # one of the first two sides much shorter than q
    for j, (u, v) in enumerate((("0.4", "1.7"), ("-0.5", "3.3"), ("0.7", "2.4"), ("-0.3", "5"))):
        u, v = mpf(u), mpf(v)
        for e in ("0.015", "0.005", "0.0006"):
            e = mpf(e)
            k = [mpf(1), e, 1 + e * u]
            if j % 2:
                k[0], k[1] = k[1], k[0]
            go("vertex with a short first or second side", k, v, 80 * e ** 3)
        for e in (v / 49, v / 30):
            if v / e < 50:
                k = [mpf(1), e, 1 + e * u]
                go("vertex over the whole range", k if j % 2 else [k[1], k[0], k[2]], v, mpf("3e-4"))
    # a third side much shorter than q
    for u, v in (("0.4", "3.3"), ("-0.6", "6"), ("0.7", "8.5")):
        u, v = mpf(u), mpf(v)
        for f, bound in (("105", "1e-4"), ("150", "2e-5"), ("500", "2e-8")):
            e = v / mpf(f)
            k = [mpf(1), 1 + u * e, e]
            if abs(u * e) < mpf("0.021"):
                k[1] = 1 + mpf("0.022") if e > mpf("0.03") else k[1]
            go("vertex with a short third side", k, v, mpf(bound), tol=mpf("0.05"))
        for f in (80, 30):
            go("vertex over the whole range", [mpf(1), 1 + u * v / f, v / f], v, mpf("3e-4"), tol=mpf("0.05"))

# -- damping

def damping(ctx):
    cols = C13.columns_of(ctx, "A_2loop")
    k, x, mu = mpf("0.3"), mpf("1.4"), mpf("-0.2")
    q, r, m = C13.momenta(k, x, mu)
    tot = (k * k + q * q + r * r) / 2
    n = 0
    for c, g in sorted(cols.items()):
        pt = [mpf("0.37"), mpf("0.61"), mpf("0.23"), mpf("0.5"), mpf("0.3")]
        def value(E):
            return g.vn(k, q, mpf("0.4"), flat, sig=lambda kk, cut: mpf(E) / tot, pt=pt)(g.e)
        ref = value(1)
        if ref == 0:
            continue
        n += 1
        for E in ((4, 12, 25) if ctx.thorough else (25,)):
            v = value(E)
            ctx.check("damped terms not cut early", v != 0 and abs(v) <= abs(ref) * 10 ** 6 * mpmath.exp(1 - E), "damping:A2:%d" % c, "component %d of A at 2 loops does not follow the exponential damping at an exponent of %d" % (c, E))
        for E in ((300, 400) if ctx.thorough else (400,)):
            v = value(E)
            ctx.check("strongly damped terms vanish", abs(v) <= abs(ref) * mpf(10) ** -20, "damping:A2:%d" % c, "component %d of A at 2 loops does not vanish at an exponent of %d" % (c, E))
    if not n:
        raise AnalysisError("no component of A at 2 loops found")

def run(ctx):
    propagators(ctx)
    twoloop(ctx)
    aterm(ctx)
    vertices(ctx)
    damping(ctx)
