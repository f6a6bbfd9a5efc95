"""Symmetries and limits of the kernels.  The perturbation-theory kernels are extracted as formulas of
their wavevectors, on every arm of their conditionals, and numbered at wavevectors in general and in
special position: permutations and rescalings must leave them unchanged; they must vanish with the
square of the total wavevector; along one direction they must be those of one-dimensional motion,
(sum)^n / (n! product); a soft wavevector must factor out as Galilean invariance requires.  The
loop-corrected vertices are numbered with their first two wavenumbers exchanged, on all their arms; the
bias columns in the limit of a mode much larger than the internal ones."""
from checks.onepoint import *
import checks.c13 as C13
from checks.c23 import Columns, NAME
import checks.ptheory as PT

RULE = "kernel(permuted, rescaled) = kernel; kernel = O(total wavevector squared); collinear kernel = total^n/(n! product); soft limit = k.q/(n q^2) * lower kernel; vertex(k2,k1,k3) = vertex(k1,k2,k3)"
ASSUMPTIONS = ["real arithmetic"]
TOL = mpf(10) ** -20
EN = {"d": "DELTA", "t": "THETA"}

class VecNum(Valnum):
    """Numbers of a kernel whose arguments are vectors or scalars."""
    def __init__(self, given):
        Valnum.__init__(self, 1)
        self.given = given
    def element(self, t, arr, idx):
        return self.given[gname(arr).split(".")[-1]][int(idx)]

def vec_kernels(ctx):
    """{(function, field): (term, names of the vector arguments)} of the kernels of wavevectors."""
    P = ctx.program()
    en = {}
    for u in P.units.values():
        en.update(u.enums)
    out = {}
    for n in ("F2_sym_full", "F3_sym"):
        fd = P.funcs.get(n)
        if fd is None:
            continue
        ps = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
        fl = [p for p, t in zip(fd.params, fd.ty.params) if t.kind != "ptr"]
        if len(fl) != 1:
            continue
        for a in "dt":
            r = ctx.run([("set_pk_lin",), (n, {fl[0]: num(en[EN[a]])})], (), verbosity=None, init="mixed")
            e = r.rets[1]
            out[n, a] = (lambda v, e=e, ps=ps: VecNum(dict(zip(ps, v)))(e)), len(ps)
    return out

def scalar_kernels(ctx):
    """Kernels of two wavevectors given by invariants, as functions of the two wavevectors."""
    P = ctx.program()
    en = {}
    for u in P.units.values():
        en.update(u.enums)
    inv = {"F2_sym_fast": lambda p, q: (PT.dot(p, p), PT.dot(q, q), PT.dot(p, q)),
           "F2_sym": lambda p, q: (norm3(p), norm3(q), PT.dot(p, q) / norm3(p) / norm3(q)),
           "gamma2_tree": lambda p, q: (norm3(p), norm3(q), norm3(plus(p, q)))}
    out = {}
    for n, f in inv.items():
        fd = P.funcs.get(n)
        if fd is None:
            continue
        ws = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "float"]
        fl = [p for p in fd.params if p not in ws]
        if len(ws) != 3 or len(fl) != 1:
            continue
        for a in "dt":
            over = {p: sym("leg", str(i)) for i, p in enumerate(ws)}
            over[fl[0]] = num(en[EN[a]])
            e = ctx.run([(n, over)], (), verbosity=None, init="mixed").rets[0]
            def value(v, e=e, f=f):
                z = VecNum({})
                for i, x in enumerate(f(*v)):
                    z.env[sym("leg", str(i))] = x
                return z(e)
            out[n, a] = value, 2
    return out

def plus(*vs):
    return tuple(sum(c) for c in zip(*vs))

def times(s, v):
    return tuple(s * c for c in v)

def norm3(v):
    return mpmath.sqrt(PT.dot(v, v))

def kernels(ctx):
    K = dict(vec_kernels(ctx))
    K.update(scalar_kernels(ctx))
    if len([n for n, a in K if K[n, a][1] == 2]) < 2 or not [1 for n, a in K if K[n, a][1] == 3]:
        raise AnalysisError("kernels of two and of three wavevectors not found")
    r = lambda *t: 2 * mpf(h01(ctx.seed, "c10", *t)) - 1
    many = 12 if ctx.thorough else 4
    import itertools
    two = [(n, a) for n, a in sorted(K) if K[n, a][1] == 2]
    soft = {}
    for n, a in sorted(K):
        fun, m = K[n, a]
        label = "%s kernel of order %d (%s)" % (NAME[a], m, n)
        key = "kernel:%s:%s" % (n, a)
        for i in range(many):
            # vectors of comparable and of very different lengths
            v = [times(mpf(10) ** (0 if i % 2 else 2 * r(i, j, "scale")), tuple(r(i, j, c) for c in range(3))) for j in range(m)]
            x = fun(v)
            for p in itertools.permutations(v):
                y = fun(p)
                ctx.check("permutation of the wavevectors", close(x, y, TOL), key, lambda: "%s is %s, with its wavevectors permuted it is %s" % (label, mpmath.nstr(x, 8), mpmath.nstr(y, 8)))
            for s in (mpf("1e-18"), mpf("1e-4"), mpf("0.3"), mpf("700")):
                y = fun([times(s, u) for u in v])
                ctx.check("rescaling of the wavevectors", close(x, y, TOL), key, lambda: "%s is %s, with its wavevectors rescaled by %s it is %s" % (label, mpmath.nstr(x, 8), mpmath.nstr(s, 4), mpmath.nstr(y, 8)))
            y = fun([times(-1, u) for u in v])
            ctx.check("rescaling of the wavevectors", close(x, y, TOL), key, lambda: "%s is not invariant under reflection" % label)
            # reflection and exchange of the axes
            y = fun([(u[2], -u[0], u[1]) for u in v])
            ctx.check("rotation of the wavevectors", close(x, y, TOL), key, lambda: "%s is %s, with its wavevectors rotated it is %s" % (label, mpmath.nstr(x, 8), mpmath.nstr(y, 8)))
            # total wavevector going to zero
            w = [tuple(r(i, j, c, "sum") for c in range(3)) for j in range(m - 1)]
            last = times(-1, plus(*w))
            d = tuple(r(i, c, "dir") for c in range(3))
            ref = max(abs(x), mpf(1))
            z = fun(w + [last])
            ctx.check("kernel at zero total wavevector", abs(z) <= mpf(10) ** -25, key, lambda: "%s does not vanish when its wavevectors sum to zero: %s" % (label, mpmath.nstr(z, 8)))
            ys = [fun(w + [plus(last, times(mpf(10) ** -e, d))]) / mpf(10) ** (-2 * e) for e in (3, 5, 7)]
            ctx.check("kernel near zero total wavevector", abs(ys[2] - ys[1]) <= mpf(10) ** -3 * max(abs(ys[1]), 1) and abs(ys[1] - ys[0]) <= mpf("0.1") * max(abs(ys[0]), 1), key,
                      lambda: "%s does not fall with the square of the total wavevector: over it, it is %s, %s, %s" % (label, *[mpmath.nstr(y, 6) for y in ys]))
            # nearly opposite wavevectors: the total, or a pair of them, close to zero but not zero
            for e in (2, 4, 7, 9):
                for near in ([w + [plus(last, times(mpf(10) ** -e, d))]] + ([[v[0], w[0], plus(times(-1, w[0]), times(mpf(10) ** -e, d))]] if m == 3 else [])):
                    got, want = fun(near), PT.kernels(near)["dt".index(a)]
                    ctx.check("nearly opposite wavevectors", abs(got - want) <= mpf(10) ** -9 * abs(want), key, lambda: "%s with wavevectors opposite within 1e-%d is %s, not %s" % (label, e, mpmath.nstr(got, 8), mpmath.nstr(want, 8)))
            # collinear wavevectors
            ls = [mpf(10) ** r(i, j, "line") * (1 if r(i, j, "sign") > 0 else -1) for j in range(m)]
            if i == 0:
                ls = [mpf(1)] * m
            elif i == 1:
                ls = [mpf(2)] + [mpf(1)] * (m - 1)
            u = (mpf("0.48"), mpf("0.6"), mpf("0.64"))
            got, want = fun([times(l, u) for l in ls]), sum(ls) ** m / mpmath.factorial(m) / mpmath.fprod(ls)
            ctx.check("collinear wavevectors", abs(got - want) <= TOL * max(abs(want), 1), key, lambda: "%s for collinear wavevectors of lengths %s is %s, one-dimensional motion gives %s" % (label, ", ".join(mpmath.nstr(l, 4) for l in ls), mpmath.nstr(got, 8), mpmath.nstr(want, 8)))
            # soft limit
            h = [tuple(r(i, j, c, "hard") for c in range(3)) for j in range(m - 1)]
            k = plus(*h)
            low = [mpf(1)] if m == 2 else [K[n2][0](h) for n2 in two if n2[1] == a]
            for e in (8, 14):
                q = times(mpf(10) ** -e, d)
                got = fun(h + [q])
                for l in low:
                    want = PT.dot(k, q) / PT.dot(q, q) * l / m
                    # the first correction is of relative order q, over the cosine
                    ctx.check("soft limit", abs(got - want) <= 100 * max(1, 1 / norm3(k)) ** m, key, lambda: "%s with a soft wavevector of 1e-%d is %s, Galilean invariance requires %s" % (label, e, mpmath.nstr(got, 8), mpmath.nstr(want, 8)))
    # the forms of the second-order kernel
    for i in range(many):
        v = [tuple(r(i, j, c, "forms") for c in range(3)) for j in range(2)]
        for a in "dt":
            vals = [(n, K[n, b][0](v)) for n, b in two if b == a]
            for n, y in vals[1:]:
                ctx.check("forms of the second-order kernel", close(y, vals[0][1], TOL), "forms:%s" % a, lambda: "second-order kernel of %s: %s is %s, %s is %s" % (NAME[a], n, mpmath.nstr(y, 8), vals[0][0], mpmath.nstr(vals[0][1], 8)))
    ctx.sample("kernels: %s" % ", ".join("%s(%s)" % x for x in sorted(K)))

def vertices(ctx):
    vert = C13.vertices(ctx)
    L = mpmath.log(QMAX / QMIN)
    def value(a, k, q, total=False):
        e, n = vert["2" + a]
        z = OnePoint(ctx.seed, k[0], mpmath.log(q / QMIN) / L, mpf("0.5"), lambda tab, y: mpf(1))
        for j, y in enumerate(k):
            z.env[sym("leg", str(j))] = y
        return z(e)
    r = lambda *t: mpf(h01(ctx.seed, "c10v", *t))
    cases = []
    for i in range(12 if ctx.thorough else 5):
        k1, k2 = mpf("0.3") + r(i, 0), mpf("0.3") + r(i, 1)
        k3 = abs(k1 - k2) + (k1 + k2 - abs(k1 - k2)) * (mpf("0.1") + mpf("0.8") * r(i, 2))
        k = [k1, k2, k3]
        lo, hi = min(k), max(k)
        for q in (lo * mpf("0.003"), lo * mpf("0.07"), lo * mpf("0.4"), k1 * mpf("1.0004"), k2 * mpf("0.9997"), k3 * mpf("1.0007"), k1 * mpf("1.2"), hi * mpf("2.5"), hi * 14, hi * 300):
            cases.append(("generic", k, q, TOL))
        # nearly equal first two sides: the expansion in their difference is symmetric to its own order
        for d in (mpf("0.015"), mpf("-0.004")):
            k = [k1, k1 * (1 + d), k1 * (mpf("0.3") + r(i, 3))]
            for q in (k[2] * mpf("0.05"), k1 * mpf("0.6"), k1 * mpf("1.8"), 20 * k1):
                cases.append(("nearly equal sides", k, q, mpf("2e-5")))
        # a short side
        e = mpf("0.008")
        for u in (mpf("0.5"), mpf("-0.6")):
            cases.append(("short first side", [k1 * e, k1, k1 * (1 + e * u)], k1 * mpf("1.7"), mpf("1e-4")))
            cases.append(("short third side", [k1, k1 * (1 + e * u), k1 * e], k1 * mpf("3.1"), mpf("1e-4")))
    for what, k, q, tol in cases:
        for a in "dt":
            x, y = value(a, k, q), value(a, [k[1], k[0], k[2]], q)
            ctx.check("exchange of the first two wavenumbers of a vertex", close(x, y, tol), "vertex:%s" % a, lambda: "one-loop vertex of %s with wavenumbers (%s), %s, at q=%s is %s, with the first two exchanged %s" % (NAME[a], ", ".join(mpmath.nstr(c, 5) for c in k), what, mpmath.nstr(q, 4), mpmath.nstr(x, 8), mpmath.nstr(y, 8)))
    # the vertex vanishes with the square of its third wavenumber
    for i in range(2):
        for c in (mpf("0.4"), mpf("-0.7")):
            k1, q = mpf("0.3") + r(i, "third"), mpf("0.2") + r(i, "q3")
            vs = [value(a, [k1, k1 * (1 + c * e), k1 * e], q) / e ** 2 for a in "dt" for e in (mpf("1e-3"), mpf("1e-4"), mpf("1e-5"))]
            for a, (x, y, z) in zip("dt", (vs[:3], vs[3:])):
                ctx.check("vertex with a vanishing third wavenumber", abs(y - z) <= mpf("0.01") * abs(z) and abs(x - y) <= mpf("0.1") * abs(y), "third:%s" % a, lambda: "one-loop vertex of %s does not fall with the square of its third wavenumber: over it, it is %s, %s, %s" % (NAME[a], *[mpmath.nstr(t, 6) for t in (x, y, z)]))

def bias(ctx):
    C = Columns(ctx, "bias_1loop")
    names = [n for n in C.cols if n.startswith(("pk_b", "sigma3"))]
    if len(names) < 8:
        raise AnalysisError("bias columns: %s" % names)
    spec = lambda tab, y: y / (1 + 30 * y * y)
    for i in range(3):
        q = mpf("0.05") + mpf(h01(ctx.seed, "c10b", i))
        k = q * mpf(10) ** -8
        xi = mpmath.sqrt(mpf(1) / 3)
        for n in sorted(names):
            # the two nodes of the two-point rule: exact for the average over directions
            v = sum(C.at(n, k, q, (1 + s * xi) / 2, spec=spec) for s in (1, -1)) / 2
            one = abs(C.at(n, q / mpf("0.7"), q, mpf("0.6"), spec=spec))
            # the degree in the amplitude is two but for the last
            ref = spec("", q) ** (1 if n.startswith("sigma3") else 2) * q ** 3 / (2 * mpmath.pi()) ** 2 * C.L
            ctx.check("bias term of a mode much larger than the internal ones", abs(v) <= mpf(10) ** -6 * ref and one > 0, "bias:%s" % n, lambda: "the integrand of %s does not vanish when the mode is much larger than the internal ones: %s of its natural size" % (n, mpmath.nstr(v / ref, 6)))

def run(ctx):
    kernels(ctx)
    vertices(ctx)
    bias(ctx)
