"""Columns against perturbation theory.  The integrand of every column of the power-spectrum and bias
computations is extracted from the C sources as a formula and numbered at internal momenta; it must be
the one obtained here from the recursion of the perturbation-theory kernels: F3 averaged over the loop
momentum for the 1-loop propagators, F2 and F4 for the two-mode terms, F3 for the three-mode term, F5
for the two-loop propagators (a published fit, compared at the accuracy of the fit), and the defining
integrals of the bias terms."""
from checks.onepoint import *
import checks.ptheory as PT
import checks.c13 as C13

RULE = "integrand of each column = product of perturbation-theory kernels and spectra, in the measure d3q/(2 pi)^3"
ASSUMPTIONS = ["gamma1 at two loops is a published fit: compared within its accuracy (0.1% to 7% depending on the point)",
               "bias terms as defined by McDonald and Roy 2009, Saito et al. 2014"]
TOL = mpf(10) ** -15
PAIRS = [("d", "t"), ("t", "t"), ("d", "d"), ("t", "d")]
NAME = {"d": "delta", "t": "theta"}

def spec0(tab, y):
    return (1 + y) / (1 + 30 * y * y) ** 2

class FewNodes(OnePoint):
    """Quadratures over wavenumbers carried out in full, with unit weights at the few nodes qs."""
    qs = ()
    def scalar(self, name):
        if name.replace(":", ".").split(".")[-1] in ("n", "nq"):
            return mpf(len(self.qs))
        return OnePoint.scalar(self, name)
    def sumval(self, t):
        lv, n, body = t.args
        n = self.val(n)
        if n > 12:
            raise AnalysisError("a sum over %s terms in a column with one node per loop momentum" % n)
        return sum((self.bind(lv, mpf(i), body) for i in range(int(n))), mpf(0))
    def fnval(self, t, name, v):
        if name == "glx":
            return mpmath.log(self.qs[int(v[3])])
        if name == "glw":
            return mpf(1)
        return OnePoint.fnval(self, t, name, v)

def pair(C, n, square, k, p, q):
    """Contribution of the pair of momenta p, q, in either order, to a column of the propagators, less
    that of half the square of the column `square`: what is proportional to the product of the spectra
    at p and q.  With the spectrum 1 at p and i at q it is the imaginary part."""
    cls = type("Pair", (FewNodes,), {"qs": (p, q)})
    def on(a, b):
        spec = lambda tab, y: a if abs(y - p) <= mpf(10) ** -10 * p else b if abs(y - q) <= mpf(10) ** -10 * q else mpf(0)
        x, y = C.at(n, k, p, spec=spec, cls=cls), C.at(square, k, p, spec=spec, cls=cls)
        return x - y * y / 2
    try:
        return mpmath.im(on(mpf(1), mpc(0, 1)))
    except TypeError:      # spectra are compared
        return on(mpf(1), mpf(1)) - on(mpf(1), mpf(0)) - on(mpf(0), mpf(1))

class Columns(object):
    """Columns of one computation, and their numbers."""
    def __init__(self, ctx, f, a=None, b=None):
        self.ctx, self.f, self.ab = ctx, f, (a or "") + (b or "")
        P = ctx.program()
        fl = None
        for x in flags(P, f):
            if not x or (tuple(x.values()) == (NAME[a], NAME[b]) if a else True):
                fl = x
                break
        if fl is None:
            raise AnalysisError("%s takes no pair of fields (%s, %s)" % (f, a, b))
        r = ctx.run(linear_calls(ctx, P, f, fl), (), verbosity=None, init="mixed")
        self.cols = {n: e for (n, c), e in values(ctx, r, f).items()}
        self.L = mpmath.log(QMAX / QMIN)
        self.label = f + ("(%s,%s)" % (NAME[a], NAME[b]) if a else "")
    def need(self, *names):
        for n in names:
            if n not in self.cols:
                raise AnalysisError("%s has no column %s" % (self.f, n))
    def at(self, n, k, q, v=mpf("0.5"), spec=spec0, seed=None, cls=OnePoint, **kw):
        z = cls(self.ctx.seed if seed is None else seed, k, mpmath.log(q / QMIN) / self.L, v, spec, **kw)
        return z(self.cols[n])

def expect(ctx, what, got, want, key, text, tol=TOL, scale=None):
    sc = scale if scale is not None else abs(want)
    ctx.check(what, abs(got - want) <= tol * sc, key, lambda: "%s: %s, perturbation theory gives %s" % (text, mpmath.nstr(got, 8), mpmath.nstr(want, 8)))

def ptpoints(ctx, n, tag, lo=0.05, hi=20, avoid=()):
    """Ratios q/k."""
    out = []
    j = 0
    while len(out) < n * (3 if ctx.thorough else 1):
        x = mpf(lo) * (mpf(hi) / mpf(lo)) ** h01(ctx.seed, tag, j)
        j += 1
        if all(not (a < x < b) for a, b in avoid):
            out.append(x)
    return out

def propagators(ctx, C, a, names):
    """One-loop propagator columns: sums over one loop momentum."""
    for i, x in enumerate(ptpoints(ctx, 3, "g1", 0.05, 9, avoid=[(0.985, 1.015)])):
        k = mpf("0.11") + mpf("0.07") * i
        q = x * k
        want = q ** 3 / (2 * mpmath.pi()) ** 3 * PT.propagator(x)["dt".index(a)] * spec0("", q)
        for n in names:
            got = C.at(n, k, q) / C.L
            expect(ctx, "integrand of the one-loop propagator", got, want, "gamma1:%s:%s" % (C.f, a), "%s, column %s (%s), at k=%s q/k=%s" % (C.label, n, NAME[a], mpmath.nstr(k, 4), mpmath.nstr(x, 4)))

# q1/k, q2/k, deviation of the published fits (density, velocity) from the kernels
FITPOINTS = [("0.1", "3", "0.0002", "0.0069"), ("0.2", "0.5", "0.0601", "0.0019"), ("0.35", "0.8", "0.0043", "0.0222"), ("0.05", "0.3", "0.0119", "0.0085"),
             ("0.5", "4", "0.0055", "0.0027"), ("0.7", "1.7", "0.0036", "0.0071"), ("0.01", "0.05", "0.0052", "0.0123"), ("1.6", "3.5", "0.0091", "0.0152"),
             ("0.3", "4", "0.0029", "0.0070"), ("0.4", "2.2", "0.0033", "0.0019"), ("3", "8", "0.0033", "0.0147"), ("0.03", "1.7", "0.0024", "0.0041"),
             ("0.003", "0.6", "0.0180", "0.0074"), ("30", "80", "0.0001", "0.0014"), ("0.1", "0.4", "0.0281", "0.0049"), ("0.25", "0.7", "0.0291", "0.0161"),
             ("0.5", "1.6", "0.0028", "0.0153"), ("0.6", "2.5", "0.0036", "0.0066"), ("0.15", "1.5", "0.0014", "0.0059"), ("2", "5", "0.0067", "0.0180"), ("0.8", "10", "0.0050", "0.0006")]

_two = {}
def twoloop_kernel(p, q, ab):
    """Two-loop propagator less half the square of the one-loop one."""
    if (p, q) not in _two:
        t, f, g = PT.twoloop(p, q, 18), PT.propagator(p), PT.propagator(q)
        _two[p, q] = [t[i] - f[i] * g[i] / 2 for i in (0, 1)]
    return _two[p, q]["dt".index(ab)]

def twoloop(ctx, C, a, n):
    sq = n.replace("2loop", "1loop")
    for x in ("0.07", "0.4", "2"):      # both momenta at the same node
        k = mpf("0.13")
        q = mpf(x) * k
        cls = type("Same", (FewNodes,), {"qs": (q,)})
        got = C.at(n, k, q, spec=lambda t, y: mpf(1), cls=cls) - C.at(sq, k, q, spec=lambda t, y: mpf(1), cls=cls) ** 2 / 2
        want = pair(C, n, sq, k, q, q * (1 + mpf(10) ** -4)) / 2
        expect(ctx, "integrand of the two-loop propagator with both momenta equal", got, want, "gamma1_2loop:%s" % a,
               "%s, column %s (%s), both loop momenta at the node q/k=%s" % (C.label, n, NAME[a], x), mpf("0.002"))
    for x1, x2, td, tt in FITPOINTS[: 21 if ctx.thorough else 14]:
        for p, q in ((x1, x2),):
            p, q = mpf(p), mpf(q)
            k = mpf("0.13")
            true = twoloop_kernel(min(p, q), max(p, q), a)
            want = true * (p * k * q * k) ** 3 / (2 * mpmath.pi()) ** 6
            got = pair(C, n, n.replace("2loop", "1loop"), k, p * k, q * k) / 2
            tol = mpf(td if a == "d" else tt) * mpf("1.2") + mpf("0.001")
            expect(ctx, "integrand of the two-loop propagator", got, want, "gamma1_2loop:%s" % a,
                   "%s, column %s (%s), less half the square of the one-loop one, at q1/k=%s q2/k=%s" % (C.label, n, NAME[a], mpmath.nstr(p, 4), mpmath.nstr(q, 4)), tol)

class Single(Exception):
    pass

def region(C, n, k, q):
    """Upper end of the range of the cosine, from the momenta looked up."""
    I = Integrand(C.cols[n], n, C.ctx.seed)
    r = I.region(k, q)
    if r is None:
        raise Single(n)
    return r

def kinematics(k, x, v, reg):
    lo, hi = reg
    mu = lo + (hi - lo) * v
    q = x * k
    r = k * mpmath.sqrt(1 + x * x - 2 * x * mu)
    s = mpmath.sqrt(1 - mu * mu)
    qv = (q * s, mpf(0), q * mu)
    return mu, q, r, qv, PT.vadd(PT.V(0, 0, k), PT.vneg(qv))

def weight(reg, x, what):
    """2 if the code covers the half of the region with the first momentum the smaller, 1 if all of it."""
    lo, hi = reg
    if abs(lo + 1) < mpf(10) ** -20 and abs(hi - min(mpf(1), 1 / (2 * x))) < mpf(10) ** -20:
        return 2 if x > mpf("0.5") else None
    if abs(lo + 1) < mpf(10) ** -20 and abs(hi - 1) < mpf(10) ** -20:
        return 1
    raise AnalysisError("region of the cosine of %s not recognised: %s to %s" % (what, mpmath.nstr(lo, 5), mpmath.nstr(hi, 5)))

def covered(C, n):
    """Times the code counts each pair of momenta it visits, to cover all of them."""
    return weight(region(C, n, mpf("0.2"), mpf("0.6")), mpf(3), n)

def twomode(ctx, C, a, b, names, vert=None):
    """Terms with two internal modes: tree level, and with the loop-corrected vertices."""
    w = {}
    for n in names:
        try:
            w[n] = covered(C, n)
        except Single:
            ctx.check("two internal momenta", False, "single:%s" % n, "%s, column %s: the spectra entering its integrand are all at the same internal momentum" % (C.label, n))
            return
    for i, (x, v) in enumerate(zip(ptpoints(ctx, 3, "g2", 0.2, 4), ("0.37", "0.71", "0.13", "0.9", "0.55", "0.05", "0.3", "0.8", "0.45"))):
        k = mpf("0.17") + mpf("0.06") * i
        for n, order in names.items():
            reg = (mpf(-1), min(mpf(1), 1 / (2 * x)) if w[n] == 2 else mpf(1))
            mu, q, r, qv, rv = kinematics(k, x, mpf(v), reg)
            got = C.at(n, k, q, mpf(v)) / C.L / (reg[1] - reg[0])
            pp = spec0("", q) * spec0("", r)
            ta, tb = PT.F2(a, qv, rv), PT.F2(b, qv, rv)
            if order:
                def gam(f):
                    e, m = vert["2" + f]
                    z = OnePoint(ctx.seed, k, mpmath.log(q / QMIN) / C.L, mpf(v), spec0)
                    for j, y in enumerate((r, q, k)):
                        z.env[sym("leg", str(j))] = y
                    return z(e)
                la, lb = gam(a), gam(b)
            val = {0: lambda: ta * tb, 1: lambda: ta * lb + la * tb, 2: lambda: la * lb}[order]()
            want = 2 * w[n] * val * pp * q ** 3 / (2 * mpmath.pi()) ** 2
            expect(ctx, "integrand of a two-mode term", got, want, "gamma2:%s:%d" % (C.f, order), "%s, column %s at k=%s q/k=%s mu=%s" % (C.label, n, mpmath.nstr(k, 4), mpmath.nstr(x, 4), mpmath.nstr(mu, 4)))

TRIANGLES = [("1", "1.31", "1.9"), ("0.7", "1.6", "1.2"), ("1.4", "0.9", "0.62")]

def vertices(ctx, vert):
    """Loop-corrected vertices: F4 averaged over the loop momentum."""
    L = mpmath.log(QMAX / QMIN)
    for i, tri in enumerate(TRIANGLES):
        ks = [mpf(x) * mpf("0.3") for x in tri]
        for x in ptpoints(ctx, 2, ("g2v", i), 0.11 * float(min(ks)) * 1.02, 9.5 * float(max(ks)), avoid=[(y * mpf("0.97"), y * mpf("1.03")) for y in ks]):
            want = PT.vertex(*ks, x)
            for t, f in enumerate("dt"):
                e, n = vert["2" + f]
                z = OnePoint(ctx.seed, ks[0], mpmath.log(x / QMIN) / L, mpf("0.5"), lambda tab, y: mpf(1))
                for j, y in enumerate(ks):
                    z.env[sym("leg", str(j))] = y
                got = z(e) / L
                expect(ctx, "integrand of a loop-corrected vertex", got, want[t] * x ** 3 / (2 * mpmath.pi()) ** 3, "gamma2_1loop:%s" % f,
                       "one-loop %s vertex at (%s) q=%s" % (NAME[f], ", ".join(mpmath.nstr(y, 4) for y in ks), mpmath.nstr(x, 4)), mpf(10) ** -12)

def threemode(ctx, C, a, b, n):
    """The term with three internal modes, at points of the unit cube."""
    L = C.L
    done = {True: 0, False: 0}
    j = 0
    while done[True] < (12 if ctx.thorough else 4) or done[False] < 2:
        t = [h01(ctx.seed, "g3", j, i) for i in range(6)]
        j += 1
        k = mpf("0.1") + mpf("0.3") * t[5]
        p, q = k * mpf("0.3") * 8 ** t[0], k * mpf("0.3") * 8 ** t[3]
        th1, ph1, th2 = mpmath.pi() * t[1], 2 * mpmath.pi() * t[2], mpmath.pi() * t[4]
        pv = (p * mpmath.sin(th1) * mpmath.cos(ph1), p * mpmath.sin(th1) * mpmath.sin(ph1), p * mpmath.cos(th1))
        qv = (q * mpmath.sin(th2), mpf(0), q * mpmath.cos(th2))
        rv = PT.vadd(PT.V(0, 0, k), PT.vneg(pv), PT.vneg(qv))
        r = mpmath.sqrt(PT.norm2(rv))
        inside = q < r
        if done[inside] >= (12 if inside and ctx.thorough else 4 if inside else 2):
            continue
        done[inside] += 1
        pt = [mpmath.log(p / QMIN) / L, t[1], t[2], mpmath.log(q / QMIN) / L, t[4]]
        got = C.at(n, k, mpf("0.6"), pt=pt) / L ** 2
        F, G = zip(*[PT.kernels([pv, qv, rv])])
        fa, fb = [PT.kernels([pv, qv, rv])["dt".index(x)] for x in (a, b)]
        meas = p ** 3 * q ** 3 * mpmath.sin(th1) * mpmath.sin(th2) * (mpmath.pi() * 2 * mpmath.pi()) ** 2 / (2 * mpmath.pi()) ** 6
        full = 6 * fa * fb * spec0("", p) * spec0("", q) * spec0("", r) * meas
        want = 2 * full if inside else mpf(0)
        expect(ctx, "integrand of the three-mode term", got, want, "gamma3", "%s, column %s at k=%s p=%s q=%s, %s the half region" % (C.label, n, mpmath.nstr(k, 3), mpmath.nstr(p, 3), mpmath.nstr(q, 3), "inside" if inside else "outside"), scale=abs(full))

def S2(c):
    return c * c - mpf(1) / 3

def bias(ctx, C):
    names = ["pk_b2d", "pk_bs2d", "pk_b2t", "pk_bs2t", "pk_b22", "pk_b2s2", "pk_bs22", "sigma3sq"]
    C.need(*names)
    for i, (x, v) in enumerate(zip(ptpoints(ctx, 3, "bias", 0.2, 4), ("0.37", "0.71", "0.13", "0.9", "0.55", "0.05", "0.3", "0.8", "0.45"))):
        k = mpf("0.17") + mpf("0.06") * i
        for n in names:
            # the last one has one internal mode: the whole range of the cosine
            try:
                w = covered(C, n) if n != "sigma3sq" else 1
            except Single:
                ctx.check("two internal momenta", False, "single:%s" % n, "%s, column %s: the spectra entering its integrand are all at the same internal momentum" % (C.label, n))
                continue
            reg = (mpf(-1), min(mpf(1), 1 / (2 * x)) if w == 2 else mpf(1))
            mu, q, r, qv, rv = kinematics(k, x, mpf(v), reg)
            def density(q, qv, r, rv):
                c, mu = PT.dot(qv, rv) / q / r, qv[2] / q
                P, R, s = spec0("", q), spec0("", r), S2(c)
                return {"pk_b2d": lambda: P * R * PT.F2("d", qv, rv), "pk_bs2d": lambda: P * R * PT.F2("d", qv, rv) * s,
                        "pk_b2t": lambda: P * R * PT.F2("t", qv, rv), "pk_bs2t": lambda: P * R * PT.F2("t", qv, rv) * s,
                        "pk_b22": lambda: (P * R - P * P) / 2, "pk_b2s2": lambda: (P * R * s - P * P * 2 / 3) / 2,
                        "pk_bs22": lambda: (P * R * s * s - P * P * 4 / 9) / 2,
                        "sigma3sq": lambda: mpf(105) / 16 * P * (mpf(2) / 7 * (S2(mu) - mpf(2) / 3) * s + mpf(8) / 63)}[n]()
            val = density(q, qv, r, rv)
            if w == 2:          # half of the region stands for both halves
                val = (val + density(r, rv, q, qv)) / 2
            got = C.at(n, k, q, mpf(v)) / C.L / (reg[1] - reg[0])
            want = w * val * q ** 3 / (2 * mpmath.pi()) ** 2
            expect(ctx, "integrand of a bias term", got, want, "bias:%s" % n, "%s at k=%s q/k=%s mu=%s" % (n, mpmath.nstr(k, 4), mpmath.nstr(x, 4), mpmath.nstr(mu, 4)))

def run(ctx):
    vert = C13.vertices(ctx)
    vertices(ctx, vert)
    bias(ctx, Columns(ctx, "bias_1loop"))
    for a, b in PAIRS:
        C = Columns(ctx, "spectrum_1loop", a, b)
        C.need("gamma1a_1loop", "gamma1b_1loop", "pk_gamma2_tree_tree")
        propagators(ctx, C, a, ["gamma1a_1loop"])
        propagators(ctx, C, b, ["gamma1b_1loop"])
        twomode(ctx, C, a, b, {"pk_gamma2_tree_tree": 0})
    for a, b in PAIRS if ctx.thorough else PAIRS[:3]:
        C = Columns(ctx, "spectrum_2loop", a, b)
        C.need("gamma1a_1loop", "gamma1b_1loop", "gamma1a_2loop", "gamma1b_2loop", "pk_gamma2_tree_tree", "pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop", "pk_gamma3_tree")
        for s, x in (("a", a), ("b", b)):
            propagators(ctx, C, x, ["gamma1%s_1loop" % s])
            twoloop(ctx, C, x, "gamma1%s_2loop" % s)
        twomode(ctx, C, a, b, {"pk_gamma2_tree_tree": 0, "pk_gamma2_tree_1loop": 1, "pk_gamma2_1loop_1loop": 2}, vert)
        threemode(ctx, C, a, b, "pk_gamma3_tree")
