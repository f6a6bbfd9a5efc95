"""Domain and measure of the loop integrals.  Every column that integrates over the direction of an
internal momentum is extracted from the C sources with its quadrature nodes left symbolic, and numbered
with one node at a time, for integration ranges and output wavenumbers in all positions relative to one
another.  The momenta at which the linear spectrum is looked up give the range of the cosine the nodes
are spread over; the value per unit of the logarithm of the wavenumber and of the cosine must not depend
on the range.  Ranges not given must be the ends of the linear spectrum.  The Monte-Carlo terms are
numbered at points of their unit cube in the same way.  Where half of the region stands for all of it,
the integrands are compared with those of the whole region in the definition of the terms."""
from checks.onepoint import *
import checks.c23 as C23
import checks.c13 as C13

RULE = "cosine spread evenly over {qmin <= |k-q| <= qmax} (half: and q <= |k-q|); value/(range of log q)/(range of cosine) independent of the range; half of the region counted twice"
ASSUMPTIONS = ["nodes at both ends of the range stand for the ends (the code takes the range from its outermost nodes)", "real arithmetic"]
TOL = mpf(10) ** -15

class Ranged(OnePoint):
    """A node of a computation with its own integration range, given by the settings or, where the
    settings leave it (signs), by the ends of the linear spectrum."""
    given = (1, 1)
    def integ(self, t):
        return OnePoint.integ(self, t) if self.pt is not None else mpf(0)
    def scalar(self, name):
        last = name.replace(":", ".").split(".")[-1]
        if last == "min":
            return self.qmin if self.given[0] > 0 else mpf(self.given[0])
        if last == "max":
            return self.qmax if self.given[1] > 0 else mpf(self.given[1])
        return OnePoint.scalar(self, name)
    def element(self, t, arr, idx):
        n = gname(arr)
        if n == "arg:set_pk_lin.k":
            last = self.nlin(t)
            if min(self.given) <= 0:
                lo, hi = self.qmin, self.qmax
            else:
                lo, hi = self.qmin / 3, self.qmax * 2
            if idx == 0:
                return lo
            if idx == last:
                return hi
        return OnePoint.element(self, t, arr, idx)
    def nlin(self, t):
        """Index of the last element of the linear spectrum."""
        return int(self.scalar("arg:set_pk_lin:nk")) - 1 if not hasattr(self, "_n") else self._n

class Column(object):
    def __init__(self, ctx, f, name, e, pt=None):
        self.ctx, self.f, self.name, self.e, self.pt = ctx, f, name, e, pt
    def vn(self, k, q, v, qmin, qmax, given=(1, 1), spec=None, pt=None):
        L = mpmath.log(qmax / qmin)
        z = Ranged(self.ctx.seed, k, mpmath.log(q / qmin) / L, v, spec or (lambda tab, y: C23.spec0(tab, y)), pt=pt or self.pt)
        z.qmin, z.qmax, z.given = qmin, qmax, given
        z.L = L
        return z
    def third(self, k, q, v, qmin, qmax, **kw):
        z = self.vn(k, q, v, qmin, qmax, **kw)
        try:
            val = z(self.e)
        except Undef:
            if min(kw.get("given", (1, 1))) > 0:
                raise
            return mpf("nan"), None, []         # e.g. the logarithm of a limit that is not set
        return val / z.L, third(z.seen, k, q), z.seen
    def __str__(self):
        return "%s of %s" % (self.name, self.f)

def interval(k, q, qmin, qmax, half):
    lo = max(mpf(-1), (k * k + q * q - qmax * qmax) / (2 * k * q))
    hi = min(mpf(1), (k * k + q * q - qmin * qmin) / (2 * k * q))
    if half:
        hi = min(hi, k / (2 * q))
    return lo, hi

# output wavenumber, internal one and range, in every relation that changes the region
CASES = [("inside", "0.3", "0.5", "0.001", "20"), ("small q", "0.3", "0.004", "0.001", "20"), ("q just below k", "0.3", "0.27", "0.1", "20"),
         ("q near k, minimum felt", "0.3", "0.33", "0.1", "20"), ("q near k/2, minimum felt", "0.3", "0.16", "0.12", "5"),
         ("maximum felt", "0.3", "0.8", "0.001", "0.9"), ("maximum felt, small q", "0.3", "0.1", "0.001", "0.35"), ("both felt", "0.3", "0.36", "0.15", "0.5"),
         ("k below the range", "0.02", "0.07", "0.05", "9"), ("k above the range", "1.4", "0.6", "0.01", "1"), ("k far above the range: nothing", "2.3", "0.6", "0.01", "1"),
         ("k near twice the maximum", "1.9", "0.97", "0.01", "1"), ("range excludes |k-q|: nothing", "2.3", "1.05", "0.9", "1.1")]

def same(x, y):
    return abs(x - y) <= mpf(10) ** -20 * max(abs(x), abs(y))

# for the columns with inner loops, in the quick tier
HEAVY = ("q just below k", "q near k, minimum felt", "maximum felt", "both felt", "k above the range", "k far above the range: nothing")

def domain(ctx, col, density=True):
    """Region of the cosine, and value per unit of it."""
    k, q = mpf("0.31"), mpf("0.62")
    a, b = [col.third(k, q, v, mpf(10) ** -4, mpf(10) ** 3)[1] for v in (mpf(1) / 3, mpf(2) / 3)]
    if a is None or b is None:
        return False
    mus = [(k * k + q * q - r * r) / (2 * k * q) for r in (a, b)]
    top = 2 * mus[1] - mus[0]
    half = abs(top - k / (2 * q)) < mpf(10) ** -20
    key = "%s:%s" % (col.f, col.name)
    if not ctx.check("whole or half of the region", half or abs(top - 1) < mpf(10) ** -20, "coverage:" + key, "%s: far from the ends of the range the cosine reaches %s at q/k=2, neither 1 nor k/2q" % (col, mpmath.nstr(top, 8))):
        return True
    n = 0
    powers = set()
    heavy = not ctx.thorough and (col.f == "A_2loop" or col.name in ("pk_gamma2_tree_1loop", "pk_gamma2_1loop_1loop"))
    for lab, k, q, qmin, qmax in CASES:
        if heavy and lab not in HEAVY:
            continue
        k, q, qmin, qmax = [mpf(x) * (1 + h01(ctx.seed, "c19") / 50) for x in (k, q, qmin, qmax)]
        lo, hi = interval(k, q, qmin, qmax, half)
        text = "%s at k=%s q=%s, range %s to %s (%s)" % (col, mpmath.nstr(k, 4), mpmath.nstr(q, 4), mpmath.nstr(qmin, 4), mpmath.nstr(qmax, 4), lab)
        got = []
        vs = (mpf(1) / 3, mpf("0.9")) if heavy else (mpf(1) / 3, mpf(2) / 3, mpf("0.9"))
        for v in vs:
            val, r, seen = col.third(k, q, v, qmin, qmax)
            got.append((val, r))
        if lo >= hi:
            ctx.check("nothing outside the range", all(x == 0 for x, r in got), "empty:" + key, "%s: contributes although no |k-q| lies inside the range" % text)
            continue
        if not ctx.check("momentum looked up", all(r is not None for x, r in got), "missing:" + key, "%s: no contribution, although |k-q| lies inside the range for cosines from %s to %s" % (text, mpmath.nstr(lo, 5), mpmath.nstr(hi, 5))):
            continue
        for v, (val, r) in zip(vs, got):
            mu = (k * k + q * q - r * r) / (2 * k * q)
            want = lo + (hi - lo) * v
            ctx.check("range of the cosine", abs(mu - want) < mpf(10) ** -25, "range:" + key,
                      lambda: "%s: node at fraction %s of the range of the cosine is at %s; the range %s to %s puts it at %s" % (text, mpmath.nstr(v, 3), mpmath.nstr(mu, 8), mpmath.nstr(lo, 6), mpmath.nstr(hi, 6), mpmath.nstr(want, 8)))
            if density:
                # the same momenta in a wide range
                QA, QB = mpf(10) ** -4, mpf(10) ** 3
                l2, h2 = interval(k, q, QA, QB, half)
                if not (l2 < mu < h2):
                    continue
                w, r2, _ = col.third(k, q, (mu - l2) / (h2 - l2), QA, QB)
                if partial(col):
                    continue
                # inner loops, at the same node, count the logarithm of their own range
                R = mpmath.log(QB / QA) / mpmath.log(qmax / qmin)
                ps = [p for p in (0, 1, 2) if same(val / (hi - lo) * R ** p, w / (h2 - l2))]
                powers.update(ps)
                ctx.check("measure", len(ps) == 1 and len(powers) == 1, "measure:" + key,
                          lambda: "%s: the integrand per unit of log q and of the cosine is %s, in a wide range %s" % (text, mpmath.nstr(val / (hi - lo), 8), mpmath.nstr(w / (h2 - l2), 8)))
        n += 1
        if lab in ("inside", "both felt"):
            for g in ((0, 1), (1, 0), (-1, -1)):
                for v in vs[:2]:
                    val, r, seen = col.third(k, q, v, qmin, qmax, given=g)
                    ctx.check("range not given", r is not None and same(val, got[vs.index(v)][0]), "default:" + key,
                              "%s: with minimum %s and maximum %s the range is not that of the linear spectrum" % (col, "given" if g[0] > 0 else "not given", "given" if g[1] > 0 else "not given"))
    ctx.stats["columns integrated over a direction"] += 1
    ctx.sample("%s: %s" % (col, "half of the region" if half else "whole region"))
    return True

def partial(col):
    """Columns with a part already averaged over directions: not a function of one momentum."""
    return col.f == "A_1loop"

def radial(ctx, col):
    """Columns integrated over the wavenumber only (directions done analytically)."""
    key = "%s:%s" % (col.f, col.name)
    k = mpf("0.3")
    for i, (q, qmin, qmax) in enumerate([("0.5", "0.001", "20"), ("0.04", "0.03", "0.4"), ("0.9", "0.2", "1.3")]):
        q, qmin, qmax = mpf(q), mpf(qmin), mpf(qmax)
        a, _, seen = col.third(k, q, mpf("0.4"), qmin, qmax)
        QA, QB = mpf(10) ** -4, mpf(10) ** 3
        b, _, _ = col.third(k, q, mpf("0.4"), QA, QB)
        p = 2 if "gamma1" in col.name and "2loop" in col.name else 1
        a, b = a * mpmath.log(qmax / qmin), b * mpmath.log(QB / QA)
        # nested over two wavenumbers: both nodes are the same one
        la, lb = mpmath.log(qmax / qmin) ** p, mpmath.log(QB / QA) ** p
        ctx.check("measure", same(a / la, b / lb), "measure:" + key, lambda: "%s at k=%s q=%s: the integrand per unit of log q depends on the range of integration" % (col, mpmath.nstr(k, 3), mpmath.nstr(q, 3)))
        inside = all(qmin * (1 - mpf(10) ** -20) <= y <= qmax * (1 + mpf(10) ** -20) or same(y, k) for tab, y in seen)
        ctx.check("momentum inside the range", inside, "inside:" + key, "%s looks the linear spectrum up outside the range of integration" % col)
        for g in ((0, 1), (1, 0), (-1, -1)):
            c, _, _ = col.third(k, q, mpf("0.4"), qmin, qmax, given=g)
            ctx.check("range not given", same(c * mpmath.log(qmax / qmin), a), "default:" + key, "%s: a range that is not given is not that of the linear spectrum" % col)
    ctx.stats["columns integrated over a wavenumber"] += 1

def montecarlo(ctx, col, npow):
    """Terms integrated over the unit cube; npow wavenumbers among the variables, in order of the cube."""
    key = "%s:%s" % (col.f, col.name)
    pos = (0, 3) if "gamma3" in col.name else (0, 2)
    found = 0
    for i in range(60):
        t = [h01(ctx.seed, "mc", key, i, j) for j in range(6)]
        k, qmin, qmax = (mpf("0.3"), mpf("0.05"), mpf(1)) if "gamma3" in col.name else (mpf("3.3"), mpf("0.5"), mpf("1.5"))
        L = mpmath.log(qmax / qmin)
        u = t[5]
        QA, QB = qmin / 3, qmax * (4 if "gamma3" in col.name else mpf("1.05"))
        L2 = mpmath.log(QB / QA)
        t2 = list(t)
        for j in pos:
            t2[j] = (mpmath.log(qmin / QA) + L * t[j]) / L2
        q = mpmath.exp(mpmath.log(qmin) + L * u)
        # the node of the other integrals is the same momentum in both
        a, _, seen = col.third(k, q, mpf("0.4"), qmin, qmax, pt=t)
        b, _, seen2 = col.third(k, q, mpf("0.4"), QA, QB, pt=t2)
        a, b = a * L, b * L2
        inside = all(qmin * (1 - mpf(10) ** -20) <= y <= qmax * (1 + mpf(10) ** -20) for tab, y in seen if not same(y, k))
        if "gamma3" in col.name:
            ctx.check("momentum inside the range", inside or a == 0, "inside:" + key, "%s has a contribution of momenta outside the range of integration" % col)
        if a != 0 and b != 0:
            found += 1
            ctx.check("measure", same(a / L ** npow, b / L2 ** npow), "measure:" + key, lambda: "%s: the integrand per unit of the logarithms of the wavenumbers depends on the range of integration (%s and %s)" % (col, mpmath.nstr(a / L ** npow, 8), mpmath.nstr(b / L2 ** npow, 8)))
        elif a == 0 and b != 0 and "gamma3" in col.name:
            # left out only because a momentum is outside the narrower range
            out = [y for tab, y in seen2 if not (qmin <= y <= qmax)]
            ctx.check("nothing left out", bool(out), "left:" + key, "%s leaves out momenta inside the range of integration" % col)
        if found >= (6 if not ctx.thorough else 30):
            break
    if not found:
        raise AnalysisError("no point of the cube contributes to %s" % col)
    for g in ((0, 1), (1, 0), (-1, -1)):
        c, _, _ = col.third(k, q, mpf("0.4"), qmin, qmax, pt=t, given=g)
        ctx.check("range not given", same(c * L, a), "default:" + key, "%s: a range that is not given is not that of the linear spectrum" % col)

def run(ctx):
    P = ctx.program()
    nd = 0
    for f in ctx.families():
        fls = flags(P, f)
        for fl in fls[1:2] or fls[:1]:
            r = ctx.run(linear_calls(ctx, P, f, fl), (), verbosity=None, init="mixed")
            for (n, c), e in values(ctx, r, f).items():
                if n in ("pk_lin", "sigmad2"):
                    continue
                if c != 0 and not ctx.thorough and f == "A_2loop":
                    continue
                name = n if dict(shapes(ctx, f))[n] == 1 else "%s[%d]" % (n, c)
                mc = has_integ(e)
                col = Column(ctx, f, name, e)
                if mc and "gamma3" in n:
                    montecarlo(ctx, col, 2)
                elif domain(ctx, col, density=f != "A_2loop"):
                    nd += 1
                    if mc and c == 0:
                        montecarlo(ctx, col, 2)
                else:
                    radial(ctx, col)
    if nd < 15:
        raise AnalysisError("only %d columns integrate over a direction" % nd)
    # weight of the half of the region
    C23.bias(ctx, C23.Columns(ctx, "bias_1loop"))
    for f in ("spectrum_1loop",):
        C23.twomode(ctx, C23.Columns(ctx, f, "d", "t"), "d", "t", {"pk_gamma2_tree_tree": 0})
    C23.threemode(ctx, C23.Columns(ctx, "spectrum_2loop", "d", "t"), "d", "t", "pk_gamma3_tree")
    C13.b_term(ctx)
    C13.a_term(ctx)

def has_integ(e):
    seen, st = set(), [e]
    while st:
        t = st.pop()
        if t.id in seen:
            continue
        seen.add(t.id)
        if t.op == "integ" or (t.op == "fn" and t.args[0] == "integ"):
            return True
        st.extend(x for x in t.args if hasattr(x, "op"))
    return False
