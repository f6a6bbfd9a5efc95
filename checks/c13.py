"""RSD corrections.  (1) pk_interp of every class that has one is interpreted over the Python syntax
tree on symbolic columns, mu, f, growth factor and outside values, and numbered at points: it must be
the stated polynomial with piecewise-linear interpolation.  (2) The integrand of every component of A
(tree level and the loop-corrected bispectrum, Monte Carlo parts included) and B is extracted from the C sources and numbered at
internal momenta; it must be, after symmetrisation over the two internal momenta, the coefficient of
that power of mu and f in the definition of the correction, obtained here from the definition."""
from checks.onepoint import *
from checks.layer import *
import checks.ptheory as PT

RULE = "pk_interp = sum_c mu2**a_c f**b_c interp(component c); component c = the mu2**a_c f**b_c part of the defining integral"
ASSUMPTIONS = ["numpy.interp is piecewise linear", "A and B are defined as in Taruya et al. 2010, eqs 19-20"]
TOL = mpf(10) ** -15

class PyNum(Valnum):
    """Numbers of the symbols of a Python session."""
    def __init__(self, seed, given=None):
        Valnum.__init__(self, seed)
        self.given = given or {}
    def scalar(self, name):
        return self.log_uniform("0.2", 3, name)
    def compute(self, t):
        if t in self.given:
            return self.given[t]
        if t.op == "sym" and t.args[0] == "ordered":
            return mpf("0.05") + int(t.args[-1]) * mpf("0.3") + mpf("0.2") * self.rnd("ordered", t.args[1], t.args[-1])
        if t.op == "sym":
            return self.scalar(":".join(str(a) for a in t.args))
        if t.op == "fn" and t.args[0] == "interp":
            v = [self.val(x) for x in t.args[1:]]
            z, left, right, n = v[0], v[1], v[2], (len(v) - 3) // 2
            return interp(z, v[3:3 + n], v[3 + n:], left, right)
        return Valnum.compute(self, t)

def interp(z, xs, ys, left, right):
    if z < xs[0]:
        return left
    if z > xs[-1]:
        return right
    for i in range(len(xs) - 1):
        if z <= xs[i + 1]:
            return ys[i] + (ys[i + 1] - ys[i]) * (z - xs[i]) / (xs[i + 1] - xs[i])
    return ys[-1]

def polynomial(ctx):
    """pk_interp of the classes whose term has components, and of the plain spectra."""
    ncls = 0
    for f in family_table(ctx):
        n = dict(f.shapes).get("pk", 1)
        exps = {5: PT.A_EXPS, 9: PT.B_EXPS}.get(n)
        if n > 1 and exps is None:
            raise AnalysisError("%s has %d components" % (f.cls, n))
        s = Session(ctx, light=True)
        o = s.new(f.cls)
        if not has(s.it, o, "pk_interp") or not has(s.it, o, "pk"):
            continue
        ncls += 1
        nk = 4
        k, pk = s.lin("lin", 4)
        s.do(o, "set_pk_lin", k, pk)
        s.do(o, "set_terms", grid("kout", nk))
        for name, m in f.shapes:
            if name == "k":
                continue
            a = s.get(o, name)
            if a.size != nk * m:
                raise AnalysisError("column %s of %s has %d elements" % (name, f.cls, a.size))
            for i, ix in enumerate(np.ndindex(a.shape)):
                a[ix] = S(sym("col", name, str(i)))
        sy = {x: S(sym("user", x)) for x in ("mu2", "beta", "D", "left", "right", "sigmad2")}
        for label, kw in (("all given", dict(Dgrowth=sy["D"], left=sy["left"], right=sy["right"])), ("defaults", {})):
            if exps:
                kw = dict(kw, beta=sy["beta"]) if label == "all given" else kw
            for pos in ("below", "node 0", "between 1 and 2", "node 2", "node 3", "above"):
                z = S(sym("user", "k"))
                try:
                    r = s.do(o, "pk_interp", z, sy["mu2"], **kw) if exps else s.do(o, "pk_interp", z, **kw)
                    if not exps:
                        col = s.do(o, "pk", **({"Dgrowth": sy["D"]} if "Dgrowth" in kw else {}))
                except PyRaise as e:
                    ctx.check("pk_interp evaluates", False, "raises:%s" % f.cls, "%s.pk_interp raises %s" % (f.cls, e))
                    break
                for seed in points(ctx, 2):
                    vn = PyNum(seed)
                    xs = [vn(lift(x).t) for x in grid("kout", nk)]
                    zz = {"below": xs[0] * mpf("0.7"), "above": xs[-1] * mpf("1.3"), "node 0": xs[0], "node 2": xs[2], "node 3": xs[3]}.get(pos, xs[1] + (xs[2] - xs[1]) * vn.rnd("z", seed))
                    vn.given[z.t] = zz
                    val = lambda x, d: vn(kw[x].t) if x in kw else mpf(d)
                    D, b, le, ri = val("Dgrowth", 1), val("beta", 1), val("left", 0), val("right", 0)
                    if exps:
                        m2 = vn(sy["mu2"].t)
                        want = mpf(0)
                        for c, (a, e) in enumerate(exps):
                            ys = [D ** 4 * vn(sym("col", "pk", str(i * n + c))) for i in range(nk)]
                            want += m2 ** a * b ** e * interp(zz, xs, ys, le, ri)
                    else:
                        want = interp(zz, xs, [vn(lift(x).t) for x in np.asarray(col, object).ravel()], le, ri)
                    got = vn(lift(r).t)
                    ctx.check("interpolated correction", close(got, want, TOL), "poly:%s" % f.cls,
                              lambda: "%s.pk_interp at a wavenumber %s (%s): %s instead of the stated polynomial's %s" % (f.cls, pos, label, mpmath.nstr(got, 8), mpmath.nstr(want, 8)))
    if ncls < 4:
        raise AnalysisError("only %d classes with pk_interp" % ncls)

def columns_of(ctx, f):
    P = ctx.program()
    r = ctx.run(linear_calls(ctx, P, f, flags(P, f)[0]), (), verbosity=None, init="mixed")
    return {c: Integrand(e, "%s[%d]" % (f, c), ctx.seed) for (n, c), e in values(ctx, r, f).items() if n == "pk"}

POINTS = [("0.7", "0.3"), ("0.31", "-0.55"), ("1.9", "-0.4"), ("0.93", "0.44"), ("0.6", "0.8")]

def momenta(k, x, mu):
    r = k * mpmath.sqrt(1 + x * x - 2 * x * mu)
    return x * k, r, (1 - x * mu) * k / r          # q, |k-q| and the cosine of k-q

def symmetrised(cols, k, x, mu, spec, half):
    """Integrands of the components at q plus, unless the code covers half of the region, at k-q."""
    q, r, mur = momenta(k, x, mu)
    full = (mpf(-1), mpf(1))
    if half:
        return {c: g.at(k, q, mu, spec, (mpf(-1), min(mpf(1), 1 / (2 * x)))) for c, g in cols.items()}
    return {c: g.at(k, q, mu, spec, full) + g.at(k, r, mur, spec, full) * (q / r) ** 3 for c, g in cols.items()}

def covers_half(cols, k):
    """True if the components are integrated over the half q < |k-q|."""
    h = set()
    for c, g in cols.items():
        reg = g.region(k, k * 3)
        h.add(reg is not None and abs(reg[1] - mpf(1) / 6) < mpf(10) ** -25)
    if len(h) != 1:
        raise AnalysisError("components are integrated over different regions")
    return h.pop()

def hits(a, b):
    return abs(a - b) < mpf(10) ** -25 * abs(b)

def compare(ctx, what, got, want, key, text):
    sc = max([abs(x) for x in want] + [mpf(10) ** -60])
    for c, w in enumerate(want):
        ctx.check(what, abs(got[c] - w) <= TOL * sc * 10, "%s:%d" % (key, c), lambda: "component %d of %s: %s, the definition gives %s" % (c, text, mpmath.nstr(got[c], 8), mpmath.nstr(w, 8)))

def b_term(ctx):
    cols = columns_of(ctx, "B")
    if len(cols) != 9:
        raise AnalysisError("B has %d components" % len(cols))
    for i, (xs, ms) in enumerate(POINTS[: 5 if ctx.thorough else 3]):
        k = mpf("0.13") + mpf("0.05") * i
        x, mu = mpf(xs), mpf(ms)
        half = covers_half(cols, k)
        q, r, mur = momenta(k, x, mu)
        if half and q > r:
            raise AnalysisError("point outside the half region")
        def spec(tab, y):
            return 1 / (1 + y) if tab.endswith("#0.pk") else 1 / (1 + 3 * y * y) ** 2
        pdt, ptt = (lambda y: spec("#0.pk", y)), (lambda y: spec("", y))
        a, ok1 = PT.B_density(k, q, mu, pdt, ptt)
        b, ok2 = PT.B_density(k, r, mur, pdt, ptt)
        if not (ok1 and ok2):
            raise AnalysisError("the definition has other powers than the nine components")
        want = [s + t * (q / r) ** 3 for s, t in zip(a, b)]
        got = symmetrised(cols, k, x, mu, spec, half)
        compare(ctx, "component of B", got, want, "B", "B at k=%s q/k=%s mu=%s" % (mpmath.nstr(k, 3), xs, ms))

def a_term(ctx):
    cols = columns_of(ctx, "A_1loop")
    if len(cols) != 5:
        raise AnalysisError("A has %d components" % len(cols))
    full = (mpf(-1), mpf(1))
    def pick(*on):
        return lambda tab, y: mpf(1) if any(hits(y, z) for z in on) else mpf(0)
    for i, (xs, ms) in enumerate(POINTS[: 5 if ctx.thorough else 2]):
        k = mpf("0.13") + mpf("0.05") * i
        x, mu = mpf(xs), mpf(ms)
        q, r, mur = momenta(k, x, mu)
        text = "A at k=%s q/k=%s mu=%s" % (mpmath.nstr(k, 3), xs, ms)
        def pick(*on):
            return lambda tab, y: mpf(1) if any(hits(y, z) for z in on) else mpf(0)
        # the product of the spectra of the two internal momenta
        a, b = PT.A_density(k, q, mu, "qr")[0], PT.A_density(k, r, mur, "qr")[0]
        want = [s + t * (q / r) ** 3 for s, t in zip(a, b)]
        got = {c: g.at(k, q, mu, pick(q, r), full) + g.at(k, r, mur, pick(q, r), full) * (q / r) ** 3 for c, g in cols.items()}
        compare(ctx, "component of A, P(q)P(|k-q|)", got, want, "A:qr", text)
    # the product of P(k) and the spectrum of one internal momentum s, over all directions of s
    nodes = gauss(20)
    for i, xs in enumerate(["0.25", "3.1", "0.31", "4.7"][: 4 if ctx.thorough else 2]):
        k = mpf("0.11") + mpf("0.07") * i
        x = mpf(xs)
        q = x * k
        def other(m):
            X = mpmath.sqrt(1 + x * x - 2 * x * m)
            return X * k, (1 - x * m) / X
        def want1(m):
            y, M = other(m)
            u, v = PT.A_density(k, q, m, "qk")[0], PT.A_density(k, y, M, "kr")[0]
            return [p + t * (q / y) ** 3 for p, t in zip(u, v)]
        def got1(m):
            y, M = other(m)
            return [cols[c].at(k, q, m, pick(k, q), full) + cols[c].at(k, y, M, pick(k, q), full) * (q / y) ** 3 for c in range(5)]
        got, want = [mpf(0)] * 5, [mpf(0)] * 5
        for m, w in nodes:
            for c, (g, t) in enumerate(zip(got1(m), want1(m))):
                got[c] += w * g
                want[c] += w * t
        compare(ctx, "component of A, P(k)P(q)", got, want, "A:kq", "A at k=%s q/k=%s, averaged over the direction" % (mpmath.nstr(k, 3), xs))

def vertices(ctx):
    """Values of the propagators and loop-corrected vertices the library computes, as terms over
    symbolic wavenumbers: {name: (term, arguments)}."""
    P = ctx.program()
    calls, names = [("set_pk_lin",)], []
    for n in ("init_gamma1_1loop", "init_gamma2d_1loop", "init_gamma2t_1loop"):
        calls.append((n,))
    en = {}
    for u in P.units.values():
        en.update(u.enums)
    for n, key, flag in (("gamma1_1loop", "1d", "DELTA"), ("gamma1_1loop", "1t", "THETA"), ("gamma2d_1loop", "2d", None), ("gamma2t_1loop", "2t", None)):
        fd = P.funcs.get(n)
        if fd is None:
            raise AnalysisError("no function %s" % n)
        ws = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "float"]
        over = {p: sym("leg", str(i)) for i, p in enumerate(ws)}
        if flag:
            over[[p for p in fd.params if p not in ws][0]] = num(en[flag])
        calls.append((n, over, key))
        names.append((key, len(calls) - 1, len(ws)))
    r = ctx.run(calls, (), verbosity=None, init="mixed")
    return {key: (r.rets[i], n) for key, i, n in names}

def loop_points(ctx, n):
    """Points of the six-dimensional integrals covering, pairwise, the orders of the loop momentum and
    of the momenta it is exchanged with; the last one lies outside the half region."""
    import math
    pool = []
    rng = [(0.15, 0.3), (0.1, 0.4), (-0.9, 0.9), (0.05, 0.3), (0.05, 0.95), (0, 1)]
    for i in range(600):
        t = [round(lo + (hi - lo) * float(h01(ctx.seed, "a2", i, j)), 5) for j, (lo, hi) in enumerate(rng)]
        k, p, mu, q, th, ph = t
        th, ph = math.pi * th, 2 * math.pi * ph
        s = math.sqrt(1 - mu * mu)
        pv, kv = (p * s, 0, p * mu), (0, 0, k)
        legs = (pv, tuple(a - b for a, b in zip(kv, pv)), (0, 0, -k))
        qv = (q * math.sin(th) * math.cos(ph), q * math.sin(th) * math.sin(ph), q * math.cos(th))
        bits = []
        for l in legs:
            for sg in (1, -1):
                bits.append(math.dist(l, [sg * a for a in qv]) > q)
        inside = p * p < sum(a * a for a in legs[1])
        pairs = {(a, b, bits[a], bits[b]) for a in range(6) for b in range(a)}
        pool.append((inside, pairs, [repr(x) for x in t]))
    out, seen = [], set()
    inner = [x for x in pool if x[0]]
    for i in range(n - 1):
        b = max(inner, key=lambda x: len(x[1] - seen))
        seen |= b[1]
        out.append(b[2])
        inner.remove(b)
    return out + [[x for x in pool if not x[0]][0][2]]

def a_2loop(ctx):
    cols = columns_of(ctx, "A_2loop")
    if len(cols) != 5:
        raise AnalysisError("A has %d components" % len(cols))
    vert = vertices(ctx)
    # -- part I: loop-corrected propagators and vertices, two linear spectra
    sig1 = lambda y, cut: mpf("0.4") + 1 / (1 + 20 * y * cut)
    sig = sig1
    cutv = mpf("0.5")
    # the third point is damped by about exp(-50); in the fourth one momentum is so small that its
    # propagator may be taken at tree level
    for i, (ks, xs, vs, amp_sig) in enumerate([("0.23", "0.55", "0.37", 1), ("0.31", "0.8", "0.7", 1), ("0.22", "0.7", "0.52", 700), ("0.2", "0.02", "0.52", 1), ("0.19", "1.7", "0.3", 1)][: 5 if ctx.thorough else 4]):
        sig = lambda y, cut: amp_sig * sig1(y, cut)
        k, x, v = mpf(ks), mpf(xs), mpf(vs)
        q = x * k
        hi = min(mpf(1), 1 / (2 * x))
        mu = -1 + (hi + 1) * v
        q, r, mur = momenta(k, x, mu)
        amp = mpf("0.05")
        spec = lambda tab, y: amp / (1 + 7 * y * y)
        pt = [mpf("0.999"), mpf("0.999"), mpf("0.5"), mpf("0.5"), mpf("0.5")]      # outside the half region
        seed = ctx.seed
        got = []
        legs = {"q": q, "r": r, "k": k}
        for c in range(5):
            z = OnePoint(seed, k, mpmath.log(q / QMIN) / cols[c].L, v, spec, sig=sig, pt=pt)
            got.append(z(cols[c].e) / cols[c].L / (hi + 1))
        def gam(key, *ks_):
            e, n = vert[key]
            z = OnePoint(seed, k, mpmath.log(q / QMIN) / cols[0].L, v, spec)
            for j, y in enumerate(ks_):
                z.env[sym("leg", str(j))] = y
            return z(e)
        wants = []
        for small in (False, True)[: 2 if q < mpf("1e-2") else 1]:
          dens = []
          for order in ("qrk", "rqk"):
            L = [legs[o] for o in order]
            def G1(j, a):
                if small and L[j] < mpf("1e-2"):
                    return mpf(1)
                return 1 + L[j] ** 2 * sig(L[j], cutv) / 2 + gam("1" + a, L[j])
            def G2(i_, a):
                u, w = [L[j] for j in range(3) if j != i_]
                cosv = (L[i_] ** 2 - u * u - w * w) / (2 * u * w)
                kern = PT.F2(a, PT.V(0, 0, u), (w * mpmath.sqrt(1 - cosv ** 2), mpf(0), w * cosv))
                return kern * (1 + L[i_] ** 2 * sig(L[i_], cutv) / 2) + gam("2" + a, u, w, L[i_])
            ex = mpmath.exp(-sum(y * y * sig(y, cutv) for y in L) / 2)
            bis = {b + c: ex * PT.B_tree("t" + b + c, None, G1, G2, [spec("", y) for y in L]) for b in "dt" for c in "dt"}
            dens.append(bis)
          a1, ok1 = PT.A_project(k, q, mu, dens[0])
          a2, ok2 = PT.A_project(k, r, mur, dens[1])
          wants.append([s + t * (q / r) ** 3 for s, t in zip(a1, a2)])
        want = min(wants, key=lambda w: abs(w[0] - got[0]))
        compare(ctx, "component of A with loop-corrected vertices", got, want, "A2:I", "A (part I) at k=%s q/k=%s mu=%s" % (ks, xs, mpmath.nstr(mu, 4)))
    sig = sig1
    # -- parts II and III: tree-level vertices, three linear spectra, integrated over both momenta
    for ipt, (ks, p, mus, qs, ths, phs) in enumerate(loop_points(ctx, 24 if ctx.thorough else 9)):
        sig = sig1 if ipt % 4 != 2 else lambda y, cut: sig1(y, cut) * fac
        k, p, mu, q = mpf(ks), mpf(p), mpf(mus), mpf(qs)
        L = cols[0].L
        pt = [mpmath.log(p / QMIN) / L, (mu + 1) / 2, mpmath.log(q / QMIN) / L, mpf(ths), mpf(phs)]
        th, ph = mpmath.pi() * mpf(ths), 2 * mpmath.pi() * mpf(phs)
        u0, v0 = mpf("0.613"), mpf("0.4")
        qI = QMIN * mpmath.exp(u0 * L)
        spec0 = lambda y: (1 + y) / (1 + 30 * y * y) ** 2
        # the spectrum vanishes at the node of part I, which then adds nothing
        spec = lambda tab, y: mpf(0) if abs(y / qI - 1) < mpf("0.2") else spec0(y)
        sq = mpmath.sqrt(1 - mu * mu)
        pv = PT.V(p * sq, 0, p * mu)
        kv = PT.V(0, 0, k)
        rv = PT.vadd(kv, PT.vneg(pv))
        qv = (q * mpmath.sin(th) * mpmath.cos(ph), q * mpmath.sin(th) * mpmath.sin(ph), q * mpmath.cos(th))
        r = mpmath.sqrt(PT.norm2(rv))
        x = p / k
        fac = 100 / sum(y * y * sig1(y, cutv) for y in (k, p, r))
        mur = (1 - x * mu) * k / r
        measure = q ** 3 * mpmath.sin(th) / (2 * mpmath.pi()) ** 3
        ex = mpmath.exp(-sum(y * y * sig(y, cutv) for y in (k, p, r)) / 2)
        dens = []
        for legs in ((pv, rv, PT.vneg(kv)), (rv, pv, PT.vneg(kv))):
            dens.append({b + c: ex * measure * PT.B_loop("t" + b + c, legs, qv, spec0) for b in "dt" for c in "dt"})
        a1, _ = PT.A_project(k, p, mu, dens[0])
        a2, _ = PT.A_project(k, r, mur, dens[1])
        inside = mu < k / (2 * p)
        want = [(s + t * (p / r) ** 3) if inside else mpf(0) for s, t in zip(a1, a2)]
        got = []
        for c in range(5):
            z = OnePoint(ctx.seed, k, u0, v0, spec, sig=sig, pt=pt)
            got.append(z(cols[c].e) / (L * 2 * L * mpmath.pi() * 2 * mpmath.pi()))
        if inside and not any(want):
            raise AnalysisError("the definition vanishes at this point")
        compare(ctx, "component of A with three spectra", got, want, "A2:II", "A (parts II and III) at k=%s p=%s q=%s" % (ks, mpmath.nstr(p, 3), qs))

_gauss = {}
def gauss(n):
    if n not in _gauss:
        import numpy.polynomial.legendre as LG
        out = []
        xs, _ = LG.leggauss(n)
        for x in xs:
            x = mpf(float(x))
            for _i in range(4):
                p, p1 = mpmath.legendre(n, x), mpmath.legendre(n - 1, x)
                d = n * (x * p - p1) / (x * x - 1)
                x = x - p / d
            out.append((x, 2 / ((1 - x * x) * d * d)))
        _gauss[n] = out
    return _gauss[n]

def run(ctx):
    polynomial(ctx)
    b_term(ctx)
    a_term(ctx)
    a_2loop(ctx)
