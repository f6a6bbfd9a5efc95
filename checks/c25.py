"""Derived quantities of the Python layer.  The methods that integrate or model a spectrum (sigmav,
sigmar, sigma8, the no-wiggle spectrum and its transfer function, the shot-noise mask, the plain
interpolation) are interpreted over the syntax tree on symbolic columns and arguments, for every class
that has them and every way of giving their arguments, with wavenumbers below, at and above the limits
they compare with, and numbered at points against their definitions."""
import pyfront as PF
from checks.layer import *
from checks.vn import *
from checks.c24 import prepared, holders, same_list

RULE = "derived quantity = its definition, for every class and every way of giving its arguments"
ASSUMPTIONS = ["real arithmetic", "no-wiggle spectrum of Eisenstein & Hu 1998, eqs 26, 28-31", "trapezoidal rule on the wavenumbers held"]
TOL = mpf(10) ** -12
RADII = (None, None, "1e-2", "0.3", "200")          # spheres from far below to far above the wavelengths
TOL_WINDOW = mpf(10) ** -9                           # an expansion of the window at small arguments may stand in for it

class At(PF.PyPoint):
    def __init__(self, seed, given=None):
        PF.PyPoint.__init__(self, seed)
        self.given = given or {}
    def compute(self, t):
        return self.given[t] if t in self.given else PF.PyPoint.compute(self, t)

def trapz(ys, xs):
    return sum(((ys[i] + ys[i + 1]) * (xs[i + 1] - xs[i]) / 2 for i in range(len(xs) - 1)), mpf(0))

def sizes(ctx):
    return (4, 2, 1) + ((7,) if ctx.thorough else ())

def setup(ctx, cls, vn, nk):
    s, o, fields, sh = prepared(ctx, cls, nk)
    s.it.point = vn
    PF.POINT[0] = vn
    return s, o, fields, sh

def number(vn, a):
    return [vn(lift(x).t) for x in np.atleast_1d(np.asarray(a, object)).ravel()]

def judge(ctx, what, key, text, got, want, tol=TOL):
    ok = len(got) == len(want) and all(abs(x - y) <= tol * max(abs(x), abs(y)) for x, y in zip(got, want))
    ctx.check(what, ok, key, lambda: "%s: %s, the definition gives %s" % (text, [mpmath.nstr(x, 9) for x in got], [mpmath.nstr(x, 9) for x in want]))

def attempt(ctx, key, text, f):
    try:
        return f()
    except PyRaise as e:
        ctx.check("evaluates", False, key, "%s raises %s" % (text, e))
        return None

def dispersions(ctx):
    n = 0
    for cls, c in holders(ctx):
        s, o, fields, sh = prepared(ctx, cls, 4)
        if not has(s.it, o, "pk") or sh.get("pk"):
            continue
        one = "gamma1a_1loop" in fields
        for nk in sizes(ctx):
            for ipt, seed in enumerate(points(ctx, 5)):
                size = RADII[ipt % len(RADII)]
                for how, given in [("nothing given", ()), ("growth", ("Dgrowth",))] + ([("dispersion", ("sigmad2",)), ("both", ("Dgrowth", "sigmad2"))] if one else []):
                    kw = {x: S(sym("user", x)) for x in given}
                    r = S(sym("user", "r"))
                    for m, args in (("sigmav", ()), ("sigmar", (r,)), ("sigma8", ())):
                        if size is not None and m != "sigmar":
                            continue
                        vn = At(seed, {r.t: mpf(size)} if size is not None else None)
                        s, o, fields, sh = setup(ctx, cls, vn, nk)
                        if not has(s.it, o, m):
                            continue
                        text = "%s.%s (%s)" % (cls, m, how)
                        before = contents(s, o)
                        pk = attempt(ctx, "raises:%s.pk" % cls, cls + ".pk", lambda: s.do(o, "pk", **kw))
                        v = attempt(ctx, "raises:%s.%s" % (cls, m), text, lambda: s.do(o, m, *args, **kw))
                        if pk is None or v is None:
                            return
                        ks, ps = number(vn, s.get(o, "k")), number(vn, pk)
                        if m == "sigmav":
                            w = mpmath.sqrt(trapz(ps, ks) / (6 * mpmath.pi ** 2))
                        else:
                            R = vn(r.t) if m == "sigmar" else mpf(8)
                            top = [3 * (mpmath.sin(k * R) - k * R * mpmath.cos(k * R)) / (k * R) ** 3 for k in ks]
                            w = mpmath.sqrt(trapz([p * (t * k) ** 2 for p, t, k in zip(ps, top, ks)], ks) / (2 * mpmath.pi ** 2))
                        judge(ctx, "dispersion", "%s:%s" % (m, cls), "%s of %d wavenumbers" % (text, nk), number(vn, v), [w], TOL if size is None else TOL_WINDOW)
                        after = contents(s, o)
                        ctx.check("columns left unchanged", all(same_list(before[x], after[x]) for x in before), "changes:%s.%s" % (cls, m), "%s changes the columns" % text)
                        n += 1
    if n < 20:
        raise AnalysisError("classes with sigmav, sigmar, sigma8 not found (%d cases)" % n)

def eh(k, h, ob, om, T):
    """Eisenstein & Hu 1998, shape of the spectrum without oscillations; k in h/Mpc."""
    fb, th = ob / om, T / mpf("2.7")
    s = mpf("44.5") * mpmath.log(mpf("9.83") / om) / mpmath.sqrt(1 + 10 * ob ** mpf("0.75"))      # Mpc
    al = 1 - mpf("0.328") * mpmath.log(431 * om) * fb + mpf("0.38") * mpmath.log(mpf("22.3") * om) * fb ** 2
    geff = om / h * (al + (1 - al) / (1 + (mpf("0.43") * k * h * s) ** 4))
    q = k * th ** 2 / geff
    L = mpmath.log(2 * mpmath.e + mpf("1.8") * q)
    return L / (L + (mpf("14.2") + 731 / (1 + mpf("62.5") * q)) * q ** 2)

WAYS = [(), ("h",), ("omega_b", "omega_m"), ("Omega_m", "Omega_b"), ("h", "Omega_m"), ("h", "Omega_b", "T_cmb"), ("h", "omega_b", "omega_m", "T_cmb"), ("omega_m", "Omega_m", "h"), ("omega_b", "Omega_b")]
DEFAULT = {"h": "0.676", "omega_b": "0.022", "omega_m": "0.21", "T_cmb": "2.7255"}
RANGE = {"h": ("0.5", "0.9"), "omega_b": ("0.01", "0.04"), "omega_m": ("0.1", "0.3"), "T_cmb": ("2.5", "3"), "Omega_m": ("0.2", "0.5"), "Omega_b": ("0.03", "0.07")}

def nowiggle(ctx):
    n = 0
    for cls, c in holders(ctx):
        s, o, fields, sh = prepared(ctx, cls, 4)
        if not has(s.it, o, "transfer"):
            continue
        for nk in sizes(ctx)[:2] + (1,):
            for seed in points(ctx, 2):
                # a quantity may be given as zero: it is given all the same
                for way, zero in [(w, None) for w in WAYS] + [(("h", "Omega_b", "T_cmb"), "Omega_b"), (("omega_b", "omega_m"), "omega_b"), ((), "A"), ((), "n_s")]:
                    kw = {x: S(sym("user", x)) for x in way}
                    def case():
                        vn = At(seed)
                        for x in way:
                            lo, hi = RANGE[x]
                            vn.given[kw[x].t] = mpf(lo) + (mpf(hi) - mpf(lo)) * vn.rnd(x, seed) if zero != x else mpf(0)
                        s, o, fields, sh = setup(ctx, cls, vn, nk)
                        v = {x: vn(kw[x].t) if x in kw else mpf(d) for x, d in DEFAULT.items()}
                        for a, b in (("omega_m", "Omega_m"), ("omega_b", "Omega_b")):
                            if b in kw:
                                v[a] = vn(kw[b].t) * v["h"] ** 2
                        return vn, s, o, v
                    vn, s, o, v = case()
                    text = "%s.transfer(%s)" % (cls, ", ".join(way))
                    ks = number(vn, s.get(o, "k"))
                    T = [eh(k, v["h"], v["omega_b"], v["omega_m"], v["T_cmb"]) for k in ks]
                    r = attempt(ctx, "raises:transfer", text, lambda: s.do(o, "transfer", **kw))
                    if r is not None:
                        judge(ctx, "transfer function", "transfer:%s" % cls, text, number(vn, r), T)
                    for how in ("normalised to a spectrum", "amplitude given", "both given"):
                        for tilt in (False, True):
                            vn, s, o, v = case()
                            k0 = s.get(o, "k")
                            extra = {}
                            if how != "amplitude given":
                                extra["pk"] = symarr("user.pk", nk)
                            if how != "normalised to a spectrum":
                                extra["A"] = S(sym("user", "A"))
                            if tilt:
                                extra["n_s"] = S(sym("user", "n_s"))
                            if zero in extra:
                                vn.given[extra[zero].t] = mpf(0)
                            text = "%s.run_terms(%s), %s" % (cls, ", ".join(list(extra) + list(way)), how)
                            s.do(o, "set_terms", k0)
                            if attempt(ctx, "raises:run_terms", text, lambda: (s.do(o, "run_terms", **dict(kw, **extra)), 1)) is None:
                                continue
                            ns = vn(extra["n_s"].t) if tilt else mpf(1)
                            shp = [k ** ns * t * t for k, t in zip(ks, T)]
                            A = vn(extra["A"].t) if "A" in extra else vn(lift(extra["pk"][0]).t) / shp[0]
                            judge(ctx, "no-wiggle spectrum", "nowiggle:%s" % cls, text, number(vn, s.get(o, "pk")), [A * x for x in shp])
                            ctx.check("wavenumbers kept", same_list(list(s.get(o, "k")), list(k0)), "kept:%s" % cls, "%s changes the wavenumbers" % text)
                            n += 1
    if n < 20:
        raise AnalysisError("no-wiggle spectrum not found")

def shotnoise(ctx):
    n = 0
    for cls, c in holders(ctx):
        s, o, fields, sh = prepared(ctx, cls, 4)
        if not has(s.it, o, "shotnoise"):
            continue
        nk = 5
        for lo in (-1, 0, "0", 1, 4):         # how many wavenumbers lie below kmin; "0": kmin is the first one
            for hi in (-1, 0, "4", 2):        # how many lie above kmax
                for seed in points(ctx, 1):
                    vn = At(seed)
                    s, o, fields, sh = setup(ctx, cls, vn, nk)
                    ks = number(vn, s.get(o, "k"))
                    kw = {}
                    kmin, kmax = mpf("5e-4"), mpf(10)
                    if lo != -1:
                        kw["kmin"] = S(sym("user", "kmin"))
                        kmin = ks[0] if lo == "0" else ks[0] * mpf("0.6") if lo == 0 else (ks[lo - 1] + ks[lo]) / 2
                        vn.given[kw["kmin"].t] = kmin
                    if hi != -1:
                        kw["kmax"] = S(sym("user", "kmax"))
                        kmax = ks[4] if hi == "4" else ks[-1] * mpf("1.4") if hi == 0 else (ks[nk - hi - 1] + ks[nk - hi]) / 2
                        vn.given[kw["kmax"].t] = kmax
                    if kmin > kmax:
                        continue
                    r = attempt(ctx, "raises:shotnoise", "%s.shotnoise" % cls, lambda: s.do(o, "shotnoise", **kw))
                    if r is None:
                        return
                    want = [mpmath.exp(-(k / kmax - 1) ** 2) if k > kmax else mpmath.exp(-(kmin / k - 1) ** 2) if k < kmin else mpf(1) for k in ks]
                    judge(ctx, "shot-noise mask", "shotnoise:%s" % cls, "%s.shotnoise(%s)" % (cls, ", ".join(kw)), number(vn, r), want)
                    n += 1
        # the limits by default: wavenumbers on both sides
        vn = At(1)
        s, o, fields, sh = setup(ctx, cls, vn, nk)
        ks = [mpf(x) for x in ("1e-4", "5e-4", "1", "10", "12")]
        for x, z in zip(list(s.get(o, "k")), ks):
            vn.given[lift(x).t] = z
        r = s.do(o, "shotnoise")
        judge(ctx, "shot-noise mask", "shotnoise:%s" % cls, "%s.shotnoise()" % cls, number(vn, r), [mpmath.exp(mpf(-16)), mpf(1), mpf(1), mpf(1), mpmath.exp(-(mpf("1.2") - 1) ** 2)])
    if not n:
        raise AnalysisError("no shot-noise mask found")

def run(ctx):
    dispersions(ctx)
    nowiggle(ctx)
    shotnoise(ctx)
