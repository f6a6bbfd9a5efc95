"""Assembly of the spectra.  (1) Every spectrum method of every Python class (pk, pk_*, damped or not)
is interpreted over the syntax tree on symbolic columns, growth factor and damping, for each way of
giving its arguments, and numbered at points: it must be the resummed expression of the columns.
(2) The C routines that assemble a spectrum are extracted as formulas over the same columns and must
be the same expression at growth one; the C routine that also computes the columns must return the
expression of the columns the term computation gives.  (3) A session of the class of corrections
that takes 1-loop spectra is interpreted: the tables it hands to the library must be those expressions
of the terms computed for these fields.  (4) rescale must multiply each column by the declared power."""
from checks.c13 import PyNum
from checks.layer import *
from checks.vn import *
from checks.sessions import Calc

RULE = "spectrum method = resummed expression of the columns, in Python, in C and in what B is given"
ASSUMPTIONS = ["real arithmetic", "resummation of Taruya et al. 2012, eqs 23-24"]
TOL = mpf(10) ** -25

def resummed(c, D, s):
    """The spectrum of the columns c, growth factor D and displacement dispersion s."""
    f = c["k"] ** 2 * D ** 2 * s / 2
    e = mpmath.exp(-f)
    if "gamma1a_2loop" not in c:
        g = [D * e * (1 + f + D ** 2 * c["gamma1%s_1loop" % x]) for x in "ab"]
        return g[0] * g[1] * c["pk_lin"] + D ** 4 * e * e * c["pk_gamma2_tree_tree"]
    g = [D * e * (1 + f + f * f / 2 + D ** 2 * c["gamma1%s_1loop" % x] * (1 + f) + D ** 4 * c["gamma1%s_2loop" % x]) for x in "ab"]
    return (g[0] * g[1] * c["pk_lin"]
            + D ** 4 * e * e * (c["pk_gamma2_tree_tree"] * (1 + f) ** 2 + c["pk_gamma2_tree_1loop"] * D ** 2 * (1 + f) + c["pk_gamma2_1loop_1loop"] * D ** 4)
            + D ** 6 * e * e * c["pk_gamma3_tree"])

def damped(c, D, s, name):
    f = c["k"] ** 2 * D ** 2 * s / 2
    return D ** 4 * mpmath.exp(-2 * f) * (1 + f) ** 2 * c[name]

def expected(o, fields, scale, m):
    """The expression of method m: a function of (columns at one position, D, sigmad2)."""
    if m == "pk" and "gamma1a_1loop" in fields:
        return resummed
    if m == "pk_sigma3sq":
        return lambda c, D, s: D ** 4 * c["pk_lin"] * c["sigma3sq"]
    if m.endswith("_damp") and m[:-5] in fields:
        return lambda c, D, s: damped(c, D, s, m[:-5])
    if m in fields:
        p = 2 * scale[m]
        return lambda c, D, s: D ** p * c[m]
    return None

WAYS = [("nothing given", {}), ("growth", dict(Dgrowth=1)), ("dispersion", dict(sigmad2=1)), ("growth and dispersion", dict(Dgrowth=1, sigmad2=1))]

def prepared(ctx, cls, nk=3):
    """A session with an object of this class whose columns are symbolic."""
    s = Session(ctx, light=True)
    o = s.new(cls)
    fields = list(s.it.attr(o, "FIELDS"))
    sh = dict(s.it.attr(o, "SHAPE"))
    for n in fields:
        if n == "k":
            v = grid("kcol", nk)
        else:
            shape = (nk,) + tuple(int(d) for d in sh.get(n, ()))
            v = np.empty(shape, object)
            for i, ix in enumerate(np.ndindex(shape)):
                v[ix] = S(sym("col", n, str(i)))
        s.set(o, n, v)
    return s, o, fields, sh

def holders(ctx):
    """Classes with columns and spectrum methods."""
    s = Session(ctx, light=True)
    out = []
    for n, c in s.C.items():
        try:
            o = s.new(n)
        except PyRaise:
            continue
        if has(s.it, o, "FIELDS") and has(s.it, o, "SCALE") and list(s.it.attr(o, "FIELDS")):
            out.append((n, c))
    if len(out) < 8:
        raise AnalysisError("only %d classes hold columns" % len(out))
    return out

def methods(c):
    """Names of the spectrum methods a class has, its bases' included."""
    out = set()
    for b in c.mro:
        for n in getattr(b, "ns", getattr(b, "dict", {})):
            if n == "pk" or (n.startswith("pk_") and n != "pk_interp"):
                out.add(n)
    return sorted(out)

def row(vn, fields, sh, a, i):
    """Columns at position i: scalars, and lists for the columns with components."""
    c = {}
    for n in fields:
        v = np.asarray(a[n], object)[i]
        c[n] = vn(lift(v).t) if not isinstance(v, np.ndarray) else np.array([vn(lift(x).t) for x in v.ravel()], object)
    return c

def python(ctx):
    nm = 0
    for cls, c in holders(ctx):
        for m in methods(c):
            for how, given in WAYS:
                for nk in (3, 1):
                    s, o, fields, sh = prepared(ctx, cls, nk)
                    want = expected(o, fields, dict(s.it.attr(o, "SCALE")), m)
                    if want is None:
                        ctx.unknown("%s.%s: no stated expression" % (cls, m))
                        continue
                    takes = m == "pk" and "gamma1a_1loop" in fields or m.endswith("_damp")
                    if "sigmad2" in given and not takes:
                        continue
                    kw = {x: S(sym("user", x)) for x in given}
                    before = contents(s, o)
                    try:
                        r = np.asarray(s.do(o, m, **kw), object)
                        # a second evaluation must not be affected by the first
                        r2 = np.asarray(s.do(o, m, **kw), object)
                    except PyRaise as e:
                        ctx.check("spectrum method evaluates", False, "raises:%s.%s" % (cls, m), "%s.%s (%s) raises %s" % (cls, m, how, e))
                        break
                    after = contents(s, o)
                    ctx.check("columns left unchanged", before.keys() == after.keys() and all(same_list(before[n], after[n]) for n in before), "changes:%s.%s" % (cls, m), "%s.%s changes the columns of the object" % (cls, m))
                    a = {n: s.get(o, n) for n in fields}
                    for seed in points(ctx, 2):
                        vn = PyNum(seed)
                        D = vn(kw["Dgrowth"].t) if "Dgrowth" in kw else mpf(1)
                        if not ctx.check("length of a spectrum", r.shape[:1] == (nk,), "length:%s.%s" % (cls, m), "%s.%s returns shape %s for %d wavenumbers" % (cls, m, r.shape, nk)):
                            break
                        for i in range(nk):
                            q = row(vn, fields, sh, a, i)
                            sd = vn(kw["sigmad2"].t) if "sigmad2" in kw else q.get("sigmad2")
                            w = np.atleast_1d(want(q, D, sd))
                            for rr in (r, r2):
                                g = [vn(lift(x).t) for x in np.atleast_1d(np.asarray(rr[i], object)).ravel()]
                                ok = len(g) == len(w) and all(close(x, y, TOL) for x, y in zip(g, w))
                                ctx.check("spectrum method", ok, "method:%s.%s" % (cls, m),
                                          lambda: "%s.%s (%s): %s at position %d, the columns give %s" % (cls, m, how, [mpmath.nstr(x, 8) for x in g], i, [mpmath.nstr(x, 8) for x in w]))
            nm += 1
    if nm < 15:
        raise AnalysisError("only %d spectrum methods found" % nm)
    ctx.stats["spectrum methods"] = nm

def rescaled(ctx):
    """rescale multiplies columns by the declared powers, and is then the growth factor of every method."""
    for cls, c in holders(ctx):
        s, o, fields, sh = prepared(ctx, cls)
        if not has(s.it, o, "rescale"):
            continue
        L = S(sym("user", "Dgrowth"))
        before = {n: list(np.asarray(s.get(o, n), object).ravel()) for n in fields}
        ms = [(m, ()) for m in methods(c)]
        z, mu2, R = [S(sym("user", x)) for x in ("k", "mu2", "r")]
        if has(s.it, o, "pk"):
            ms += [("pk_interp", (z, mu2) if sh.get("pk") else (z,))]
            if not sh.get("pk"):
                ms += [("sigmav", ()), ("sigmar", (R,)), ("sigma8", ())]
        ms = [(m, a) for m, a in ms if has(s.it, o, m)]
        grown, ungrown = {}, {}
        def evaluate(m, a, **kw):
            try:
                return np.asarray(s.do(o, m, *a, **kw), object)
            except PyRaise as e:
                ctx.check("method evaluates", False, "raises:%s.%s" % (cls, m), "%s.%s raises %s" % (cls, m, e))
        for m, a in ms:
            grown[m] = evaluate(m, a, Dgrowth=L)
        try:
            s.do(o, "rescale", L)
        except PyRaise as e:
            ctx.check("rescale evaluates", False, "rescale:%s" % cls, "%s.rescale raises %s" % (cls, e))
            continue
        for m, a in ms:
            ungrown[m] = evaluate(m, a)
        sc = dict(s.it.attr(o, "SCALE"))
        for seed in points(ctx, 2):
            vn = PyNum(seed)
            for n in fields:
                if not ctx.check("power declared", n in sc, "undeclared:%s:%s" % (cls, n), "%s declares no power for %s" % (cls, n)):
                    continue
                f = vn(L.t) ** (2 * sc[n])
                ok = all(close(vn(lift(y).t), f * vn(lift(x).t), TOL) for x, y in zip(before[n], np.asarray(s.get(o, n), object).ravel()))
                ctx.check("rescaled column", ok, "rescale:%s:%s" % (cls, n), "%s.rescale(D) does not multiply %s by D**%s" % (cls, n, 2 * sc[n]))
            for m, g in grown.items():
                r = ungrown[m]
                if r is None or g is None:
                    continue
                ok = r.shape == g.shape and all(close(vn(lift(x).t), vn(lift(y).t), TOL) for x, y in zip(r.ravel(), g.ravel()))
                ctx.check("growth factor and rescale agree", ok, "growth:%s.%s" % (cls, m), "%s: %s(D) is not %s() of the columns rescaled by D" % (cls, m, m))

class ColNum(Named):
    """Columns of the same field have the same number in every routine."""
    def element(self, t, arr, idx):
        n = gname(arr)
        if n.startswith("arg:") and not n.startswith(("arg:set_pk_lin", "arg:find_pk")):
            return self.log_uniform("0.02", 1, "out", n.split(".")[-1], idx)
        return Named.element(self, t, arr, idx)

def c_spectra(ctx):
    """The C routines spectrum_*: one output array filled from the columns set before."""
    P = ctx.program()
    done = []
    for f in ctx.families():
        if f not in P.funcs or "set_terms_" + f not in P.funcs:
            continue
        fd = P.funcs[f]
        if len(fd.params) != 1 or fd.ty.params[0].kind != "ptr":
            continue
        r = ctx.run([("set_pk_lin",), ("set_terms_" + f,), (f,)], (), verbosity=None, init="mixed")
        st = P.funcs["set_terms_" + f]
        ptrs = [p for p, t in zip(st.params, st.ty.params) if t.kind == "ptr"]
        fields = [n for n, m in shapes(ctx, f)]
        out = r.args[(f, fd.params[0])]
        e = guarded_value(SC.cell(r, out, MODE), None, f)
        for seed in points(ctx, 3):
            vn = ColNum(seed)
            c = {}
            for n, p in zip(fields, ptrs):
                c[n] = vn(guarded_value(SC.cell(r, r.args[("set_terms_" + f, p)], MODE), None, f))
            got = vn(e)
            w = resummed(c, mpf(1), c["sigmad2"])
            ctx.check("assembled spectrum (C)", close(got, w, TOL), "c:%s" % f, lambda: "%s: %s, its columns give %s" % (f, mpmath.nstr(got, 8), mpmath.nstr(w, 8)))
        done.append(f)
    if len(done) < 2:
        raise AnalysisError("C routines assembling spectra: found %s" % done)
    for f in done:
        if "run_" + f not in P.funcs or "set_" + f not in P.funcs:
            continue
        for fl in flags(P, f):
            rf, sf = P.funcs["run_" + f], P.funcs["set_" + f]
            names = [p for p, t in zip(rf.params, rf.ty.params) if t.kind == "ptr"]
            over = dict(zip(names, fl.values()))
            base = ctx.run(linear_calls(ctx, P, f, fl), (), verbosity=None, init="mixed")
            cols = {n: e for (n, c), e in values(ctx, base, f).items()}
            r = ctx.run([("set_pk_lin",), ("set_" + f,), ("run_" + f, over)], (), verbosity=None, init="mixed")
            ptrs = [p for p, t in zip(sf.params, sf.ty.params) if t.kind == "ptr"]
            e = guarded_value(SC.cell(r, r.args[("set_" + f, ptrs[-1])], MODE), None, f)
            kin = SC.cell(base, base.args[("set_terms_" + f, [p for p, t in zip(P.funcs["set_terms_" + f].params, P.funcs["set_terms_" + f].ty.params) if t.kind == "ptr"][0])], MODE)
            for seed in points(ctx, 2):
                vn = ColNum(seed)
                c = {n: vn(x) for n, x in cols.items()}
                c["k"] = vn(guarded_value(kin, None, f))
                got, w = vn(e), resummed(c, mpf(1), c["sigmad2"])
                ctx.check("computed spectrum (C)", close(got, w, TOL), "crun:%s" % f, lambda: "run_%s(%s): %s, the computed columns give %s" % (f, ",".join(fl.values()), mpmath.nstr(got, 8), mpmath.nstr(w, 8)))
            ctx.sample("run_%s(%s)" % (f, ",".join(fl.values())))

class OutNum(PyNum):
    """Results of library calls are numbered by what the call computed: function, fields, column."""
    def __init__(self, seed, calls):
        PyNum.__init__(self, seed)
        self.calls = calls
    def compute(self, t):
        if t.op == "sym" and t.args and t.args[0] == "out":
            fl, col = self.calls[int(t.args[2])]
            return self.log_uniform("0.1", 2, "out", fl, col, t.args[3])
        return PyNum.compute(self, t)

def given_spectra(ctx):
    n = 0
    for f in family_table(ctx):
        if "set_spectra_" + f.suffix not in ctx.program().funcs:
            continue
        s = Session(ctx)
        seen = []
        calls = {}
        bound = {}
        inputs = []
        def hook(it, rec, s=s, seen=seen, calls=calls, bound=bound, inputs=inputs):
            strs = tuple(v.decode("latin1") for v in rec.params.values() if isinstance(v, bytes))
            if rec.func.startswith("set_terms_"):
                arrs = [v for v in rec.params.values() if isinstance(v, np.ndarray)]
                bound[rec.func[len("set_terms_"):]] = list(zip([n for n, m in shapes(ctx, rec.func[len("set_terms_"):])], arrs))
            if rec.func.startswith("run_terms_"):
                fam = rec.func[len("run_terms_"):]
                if fam == "spectrum_1loop":
                    inputs.append([list(np.asarray(v, object).ravel()) for v in rec.contents.values()])
                for key, a in rec.writes.items():
                    name = [n for n, v in bound.get(fam, ()) if v is a]
                    if isinstance(a, np.ndarray) and a.size and name:
                        t = lift(a.ravel()[0]).t
                        if t.op == "sym" and t.args[0] == "out":
                            calls[int(t.args[2])] = ((rec.func,) + strs, name[0])
            if rec.func.startswith("set_spectra_"):
                seen.append((strs, {p: list(np.asarray(v, object).ravel()) if isinstance(v, np.ndarray) else v for p, v in rec.params.items()}))
        s.lib.hooks.append(hook)
        c = Calc(s, f.cls, "x")
        for st in ("new", "lin", "terms", "run"):
            c.step(st)
        handed(ctx, f, s, c, seen, calls)
        for ins in inputs:
            ok = all(same_list(x, c.k) or same_list(x, c.pk) for x in ins) and any(same_list(x, c.k) for x in ins) and any(same_list(x, c.pk) for x in ins)
            ctx.check("terms of the linear spectrum given", ok, "inputs:%s" % f.cls, "%s computes the terms of the spectra it hands over from other data than its own linear spectrum" % f.cls)
        n += 1
    if n < 2:
        raise AnalysisError("classes that hand spectra to the library: %d" % n)

def same_list(x, y):
    return len(x) == len(y) and all(lift(p).t is lift(q).t for p, q in zip(x, y))

def handed(ctx, f, s, c, seen, calls):
    fields = {}
    for strs, p in seen:
        fields["".join(x[0] for x in strs)] = (strs, p)
    got = sorted(fields)
    ctx.check("fields of the spectra handed over", got == ["dt", "tt"], "given:%s" % f.cls, "%s hands the library the spectra %s, not those of delta-theta and theta-theta" % (f.cls, got))
    loop = f.cls.startswith("B2")
    for key, (strs, p) in fields.items():
        arrs = [v for v in p.values() if isinstance(v, list)]
        if not ctx.check("tables handed over", len(arrs) == 2 and len(arrs[0]) == len(arrs[1]) == len(c.k), "tables:%s" % f.cls, "%s hands over tables of sizes %s for a linear spectrum of %d" % (f.cls, [len(a) for a in arrs], len(c.k))):
            continue
        for seed in points(ctx, 2):
            vn = OutNum(seed, calls)
            for i in range(len(c.k)):
                k = vn(lift(c.k[i]).t)
                ok = close(vn(lift(arrs[0][i]).t), k, TOL)
                g = vn(lift(arrs[1][i]).t)
                if loop:
                    w = None
                    for nn, (fl, col) in calls.items():
                        if fl[1:] == strs and fl[0] == "run_terms_spectrum_1loop":
                            w = True
                    if w is None:
                        ctx.check("terms of the spectra handed over", False, "terms:%s" % f.cls, "%s hands over the %s spectrum without having computed the terms of these fields" % (f.cls, "-".join(strs)))
                        return
                    q = {col: vn.log_uniform("0.1", 2, "out", fl, col, str(i)) for nn, (fl, col) in calls.items() if fl[1:] == strs and fl[0] == "run_terms_spectrum_1loop"}
                    q["k"] = k
                    w = resummed(q, mpf(1), q["sigmad2"])
                else:
                    w = vn(lift(c.pk[i]).t)
                ctx.check("spectra handed over", ok and close(g, w, TOL), "spectra:%s:%s" % (f.cls, key),
                          lambda: "%s hands the library a %s spectrum that is not the %s spectrum of these fields (position %d: %s, expected %s)" % (f.cls, "-".join(strs), "1-loop" if loop else "linear", i, mpmath.nstr(g, 8), mpmath.nstr(w, 8)))

def run(ctx):
    python(ctx)
    rescaled(ctx)
    c_spectra(ctx)
    given_spectra(ctx)
