"""Agreement of the parts of the library that compute the same quantity.  Columns of all computations are
extracted from the C sources and numbered at the same points, settings of the same name having the same
number: columns of the same name in the 1-loop and 2-loop spectra must be equal for each pair of fields;
the linear power and dispersion columns of every computation must be the look-up and the running
dispersion at the output wavenumber; the columns extracted from the alternative builds (older Cuba
interface, single precision) must be the same formulas.  The spectra the C library assembles and those of
the Python classes are both compared with one expression of the columns."""
from checks.onepoint import *
import checks.c24 as C24

RULE = "same-named columns are the same formula in every computation and every build"
ASSUMPTIONS = ["real arithmetic: single and double precision builds are compared as formulas", "the integrators of the Cuba library integrate the function they are given over the unit cube"]
TOL = mpf(10) ** -20

def cols(ctx, f, fl, cfg=()):
    P = ctx.program(*cfg)
    r = ctx.run(linear_calls(ctx, P, f, fl), cfg, verbosity=None, init="mixed")
    return values(ctx, r, f)

def pair(fl):
    return ",".join(fl.values())

def shared(ctx, P, fs):
    """Computations with the same fields share their columns."""
    two = [f for f in fs if len(flags(P, f)) == 4]
    if len(two) < 2:
        raise AnalysisError("computations of two fields: %s" % two)
    for fl0 in flags(P, two[0]):
        ab = list(fl0.values())
        C = {f: cols(ctx, f, [x for x in flags(P, f) if list(x.values()) == ab][0]) for f in two}
        for seed in points(ctx, 3):
            vs = {f: Named(seed) for f in two}
            for f, g in zip(two, two[1:]):
                common = [n for n in C[f] if n in C[g]]
                if len(common) < 4:
                    raise AnalysisError("%s and %s share only %s" % (f, g, common))
                for n in common:
                    x, y = vs[f](C[f][n]), vs[g](C[g][n])
                    ctx.check("shared column", close(x, y, TOL), "shared:%s" % n[0], lambda: "column %s of (%s) is %s in %s and %s in %s" % (n[0], pair(fl0), mpmath.nstr(x, 8), f, mpmath.nstr(y, 8), g))
    ctx.sample("%s and %s share %s" % (two[0], two[1], ", ".join(n for n, c in common)))

def tabulated(ctx, P, fs):
    """Linear power and dispersion at the output wavenumbers."""
    n = 0
    for f in fs:
        for fl in flags(P, f)[:1 if not ctx.thorough else 4]:
            C = cols(ctx, f, fl)
            for seed in points(ctx, 2):
                k = mpf("0.05") + h01(seed, "k")
                spec = lambda tab, y: (1 + y) / (1 + 30 * y * y) ** 2 * (1 if tab == "arg:set_pk_lin.pk" else 2)
                sig = lambda y, cut: 1 / (3 + y * y + cut)
                for name, want in (("pk_lin", spec("arg:set_pk_lin.pk", k)), ("sigmad2", sig(k, mpf("0.5")))):
                    if (name, 0) not in C:
                        continue
                    got = OnePoint(seed, k, mpf("0.3"), mpf("0.4"), spec, sig=sig)(C[name, 0])
                    ctx.check("tabulated column", close(got, want, TOL), "table:%s:%s" % (f, name), "%s: column %s at wavenumber %s is %s, the %s of the linear spectrum is %s" % (f, name, mpmath.nstr(k, 4), mpmath.nstr(got, 8), "value" if name == "pk_lin" else "running dispersion", mpmath.nstr(want, 8)))
                    n += 1
    # with the same settings, the same column
    C = {f: cols(ctx, f, flags(P, f)[0]) for f in fs}
    for seed in points(ctx, 2):
        for name in ("pk_lin", "sigmad2"):
            v = [(f, Named(seed)(C[f][name, 0])) for f in fs if (name, 0) in C[f]]
            for f, x in v[1:]:
                ctx.check("tabulated column", close(x, v[0][1], TOL), "tables:%s:%s" % (f, name), lambda: "column %s differs between %s and %s for the same settings" % (name, v[0][0], f))
    if n < 12:
        raise AnalysisError("tabulated columns not found")

def builds(ctx, P, fs):
    for cfg in (("_CUBA15",), ("_FLOAT32",)):
        Q = ctx.program(*cfg)
        n = 0
        for f in fs:
            if cfg == ("_CUBA15",) and f not in ("spectrum_2loop", "A_2loop"):
                continue
            fl = flags(P, f)[1:2] or flags(P, f)[:1]
            if f not in [x[len("run_terms_"):] for x in Q.funcs if x.startswith("run_terms_")]:
                ctx.check("computation in every build", False, "build:%s:%s" % (cfg[0], f), "%s is missing from the %s build" % (f, cfg[0]))
                continue
            A, B = cols(ctx, f, fl[0]), cols(ctx, f, fl[0], cfg)
            for key in A:
                name, c = key
                if f == "A_2loop" and (c not in (0, 4) or cfg == ("_FLOAT32",)) and not ctx.thorough:
                    continue
                if cfg == ("_CUBA15",) and not (name == "pk_gamma3_tree" or f == "A_2loop"):
                    continue
                for s in points(ctx, 2)[:2 if f == "A_2loop" else None]:
                    L = mpmath.log(QMAX / QMIN)
                    spec = lambda tab, y: (1 + y) / (1 + 30 * y * y) ** 2
                    sig = lambda y, cut: 1 / (3 + y * y + cut)
                    t = [mpf("0.4") + h01(s, "cube", j) / 5 for j in range(6)]
                    k = mpf("0.1") + h01(s, "k")
                    x, y = [OnePoint(s, k, mpf("0.45") + h01(s, "u") / 10, h01(s, "v"), spec, sig=sig, pt=t)(E[key]) for E in (A, B)]
                    if x != 0:
                        n += 1
                    ctx.check("column in another build", x == y or close(x, y, TOL), "build:%s:%s:%s" % (cfg[0], f, name), lambda: "column %s[%d] of %s is %s, in the %s build %s" % (name, c, f, mpmath.nstr(x, 8), cfg[0], mpmath.nstr(y, 8)))
        if n < 4:
            raise AnalysisError("build %s: only %d columns compared" % (cfg[0], n))
        ctx.stats["builds compared"] += 1

def run(ctx):
    P = ctx.program()
    fs = ctx.families()
    shared(ctx, P, fs)
    tabulated(ctx, P, fs)
    builds(ctx, P, fs)
    C24.c_spectra(ctx)
    C24.python(ctx)
