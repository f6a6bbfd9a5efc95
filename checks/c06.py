"""Degree analysis of output columns by value numbering: each column, as a formula over the linear
spectrum table, is numbered at points where the table values are multiplied by a constant, and must
be multiplied by the power of the constant declared in the class's SCALE table; guards must not
depend on the amplitude.  Table lookups are formal maps homogeneous in the table values, which the
lookup routines themselves are checked for.  On the Python side every method that takes a growth factor
is interpreted with it, and without it after rescaling the columns: both must be the same formula."""
from checks.vn import *
from checks.c24 import rescaled
from checks.tables import lookup_scaling

RULE = "column(lambda*P) = lambda**SCALE[column] * column(P), at every point, and no guard changes"
ASSUMPTIONS = ["real arithmetic", "the lookup routines are homogeneous in the table values (checked on their bodies)"]
LAM = mpf(3) / 7
LAMS = (LAM, mpf(10) ** -14, mpf(10) ** 14)          # a growth factor; other normalisations and units of volume

def run(ctx):
    P = ctx.program()
    for f in ctx.families():
        if not one_loop(f):
            continue
        sc = scales(ctx, f)
        fls = flags(P, f)
        if not ctx.thorough and f.endswith("2loop"):
            fls = [fls[1], fls[3]]
        for fl in fls:
            r = ctx.run(linear_calls(ctx, P, f, fl), (), verbosity=None, init="mixed")
            for (name, c), e in values(ctx, r, f).items():
                if name not in sc:
                    ctx.check("power declared", False, "undeclared:%s:%s" % (f, name), "%s: no power is declared for column %s" % (f, name))
                    continue
                degree(ctx, f, name, c, e, sc[name])
    for lam in LAMS:
        lookup_scaling(ctx, lam, mpf(1), "degree of a lookup", "multiplying the table by lambda does not multiply the value by lambda")
    rescaled(ctx)

def degree(ctx, f, name, c, e, d):
    seen = False
    for i, (s, al) in enumerate([(s, False) for s in points(ctx)] + [(ctx.seed * 1000 + 77, True)]):
        lam = LAMS[i % len(LAMS)]
        a, b = Scaled(s, samples=2 if al else 4, allarms=al), Scaled(s, lam=lam, samples=2 if al else 4, allarms=al)
        x, y = a(e), b(e)
        if al:
            ctx.stats['conditional expressions with both arms analysed'] += sum(1 for v in a.arms.values() if v == 3)
            ctx.stats['conditional expressions with one arm analysed'] += sum(1 for v in a.arms.values() if v != 3)
        if x == 0:
            continue
        seen = True
        got = mpmath.log(abs(y / x)) / mpmath.log(lam) if y != 0 else None
        ctx.check("degree of a column", close(y, lam ** d * x), "degree:%s:%s" % (f, name),
                  lambda: "%s: multiplying the linear spectrum by lambda multiplies column %s[%d] by lambda**%s, declared power %s" % (f, name, c, mpmath.nstr(got, 6) if got is not None else "?", d))
    if not seen:
        raise AnalysisError("column %s of %s has number 0 at every point" % (name, f))
    ctx.sample("%s.%s[%d]: degree %s" % (f, name, c, d))
