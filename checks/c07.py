"""Dimensional analysis of output columns by value numbering: each column is numbered at points where
all wavenumbers (table, modes, integration ranges) are multiplied by a constant and the table values
divided by its cube, and must be multiplied by the power its dimension dictates; every guard that
was evaluated must have compared quantities of the same dimension."""
from checks.vn import *
from checks.tables import lookup_scaling

RULE = "column in units scaled by s = s**dim(column) * column; both sides of every comparison scale alike"
ASSUMPTIONS = ["real arithmetic", "the lookup routines are covariant (checked on their bodies)"]
S = mpf(13) / 7

def dim(name):
    if name.startswith("gamma1") or name == "sigma3sq":
        return 0
    return -2 if name == "sigmad2" else -3

def run(ctx):
    P = ctx.program()
    for f in ctx.families():
        if not one_loop(f):
            continue          # the 2-loop A term has regularisation scales of its own
        fls = flags(P, f)
        if not ctx.thorough and f.endswith("2loop") and len(fls) > 1:
            fls = [fls[1], fls[3]]
        for fl in fls:
            r = ctx.run(linear_calls(ctx, P, f, fl), (), verbosity=None, init="mixed")
            for (name, c), e in values(ctx, r, f).items():
                unit(ctx, f, name, c, e)
    for unit_ in (S, mpf(10) ** -7, mpf(10) ** 7):
        lookup_scaling(ctx, mpf(1), unit_, "dimension of a lookup", "the value in another unit of length is not the value converted")

def zero(x, y):
    """Zero up to the rounding of the numbers."""
    return x == 0 or abs(x) < mpf(10) ** -50 * abs(y)

def unit(ctx, f, name, c, e):
    d = dim(name)
    seen = False
    for s, al in [(s, False) for s in points(ctx)] + [(ctx.seed * 1000 + 77, True)]:
        a, b = Scaled(s, samples=2 if al else 4, allarms=al), Scaled(s, s=S, samples=2 if al else 4, allarms=al)
        x, y = a(e), b(e)
        if al:
            ctx.stats['conditional expressions with both arms analysed'] += sum(1 for v in a.arms.values() if v == 3)
            ctx.stats['conditional expressions with one arm analysed'] += sum(1 for v in a.arms.values() if v != 3)
        for t, l in a.cmps.items():
            m = b.cmps.get(t)
            if m is None or len(m) != len(l):
                continue
            for (x1, y1), (x2, y2) in zip(l, m):
                if zero(x1, y1) or zero(y1, x1):
                    ok = zero(x1, y1) == zero(x2, y2) and zero(y1, x1) == zero(y2, x2)
                else:
                    ok = close(x1 * y2, x2 * y1)
                ctx.check("comparison of like dimensions", ok, "guard:%s:%s" % (f, show(t, 3)[:60]), lambda: "%s: column %s[%d] depends on the comparison of quantities of different dimensions, %s" % (f, name, c, show(t, 4)[:160]))
        if x == 0:
            continue
        seen = True
        got = mpmath.log(abs(y / x)) / mpmath.log(S) if y != 0 else None
        ctx.check("dimension of a column", close(y, S ** d * x), "dimension:%s:%s" % (f, name),
                  lambda: "%s: in units where wavenumbers are multiplied by s, column %s[%d] is multiplied by s**%s, not s**%d" % (f, name, c, mpmath.nstr(got, 6) if got is not None else "?", d))
    if not seen:
        raise AnalysisError("column %s of %s has number 0 at every point" % (name, f))
    ctx.sample("%s.%s[%d]: dimension %d" % (f, name, c, d))
