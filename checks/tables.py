"""Symbolic interpretation of the table-lookup routines for every length of table and every position
of the argument relative to the nodes.

A table of N nodes with symbolic abscissae and ordinates is laid out; an order of the symbols (the
argument below, at, between or above given nodes) decides every comparison, so that each run follows
one path whose indices are constants and whose value is a formula in the symbols."""
from context import *
from valnum import *
from cinterp import Ptr, StructV
import terms as TM

class At(Valnum):
    """The numbers of the symbols: increasing abscissae xs, positive ordinates ys, argument k."""
    def __init__(self, xs, ys, k, seed=1, tab="arg:set_pk_lin", arg=None, karr=None, cut=None):
        Valnum.__init__(self, seed)
        self.xs, self.ys, self.k, self.cut = xs, ys, k, cut
    def element(self, t, arr, idx):
        n = ".".join(str(a) for a in arr.args)
        if n in ("arg:set_pk_lin.k", "arg:table.k"):
            return self.xs[idx] if 0 <= idx < len(self.xs) else self.log_uniform("0.1", 10, "outside", n, idx)
        if n in ("arg:set_pk_lin.pk", "arg:table.pk"):
            return self.ys[idx] if 0 <= idx < len(self.ys) else self.log_uniform("0.1", 10, "outside", n, idx)
        if n.startswith("arg:") and n.split(".")[-1] == "k":
            return self.k[idx] if 0 <= idx < len(self.k) else self.log_uniform("0.1", 10, "outside", n, idx)
        return self.log_uniform("0.1", 10, "outside", n, idx)
    def scalar(self, name):
        if name.startswith("arg:"):
            return self.cut
        return Valnum.scalar(self, name)

    def compute(self, t):
        if t.op in ("undef", "carried", "stale"):
            return self.log_uniform("0.1", 10, t.op, t.id)
        return Valnum.compute(self, t)

class Oracle(object):
    def __init__(self, vn):
        self.vn, self.n = vn, 0
    def __call__(self, op, a, b):
        try:
            x, y = self.vn(a), self.vn(b)
        except (Undef, IndexError):
            return None
        self.n += 1
        tie = abs(x - y) <= mpf(10) ** -55 * (abs(x) + abs(y))
        if op == "==":
            return tie
        if op == "<":
            return x < y and not tie
        return x < y or tie

def lookup_run(ctx, n, N, m, vn, over=None, cfg=()):
    """One path of routine n on a table of N nodes and m arguments.  Returns (run, output values)."""
    P = ctx.program(*cfg)
    fd = P.funcs.get(n)
    if fd is None:
        raise AnalysisError("no routine %s" % n)
    ov = dict(over or {})
    ints = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "int"]
    ov[ints[0]] = num(m)
    sd = P.funcs["set_pk_lin"]
    nk = [p for p, t in zip(sd.params, sd.ty.params) if t.kind == "int"][0]
    calls = [("set_pk_lin", {nk: num(N)}), (n, ov)]
    def sizes(fname, label, p):
        return num(N) if fname == "set_pk_lin" else num(m)
    def prep(it, st):
        for p, t in zip(fd.params, fd.ty.params):
            if t.kind == "struct":
                lv = {}
                for q, lt in it.leafs(t):
                    if lt.kind == "ptr":
                        lv[q] = Ptr(it.extern_array("arg:table." + ".".join(q), lt.to, size=num(N)), (), ZERO, lt.to)
                    else:
                        lv[q] = num(N)
                ov[p] = StructV(t, lv)
    orc = Oracle(vn)
    TM.ORACLE = orc
    try:
        r = SC.scenario(P, calls, verbosity="QUIET", init="sym", intrinsics=False, summaries=False, log_all=True, sizes=sizes, prepare=prep)
        ptrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
        out = r.args[(n, ptrs[-1])]
        vals = [SC.cell(r, out, num(i)) for i in range(m)]
    finally:
        TM.ORACLE = None
    ctx.note(r)
    ctx.stats["comparisons decided by the order of the symbols"] += orc.n
    return r, vals

def interp_param(P, n="find_pk_lin"):
    """Name and values of the interpolation argument of a lookup routine."""
    fd = P.funcs[n]
    ints = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "int"]
    en = {}
    for u in P.units.values():
        en.update(u.enums)
    return ints[1], {"lin": num(en["LIN"]), "poly": num(en["POLY"])}

def nodes(N, seed, tag="x"):
    """Increasing abscissae, uneven."""
    x = mpf("0.01") * (1 + h01(seed, tag, "first"))
    out = [x]
    for i in range(N - 1):
        x = x * (mpf("1.05") + mpf("0.9") * h01(seed, tag, i))
        out.append(x)
    return out

def ordinates(N, seed):
    return [mpf("0.5") + 3 * h01(seed, "y", i) for i in range(N)]

def positions(N, xs, seed, dense=True):
    """(label, argument) covering below, each node, each interval (near both ends and inside), above."""
    out = [("below", xs[0] * (mpf("0.2") + mpf("0.7") * h01(seed, "b")))]
    for i in range(N):
        out.append(("node %d" % i, xs[i]))
        if i < N - 1:
            fr = [mpf("0.02"), h01(seed, "f", i), mpf("0.98")] if dense else [h01(seed, "f", i)]
            for q in fr:
                out.append(("between %d and %d" % (i, i + 1), xs[i] + q * (xs[i + 1] - xs[i])))
    out.append(("above", xs[-1] * (mpf("1.2") + 2 * h01(seed, "a"))))
    return out

def lookup_scaling(ctx, lam, s, what, text):
    """The lookup routines' own bodies, at a table whose values are multiplied by lam and in another unit
    of length: values must be multiplied by lam/s**3, the dispersion by lam/s**2."""
    P = ctx.program()
    for N in (4, 7) if not ctx.thorough else (3, 4, 7, 12):
        xs, ys = nodes(N, ctx.seed), ordinates(N, ctx.seed)
        xt, yt = [x * s for x in xs], [y * lam / s ** 3 for y in ys]
        for lab, k in positions(N, xs, ctx.seed, dense=False):
            for n in ("find_pk_lin", "find_pk"):
                ip, modes = interp_param(P, n)
                for nm, iv in modes.items():
                    # the path and the value are both those of the table they are for
                    a = lookup_run(ctx, n, N, 1, At(xs, ys, [k]), {ip: iv})[1][0]
                    b = lookup_run(ctx, n, N, 1, At(xt, yt, [k * s]), {ip: iv})[1][0]
                    x, y = At(xs, ys, [k])(a), At(xt, yt, [k * s])(b)
                    ctx.check(what, close(y, lam / s ** 3 * x), "lookup:%s:%s" % (n, lab.split()[0]), "%s (%s interpolation, table of %d, argument %s): %s" % (n, nm, N, lab, text))
            cut = mpf("0.5")
            a = lookup_run(ctx, "calc_running_sigmad2", N, 1, At(xs, ys, [k / cut], cut=cut))[1][0]
            b = lookup_run(ctx, "calc_running_sigmad2", N, 1, At(xt, yt, [k * s / cut], cut=cut))[1][0]
            x, y = At(xs, ys, [k / cut], cut=cut)(a), At(xt, yt, [k * s / cut], cut=cut)(b)
            ctx.check(what, close(y, lam / s ** 2 * x), "dispersion:%s" % lab.split()[0], "calc_running_sigmad2 (table of %d, cutoff %s): %s" % (N, lab, text))
