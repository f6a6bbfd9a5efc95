"""The quadrature rule.  The routine that fills the nodes and weights is interpreted for each number of
nodes of a range, over a symbolic interval.  Its loops with a data-dependent number of iterations are
extracted as transfer functions of their variables (the polynomial recursion inside them as a formula
of the trial root); the fixed point such a transfer function has at the starting values of each root is
solved for, and the nodes and weights, as formulas of those variables, must there be the Gauss-Legendre
ones of the interval.  At every state of the variables at which the loop's condition lets it stop, they
must be so to rounding accuracy.  The Python method must hand out the arrays the routine filled."""
import cinterp
import terms as TM
import scen as SC
from checks.layer import *
from checks.vn import *

RULE = "nodes and weights at the fixed points and at the exits of the root-finding transfer functions = Gauss-Legendre on the interval, in increasing order"
ASSUMPTIONS = ["real arithmetic: rounding of the recursion itself is not bounded", "numbers of nodes analysed: see coverage; the routine treats others with the same code"]
NAME = "nodes_weights_gauss_legendre"
SOLVED, ROUNDED = mpf(10) ** -40, mpf(10) ** -14
# at an exit the weights are those of the last but one trial root
WEIGHT = mpf(10) ** -13

class Roots(Valnum):
    def __init__(self, seed):
        Valnum.__init__(self, seed)
        self.solved = {}
    def compute(self, t):
        if t in self.solved:
            return self.solved[t]
        return Valnum.compute(self, t)
    def scalar(self, name):
        if name.endswith("xmin"):
            return -mpf(3) * self.rnd("xmin")
        if name.endswith("xmax"):
            return mpf(1) + mpf(3) * self.rnd("xmax")
        return Valnum.scalar(self, name)

def legendre(n, x):
    p, q = mpf(1), mpf(0)
    for j in range(n):
        p, q = ((2 * j + 1) * x * p - j * q) / (j + 1), p
    return p, n * (x * p - q) / (x * x - 1)

def gauss(n):
    """Roots of P_n, increasing, with weights on [-1,1]."""
    out = []
    for i in range(n):
        x = mpmath.cos(mpmath.pi() * (i + mpf(3) / 4) / (n + mpf(1) / 2))
        for _ in range(200):
            p, d = legendre(n, x)
            x -= p / d
            if abs(p / d) < mpf(10) ** -70:
                break
        p, d = legendre(n, x)
        out.append((x, 2 / ((1 - x * x) * d * d)))
    out.sort(key=lambda v: v[0])
    return out

class Open(AnalysisError):
    pass

def cells(L):
    """Scalar cells the loop changes: key -> leaf standing for it at the start of an iteration."""
    out = {}
    for (key, kind, idx), ph in L.phis.items():
        if kind != "scalar" or not isinstance(ph, T):
            raise Open("the loop at %s fills an array or moves a pointer" % L.node.coord)
        out[key] = ph
    return out

def states(vn, L, limit=200):
    """Values of the loop's variables at the start of each iteration, from its starting values, until
    they no longer change; with the state at which the loop stops, for each at which it may."""
    ph = cells(L)
    S = {}
    for k, p in ph.items():
        v = L.pre.get(k)
        try:
            S[k] = vn(v) if isinstance(v, T) else None
        except Undef:
            S[k] = None
    seq, exits = [S], []
    try:
        return follow(vn, L, ph, S, seq, exits, limit)
    except Undef:
        return seq, exits, False       # division by zero and the like

def follow(vn, L, ph, S, seq, exits, limit):
    for turn in range(limit):
        w = Bound(vn, {p: S[k] for k, p in ph.items()})
        w.env[L.lv] = mpf(turn)
        if L.cond.op != "num" and not w.truth(L.cond):
            exits.append(S)
        for pc, mem in L.brks:
            if all(w.truth(c) for c in pc):
                exits.append({k: number(w, mem.get(k)) for k in ph})
        if L.end is None:
            break
        N = {k: number(w, L.end.get(k)) for k in ph}
        seq.append(N)
        live = [k for k in ph if N[k] is not None and not TM.depends(ph[k], {L.lv})]     # counters go on
        d = [abs(N[k] - S[k]) for k in live if S[k] is not None]
        if len(d) == len(live) and all(x < mpf(10) ** -65 for x in d):
            return seq, exits, True
        S = N
    return seq, exits, False

def number(w, t):
    try:
        return w(t) if isinstance(t, T) else None
    except Undef:
        return None

class Bound(Roots):
    """A point where the loop's variables have given numbers."""
    def __init__(self, vn, given):
        Roots.__init__(self, vn.seed)
        self.solved = dict(vn.solved)
        for p, v in given.items():
            if v is not None:
                self.solved[p] = v

def judge(ctx, n, fd, r, vn, tolx, tolw, key, text):
    lo, hi = [vn(sym("arg", NAME, p)) for p in fd.params[:2]]
    want = gauss(n)
    for which, pn in enumerate(fd.params[2:4]):
        o = r.args[(NAME, pn)]
        what = ("node", "weight")[which]
        for i in range(n):
            t = SC.cell(r, o, num(i))
            if not isinstance(t, T) or t.op == "elem" and t.args[0].op == "g":
                ctx.check("every %s set" % what, False, "unset:%s" % what, "%s %d of %d is not set by %s" % (what, i, n, NAME))
                continue
            v = vn(t)
            x, w = want[i]
            e = (lo + hi) / 2 + (hi - lo) / 2 * x if which == 0 else (hi - lo) / 2 * w
            tol = (tolx, tolw)[which]
            scale = (hi - lo) if which == 0 else abs(e)
            ctx.check("%s %s" % (what, text), abs(v - e) <= tol * scale, "%s:%s" % (key, what),
                      lambda: "%s %d of %d %s: %s instead of %s" % (what, i, n, text, mpmath.nstr(v, 12), mpmath.nstr(e, 12)))

def rule(ctx, n):
    P = ctx.program()
    fd = P.funcs[NAME]
    def prep(it, st):
        it.loop_log = []
    old, cinterp.MAXUNROLL = cinterp.MAXUNROLL, 5000
    try:
        r = SC.scenario(P, [(NAME, {fd.params[4]: num(n)})], verbosity="QUIET", init="mixed", intrinsics=False, prepare=prep)
    finally:
        cinterp.MAXUNROLL = old
    ctx.note(r)
    limit, stop = Roots(ctx.seed), Roots(ctx.seed)
    where = lambda L: "the loop at line %s of %s" % (L.node.coord.line if L.node.coord else "?", L.func.name if L.func else NAME)
    good = True
    for L in r.it.loop_log:
        ph = cells(L)
        seq, _, conv = states(limit, L)
        if not ctx.check("fixed point", conv, "diverges", lambda: "%s: %s for %d nodes does not approach a fixed point from its starting values" % (NAME, where(L), n)):
            good = False
            break
        seq2, exits, conv2 = states(stop, L)
        if not ctx.check("exit", bool(exits), "noexit", lambda: "%s: %s for %d nodes has no exit at its fixed point" % (NAME, where(L), n)):
            good = False
            break
        for k in ph:
            t = L.post.get(k)
            if isinstance(t, T):
                for vn, S in ((limit, seq[-1]), (stop, exits[0])):
                    if S[k] is not None:
                        vn.solved[t] = S[k]
        ctx.stats["transfer functions"] += 1
    if good:
        if r.it.loop_log:
            judge(ctx, n, fd, r, limit, SOLVED, SOLVED, "fixed", "at the fixed point")
        judge(ctx, n, fd, r, stop, ROUNDED, WEIGHT * (n * n + 10), "exit", "where the iteration may stop")

def python(ctx):
    """The method of the Python layer returns the arrays the routine filled, in this order."""
    s = Session(ctx, light=False)
    o = s.new("PyRegPT")
    lo, hi = S(sym("user", "xmin")), S(sym("user", "xmax"))
    for n in (1, 2, 3, 10):
        at = len(s.lib.log)
        ret = s.do(o, NAME, lo, hi, n)
        rec = [x for x in s.lib.log[at:] if x.func == NAME]
        if not ctx.check("calls the routine", len(rec) == 1, "python:call", "the Python %s makes %d calls to the routine" % (NAME, len(rec))):
            continue
        p = rec[0].params
        fd = ctx.program().funcs[NAME]
        def same(v, t):
            return lift(v).t is lift(t).t
        ctx.check("interval passed", same(p[fd.params[0]], lo) and same(p[fd.params[1]], hi), "python:interval", "the Python %s does not pass its interval" % NAME)
        ctx.check("size passed", int(p[fd.params[4]]) == n, "python:size", "the Python %s passes %s nodes instead of %d" % (NAME, p[fd.params[4]], n))
        ok = isinstance(ret, (tuple, list)) and len(ret) == 2
        if ok:
            for a, q in zip(ret, fd.params[2:4]):
                b = p[q]
                ok = ok and isinstance(a, np.ndarray) and a.shape == (n,) and all(lift(x).t is lift(y).t for x, y in zip(a.ravel(), np.asarray(b, object).ravel()))
        ctx.check("arrays returned", ok, "python:return", "the Python %s does not return the nodes and weights the routine filled" % NAME)

def run(ctx):
    ns = list(range(1, 22)) + [31, 40, 64, 128, 201] if not ctx.thorough else list(range(1, 81)) + [100, 150, 200, 301]
    for n in ns:
        rule(ctx, n)
    ctx.sample("%s for %s nodes" % (NAME, ns))
    python(ctx)
