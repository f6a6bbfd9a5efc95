"""Value-numbering helpers shared by the algebraic checks."""
from context import *
from checks.common import *
from checks.c03 import guarded_value
from valnum import *

def gname(t):
    return ".".join(str(a) if not isinstance(a, tuple) else ".".join(a) for a in t.args)

def cellname(t):
    """Name of a global cell without the file that owns it."""
    n = gname(t)
    return n.split(":", 1)[1] if ":" in n and not n.startswith("arg:") else n

class Scaled(Valnum):
    """A point whose inputs are expressed in another unit of length (s) and whose spectrum is
    multiplied by lam."""
    lam = mpf(1)
    s = mpf(1)
    def __init__(self, seed, lam=1, s=1, **kw):
        Valnum.__init__(self, seed, **kw)
        self.lam, self.s = mpf(lam), mpf(s)
        self.cmps = {}
    def element(self, t, arr, idx):
        v = Valnum.element(self, t, arr, idx)
        last = gname(arr).split(".")[-1]
        if last == "k":
            return v * self.s
        if last == "pk" or last == "pk_lin":
            return v * self.lam / self.s ** 3
        return v
    def scalar(self, name):
        v = Valnum.scalar(self, name)
        if name.split(".")[-1] in ("min", "max"):
            return v * self.s
        return v
    def note_cmp(self, t, x, y):
        k = (t, tuple(key_env(self.env, f) for f in sorted_lv(freelv(t))) if self.s == 1 and self.lam == 1 else None)
        self.cmps.setdefault(t, []).append((x, y))

class Named(Valnum):
    """Settings of the same name in different files have the same number; output arrays of the
    same name of different families too."""
    def leafval(self, t):
        if t.op == "g" and not gname(t).startswith("arg:"):
            return self.scalar("cell:" + cellname(t))
        if t.op == "sym" and len(t.args) > 2 and t.args[0] == "arg":
            return self.scalar("arg:" + str(t.args[-1]))
        return Valnum.leafval(self, t)
    def element(self, t, arr, idx):
        n = gname(arr)
        if n.startswith("arg:set_terms_"):
            return self.log_uniform("0.02", 1, "out", n.split(".")[-1], idx)
        return Valnum.element(self, t, arr, idx)

def linear_calls(ctx, P, f, fl):
    """Scenario of the 1-loop computation of family f: where the family takes tabulated spectra,
    they are the linear one, as the Python class passes it."""
    calls = [("set_pk_lin",), ("set_terms_" + f,)]
    if "set_spectra_" + f in P.funcs:
        ab = [("delta", "theta"), ("theta", "theta")]
        fd = P.funcs["set_spectra_" + f]
        strs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr" and t.to.kind == "int" and t.to.size == 1]
        for i, (a, b) in enumerate(ab):
            calls.append(("set_spectra_" + f, {strs[0]: a, strs[1]: b}, "set_spectra_%s#%d" % (f, i)))
    calls.append(("run_terms_" + f, dict(fl)))
    return calls

def values(ctx, r, f):
    """(field, component) -> value at the symbolic mode, inside the range of modes."""
    return {(n, c): guarded_value(v, None, f) for n, c, v, o in columns(ctx, r, f)}

def scales(ctx, f):
    a = family(ctx, f).scale
    if a is None:
        raise AnalysisError("%s declares no powers" % f)
    return a

def one_loop(f):
    return f.endswith("_1loop") or f == "B" or f == "spectrum_2loop"

def points(ctx, n=3):
    return [ctx.seed * 1000 + i for i in range(n * (4 if ctx.thorough else 1))]
