"""Integrands: the extracted column evaluated with every quadrature reduced to one node, so that the
value is the integrand at one internal momentum, in the measure the code integrates with.  The node
is chosen through two numbers u, v in (0,1); the momenta it stands for are read off the wavenumbers
at which the linear spectrum is looked up."""
from checks.vn import *
from mpmath import mpf, mpc

QMIN, QMAX = mpf(10) ** -5, mpf(10) ** 5

class OnePoint(Valnum):
    """u: position of the node of the (logarithmic) wavenumber; v: of the cosine, both in units of
    the range; spec(tab, k): value of table tab at k; k: wavenumber of the mode."""
    qmin, qmax = QMIN, QMAX
    def __init__(self, seed, k, u, v, spec, sig=None, pt=None, **kw):
        Valnum.__init__(self, seed, samples=1, **kw)
        self.kmode, self.u, self.v, self.spec, self.sig, self.pt = mpf(k), mpf(u), mpf(v), spec, sig, pt
        self.seen = []
        self.cubes = 0
    def scalar(self, name):
        last = name.replace(":", ".").split(".")[-1]
        if last == "min":
            return self.qmin
        if last == "max":
            return self.qmax
        if last.startswith("interpol") or last == "verbose":
            return mpf(0)
        if last.startswith("uvcutoff"):
            return mpf("0.5")
        return Valnum.scalar(self, name)
    def element(self, t, arr, idx):
        n = gname(arr)
        if n.startswith("arg:set_terms_") and n.split(".")[-1] == "k":
            return self.kmode
        return Valnum.element(self, t, arr, idx)
    def fnval(self, t, name, v):
        if name == "glx":
            lo, hi, n, i = v
            if i == 0:
                return lo
            if i == n - 1:
                return hi
            cosine = lo == -1 and hi == 1
            return lo + (hi - lo) * (self.v if cosine else self.u)
        if name == "glw":
            lo, hi, n, i = v
            return (hi - lo) / n
        return Valnum.fnval(self, t, name, v)
    def index_samples(self, n):
        if isinstance(n, mpf):
            if n < 5:
                raise Undef("too few nodes")
            return [int(n * 3 / 7)]
        return Valnum.index_samples(self, n)
    def tabname(self, t):
        e = t.args[3]
        while e.op == "sel":
            e = e.args[1] if self.truth(e.args[0]) else e.args[2]
        if e.op == "elem":
            e = e.args[0]
        if e.op == "g":
            return gname(e)
        return show(e, 3)
    def lookup(self, t):
        tab, k = self.tabname(t), self.val(t.args[4])
        self.seen.append((tab, k))
        return self.spec(tab, k)
    def sigd2(self, t):
        k, cut = self.val(t.args[4]), self.val(t.args[5])
        return self.sig(k, cut) if self.sig else mpf(0)
    def integ(self, t):
        xs, body = t.args[1:-1], t.args[-1]
        self.cubes += 1
        old = {}
        for j, x in enumerate(xs):
            old[x] = self.env.get(x)
            self.env[x] = self.pt[j]
        v = self.val(body)
        for x in xs:
            if old[x] is None:
                del self.env[x]
            else:
                self.env[x] = old[x]
        return v

def third(seen, k, q):
    """The looked-up wavenumber that is neither k nor q."""
    o = [x for tab, x in seen if abs(x - k) > mpf(10) ** -30 * k and abs(x - q) > mpf(10) ** -30 * q]
    return o[0] if o else None

class Integrand(object):
    """One output column as a function of the internal momentum."""
    def __init__(self, e, name, seed=1):
        self.e, self.name, self.seed = e, name, seed
        self.L = mpmath.log(QMAX / QMIN)
    def vn(self, k, q, v, spec, **kw):
        return OnePoint(self.seed, k, mpmath.log(q / QMIN) / self.L, v, spec, **kw)
    def cosine(self, k, q, v):
        """Cosine between the mode and the internal momentum at node v; None if only one momentum enters."""
        z = self.vn(k, q, v, lambda tab, y: mpf(1))
        z(self.e)
        r = third(z.seen, k, q)
        if r is None:
            return None
        x = q / k
        return (1 + x * x - (r / k) ** 2) / (2 * x)
    def region(self, k, q):
        """Range of the cosine at wavenumber q, from the nodes at both ends.  The node at an end where
        the other momentum equals the first is told from the interior ones by extrapolation."""
        a, b = self.cosine(k, q, mpf(1) / 3), self.cosine(k, q, mpf(2) / 3)
        if a is None or b is None:
            return None
        return 2 * a - b, 2 * b - a
    def at(self, k, q, mu, spec, region=None, **kw):
        """Integrand per unit of log(q) and of the cosine, and the number of times the code's measure
        counts it is left in."""
        lo, hi = region if region is not None else (mpf(-1), mpf(1))
        z = self.vn(k, q, (mu - lo) / (hi - lo), spec, **kw)
        return z(self.e) / self.L / (hi - lo)
