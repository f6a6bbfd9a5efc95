"""Python sessions with several calculators, interpreted step by step, and what each step may touch."""
import itertools
from checks.layer import *

class Calc(object):
    """One calculator of a session, with the data its user gives it."""
    def __init__(self, s, cls, name, nlin=4, nk=3):
        self.s, self.cls, self.name = s, cls, name
        self.obj = None
        self.k, self.pk = s.lin("lin." + name, nlin)
        self.kout = grid("kout." + name, nk)
        self.haslin = False
        self.ran = None
        self.nlin = 0
    def step(self, st):
        s = self.s
        if st == "new":
            self.obj = s.new(self.cls)
        elif st == "lin":
            s.do(self.obj, "set_pk_lin", self.k, self.pk)
            self.haslin = True
        elif st == "relin":
            self.nlin += 1
            self.k, self.pk = s.lin("lin.%s#%d" % (self.name, self.nlin), len(self.k) + 1)
            s.do(self.obj, "set_pk_lin", self.k, self.pk)
        elif st == "terms":
            s.do(self.obj, "set_terms", self.kout)
        elif st == "run":
            s.do(self.obj, "run_terms")
        else:
            raise AnalysisError(st)

def lincols(s, o):
    """Contents of the linear spectrum an object holds."""
    if not has(s.it, o, "spectrum_lin"):
        return None
    l = s.it.attr(o, "spectrum_lin")
    return {f: list(np.asarray(s.get(l, f), object).ravel()) for f in s.fields(l)}

def snapshot(s, o):
    if o is None:
        return None
    return contents(s, o), lincols(s, o)

def samec(a, b):
    if a is None or b is None:
        return a is b
    return a.keys() == b.keys() and all(len(a[k]) == len(b[k]) and all(lift(x).t is lift(y).t for x, y in zip(a[k], b[k])) for k in a)

def merges(a, b):
    """All interleavings of two sequences, as lists of (0|1, step)."""
    for pos in itertools.combinations(range(len(a) + len(b)), len(a)):
        out, i, j = [], 0, 0
        for n in range(len(a) + len(b)):
            if n in pos:
                out.append((0, a[i])); i += 1
            else:
                out.append((1, b[j])); j += 1
        yield out

def outnum(t):
    return int(t.args[2]) if t.op == "sym" and t.args and t.args[0] == "out" else None

def foreign(t, own, start):
    """Leaves of t that are not the object's own data: names starting with one of own, or results of
    library calls made since start."""
    bad = []
    for x in leaves(t):
        if x.op in ("num",):
            continue
        if x.op == "sym" and x.args:
            n = outnum(x)
            if n is not None:
                if n <= start:
                    bad.append("a result of an earlier computation (%s)" % x.args[1])
                continue
            nm = str(x.args[1]) if x.args[0] == "ordered" else str(x.args[0])
            if nm == "const" or any(nm == o or nm.startswith(o) for o in own):
                continue
            bad.append(nm)
        elif x.op in ("undef",):
            bad.append("memory never written")
    return bad
