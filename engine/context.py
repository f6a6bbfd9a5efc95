import json, os, ast, re
from collections import Counter, OrderedDict
from terms import *
import terms as TM
import cfront
from cfront import Program
import scen as SC

def load_findings(p):
    if not os.path.exists(p):
        return []
    return json.load(open(p))["findings"]

class Context(object):
    """Shared services of one check run."""
    def __init__(self, pid, repo, tier, seed):
        self.pid, self.repo, self.tier, self.seed = pid, repo, tier, seed
        self.violations = []
        self.nobl = 0
        self.obl = OrderedDict()
        self.progs = {}
        self.runs = {}
        self.stats = Counter()
        self.samples = []
        self.funcs = set()
        self.undecided = []
        self._vk = set()

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- obligations
    def ok(self, kind, n=1):
        self.nobl += n
        self.obl[kind] = self.obl.get(kind, 0) + n

    def violation(self, key, text):
        """key identifies the construct, independent of line numbers."""
        if key in self._vk:
            return
        self._vk.add(key)
        self.violations.append({"key": key, "text": text})

    def check(self, kind, cond, key, text):
        self.ok(kind)
        if not cond:
            self.violation(key, text() if callable(text) else text)
        return cond

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def unknown(self, text):
        if text not in self.undecided:
            self.undecided.append(text)

    # -- programs and runs
    def program(self, *defines):
        p = self.progs.get(defines)
        if p is None:
            p = self.progs[defines] = Program(self.repo, defines)
            self.stats["translation units"] += len(p.units)
        return p

    def run(self, calls, defines=(), **kw):
        key = (repr(calls), defines, tuple(sorted(kw.items(), key=lambda x: x[0])))
        r = self.runs.get(key)
        if r is None:
            r = SC.scenario(self.program(*defines), calls, **kw)
            self.note(r)
            self.runs[key] = r
        return r

    def note(self, r):
        self.funcs |= set(f.name for f in r.it.funcs_seen)
        self.stats["calls analysed"] += r.it.ncalls
        self.stats["loads resolved"] += r.it.nloads
        self.stats["effect events"] += len(r.it.events)
        self.stats["parallel regions"] += len(r.it.regions)
        self.stats["scenarios"] += 1

    def coverage(self, mod):
        d = {"explanation": " ".join((mod.__doc__ or "").split()),
             "obligations_analysed": self.nobl, "by_rule": dict(self.obl),
             "functions_analysed": len(self.funcs), "rule": getattr(mod, "RULE", ""),
             "samples": self.samples}
        for k, v in self.stats.items():
            d[k.replace(" ", "_")] = v
        if self.undecided:
            d["undecided"] = self.undecided
        return d

    # -- the public surface of the library: what the Python layer can call
    def api(self):
        if not hasattr(self, "_api"):
            from checks.layer import family_table
            self._api = api_names(self.repo, self.program())
            for f in family_table(self):
                self._api |= set(r.func for r in f.session.lib.log)
        return self._api

    def families(self):
        """(suffix, output columns) of every run_terms_* reachable from Python."""
        out = []
        for n in sorted(self.api()):
            if n.startswith("run_terms_"):
                out.append(n[len("run_terms_"):])
        if len(out) < 6:
            raise AnalysisError("expected six families of terms, found %s" % out)
        return out

def api_names(repo, prog):
    names = set()
    src = open(os.path.join(repo, "pyregpt", "pyregpt.py")).read()
    tree = ast.parse(src)
    for n in ast.walk(tree):
        if isinstance(n, ast.Attribute) and n.attr in prog.funcs and not isinstance(n.value, ast.Call) and not (isinstance(n.value, ast.Name) and n.value.id in ("self", "new", "cls")):
            names.add(n.attr)
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            for w in re.findall(r"[A-Za-z]\w*", n.value):
                if w.endswith("_") and len(w) > 3:
                    names |= set(f for f in prog.funcs if f.startswith(w) and not prog.funcs[f].static)
                elif w in prog.funcs and w == n.value:
                    names.add(w)
    return names

def flags(prog, f):
    """Flag combinations of a family's run function."""
    fd = prog.funcs["run_terms_" + f]
    ps = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
    if len(ps) == 2:
        return [{ps[0]: a, ps[1]: b} for a in ("delta", "theta") for b in ("delta", "theta")]
    return [{}]

def family_calls(prog, f, fl):
    return [("set_pk_lin",), ("set_terms_" + f,), ("run_terms_" + f, dict(fl))]
