"""Settings.  Each documented name is applied through the Python layer (interpreted over the syntax
tree); the library calls it makes are replayed in the C interpreter from the library's initial state,
and the exact set of global cells that change, with their values, is compared with what the name
documents: one cell for the number of nodes, the two ends of the range, the interpolation or the
cutoff of the computation named, every member for a group, the initial values for the reset and for
clear().  What a cell governs is decided by the dependence of every output column of every family on
it, from the value graphs of the columns."""
from checks.sessions import *
from checks.c03 import guarded_value
from cinterp import Str

RULE = "each setting name changes exactly its own parameters, which govern exactly the columns it names; groups, reset and clear() reach every member"
ASSUMPTIONS = ["the names are those documented by the branches and functions of the two layers"]

GROUPS = {
 "all": lambda n: True,
 "all_q": lambda n: n.endswith("_q"),
 "all_mu": lambda n: n.endswith("_mu"),
 "all_pklin": lambda n: n.endswith("_pk_lin"),
 "spectrum_1loop_q": lambda n: n in ("gamma1_1loop_q", "gamma2_tree_q"),
 "spectrum_2loop_q": lambda n: n in ("gamma1_1loop_q", "gamma1_2loop_q", "gamma2_tree_q", "gamma2d_1loop_q", "gamma2t_1loop_q", "gamma3_tree_q"),
 "gamma2_1loop_q": lambda n: n in ("gamma2d_1loop_q", "gamma2t_1loop_q"),
 "A_2loop_q": lambda n: n in ("A_2loop_I_q", "A_2loop_II_III_q"),
}
# settings -> what they govern: (family, column) pairs; '*' every computed column
S1, S2, AB = "spectrum_1loop", "spectrum_2loop", "pk"
G1 = [(S1, "gamma1a_1loop"), (S1, "gamma1b_1loop"), (S2, "gamma1a_1loop"), (S2, "gamma1b_1loop"), (S2, "gamma1a_2loop"), (S2, "gamma1b_2loop")]
G2 = [(S1, "pk_gamma2_tree_tree"), (S2, "pk_gamma2_tree_tree"), (S2, "pk_gamma2_tree_1loop"), (S2, "pk_gamma2_1loop_1loop")]
G21 = [(S2, "pk_gamma2_tree_1loop"), (S2, "pk_gamma2_1loop_1loop")]
BIAS = [("bias_1loop", x) for x in ("pk_b2d", "pk_bs2d", "pk_b2t", "pk_bs2t", "pk_b22", "pk_b2s2", "pk_bs22", "sigma3sq")]
GOVERNS = {
 "gamma1_1loop_q": G1 + [("A_2loop", AB)],
 "gamma1_2loop_q": [(S2, "gamma1a_2loop"), (S2, "gamma1b_2loop")],
 "gamma2_tree_q": G2, "gamma2_tree_mu": G2,
 "gamma2d_1loop_q": G21 + [("A_2loop", AB)], "gamma2t_1loop_q": G21 + [("A_2loop", AB)],
 "gamma3_tree_q": [(S2, "pk_gamma3_tree")],
 "bias_1loop_q": BIAS, "bias_1loop_mu": BIAS,
 "A_1loop_q": [("A_1loop", AB)], "A_1loop_mu": [("A_1loop", AB)],
 "A_2loop_I_q": [("A_2loop", AB)], "A_2loop_I_mu": [("A_2loop", AB)], "A_2loop_II_III_q": [("A_2loop", AB)],
 "B_q": [("B", AB)], "B_mu": [("B", AB)],
 "spectrum_1loop_pk_lin": [(S1, "pk_lin")], "spectrum_2loop_pk_lin": [(S2, "pk_lin")], "bias_1loop_pk_lin": [("bias_1loop", "pk_lin")],
 "A_1loop_pk_lin": [("A_1loop", "pk_lin")], "A_2loop_pk_lin": [("A_2loop", "pk_lin")], "B_pk_lin": [("B", "pk_lin")],
 "bispectrum_1loop_pk_lin": [("A_2loop", AB)],
}
CUT = {S1: [(S1, "sigmad2")], S2: [(S2, "sigmad2")], "bias_1loop": [("bias_1loop", "sigmad2")], "A_1loop": [("A_1loop", "sigmad2")], "A_2loop": [("A_2loop", "sigmad2")],
       "B": [("B", "sigmad2")], "bispectrum_1loop": [("A_2loop", AB)]}
# where B has no tabulated spectra it computes 1-loop ones, from these settings
INDIRECT = {("B", AB): ["gamma1_1loop_q", "gamma2_tree_q", "gamma2_tree_mu", "spectrum_1loop_pk_lin", "cutoff:" + S1]}

def library(ctx, calls):
    """Memory of the library's globals after a list of calls with concrete arguments, from the
    initial state: {(cell, path): value}."""
    P = ctx.program()
    cs = []
    for i, (func, args) in enumerate(calls):
        fd = P.funcs[func]
        over = {}
        for p, t, (ty, v) in zip(fd.params, fd.ty.params or [], args):
            if isinstance(v, bytes):
                over[p] = v.decode()
            elif isinstance(v, np.ndarray):
                pass
            else:
                over[p] = lift(v).t
        cs.append((func, over, "%s#%d" % (func, i)))
    r = ctx.run(cs, (), verbosity=None, init="static")
    out = {}
    for (oid, path), v in r.st.mem.items():
        o = r.it.objs[oid]
        if o.kind == "global" and not o.const:
            out[(o.name, path)] = v
    return out

def default(v):
    return v if v is not None else ZERO

def changed(base, mem):
    """Cells of two memories that differ: {cell: new value}."""
    out = {}
    for k in set(base) | set(mem):
        a, b = base.get(k), mem.get(k)
        if a is b:
            continue
        if a is None and isinstance(b, T) and b.op == "num" and b.args[0] == 0:
            continue
        out[k] = b
    return out

class World(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.s = Session(ctx, light=True)
        self.x = self.s.new("PyRegPT")
        self.init = library(ctx, [])
    def calls(self, f):
        m = len(self.s.lib.log)
        f()
        return [(r.func, r.call.args) for r in self.s.lib.log[m:] if r.func != "set_pk_lin"]
    def precision(self, name, **kw):
        return self.calls(lambda: self.s.do(self.x, "set_precision", name, **kw))
    def cutoff(self, name, **kw):
        return self.calls(lambda: self.s.do(self.x, "set_running_uvcutoff", name, **kw))
    def clear(self):
        return self.calls(lambda: self.s.do(self.x, "clear"))

def show_cells(c):
    return ", ".join(sorted(n + "".join("." + p for p in path) for n, path in c)) or "nothing"

def run(ctx):
    from checks.c05 import setting_names
    pre, cut = setting_names(ctx)
    missing = [n for n in GOVERNS if n not in pre] + [n for n in CUT if n not in cut]
    w = World(ctx)
    lo, hi, lo2 = S(num(Fraction(3, 7))), S(num(Fraction(29, 3))), S(num(Fraction(1, 9)))
    own = {}
    def guarded(key, f):
        try:
            return f()
        except PyRaise as e:
            ctx.check("setting accepted", False, "raises:" + key, "%s raises %s" % (key, e))
            return None
        finally:
            ctx.ok("setting applied")
    # -- individual settings
    for n in sorted(set(pre) | set(GOVERNS)):
        key = "set_precision %r" % n
        full = guarded(key, lambda: w.precision(n, n=37, min=lo, max=hi, interpol="lin"))
        if full is None:
            continue
        mem = library(ctx, full)
        ch = changed(w.init, mem)
        # the same with the other interpolation tells which cell holds it
        mem2 = library(ctx, w.precision(n, n=37, min=lo, max=hi, interpol="poly"))
        enum = {}
        for u in ctx.program().units.values():
            enum.update(u.enums)
        icell = [k for k in set(mem) if mem.get(k) is num(enum["LIN"]) and mem2.get(k) is num(enum["POLY"]) and (k in ch or w.init.get(k) is mem2.get(k))]
        roles = {"interpol": icell[0] if icell else None}
        for role, v in (("n", num(37)), ("min", lo.t), ("max", hi.t)):
            c = [k for k in ch if ch[k] is v]
            ctx.check("one cell per parameter", len(c) <= 1, "cells:%s:%s" % (n, role), "%s: %s is stored in %s" % (key, role, show_cells(c)))
            roles[role] = c[0] if c else None
        want = {"n": not n.endswith("_pk_lin") and n not in ("gamma3_tree_q", "A_2loop_II_III_q"), "min": n.endswith("_q"), "max": n.endswith("_q"), "interpol": True}
        for role, need in want.items():
            ctx.check("parameter set by name", (roles[role] is not None) == need, "role:%s:%s" % (n, role), "%s: %s" % (key, "%s is not set" % role if need else "sets a %s" % role))
        extra = [k for k in ch if k not in roles.values()]
        ctx.check("nothing else set", not extra, "extra:%s" % n, "%s also changes %s" % (key, show_cells(extra)))
        own[n] = {r: k for r, k in roles.items() if k is not None}
        # each parameter alone
        for kw, rs in (({"n": 37}, ["n"]), ({"min": lo, "max": hi}, ["min", "max"]), ({"interpol": "lin"}, ["interpol"])):
            if not any(own[n].get(r) for r in rs):
                continue
            c1 = changed(w.init, library(ctx, w.precision(n, **kw)))
            exp = {own[n][r]: mem[own[n][r]] for r in rs if r in own[n]}
            exp = changed(w.init, {**w.init, **exp})
            ctx.check("parameter set alone", c1 == exp, "alone:%s:%s" % (n, rs[0]), lambda: "%s with %s changes %s" % (key, sorted(kw), show_cells([k for k in set(c1) | set(exp) if c1.get(k) is not exp.get(k)])))
        # values at the edge of what is accepted: a single node, a range reduced to a point, the origin of the logarithms
        for kw in ({"n": 1}, {"min": hi, "max": hi}, {"min": S(num(-1)), "max": S(num(-1))}, {"min": S(num(0)), "max": S(num(0))}, {"min": S(num(-1)), "max": S(num(0))}):
            if not any(r in own[n] for r in kw):
                continue
            got = library(ctx, full + w.precision(n, **kw))
            wrong = [r for r, v in kw.items() if r in own[n] and got.get(own[n][r], ZERO) is not lift(v).t]
            ctx.check("value at the edge accepted", not wrong, "edge:%s:%s" % (n, sorted(kw)[0]), lambda: "%s with %s: %s is not set" % (key, ", ".join("%s=%s" % (a, b.t if isinstance(b, S) else b) for a, b in sorted(kw.items())), " and ".join(wrong)))
        # a range and an interpolation of its own, then reset
        rs_ = library(ctx, full + w.precision(n))
        c2 = changed(w.init, rs_)
        ctx.check("reset value restores the default", not c2, "reset:%s" % n, lambda: "resetting %r leaves %s changed" % (n, show_cells(c2)))
        turn = []
        for kw, r in (({"n": 37}, "n"), ({"min": lo, "max": hi}, "min"), ({"interpol": "lin"}, "interpol")):
            if r in own[n]:
                turn += w.precision(n, **kw)
        ctx.check("several settings in turn", not changed(library(ctx, turn), mem), "turn:%s" % n, "%s: parameters set one after the other differ from all set at once" % key)
    for n in sorted(set(cut) | set(CUT)):
        key = "set_running_uvcutoff %r" % n
        full = guarded(key, lambda: w.cutoff(n, uvcutoff=lo2))
        if full is None:
            continue
        ch = changed(w.init, library(ctx, full))
        ctx.check("one cell per parameter", len(ch) == 1 and list(ch.values())[0] is lo2.t, "cutoff:%s" % n, "%s changes %s" % (key, show_cells(ch)))
        own["cutoff:" + n] = {"uvcutoff": list(ch)[0]} if len(ch) == 1 else {}
        ctx.check("reset value restores the default", not changed(w.init, library(ctx, full + w.cutoff(n))), "reset:cutoff:%s" % n, "%s: the default argument is not the initial value" % key)
    seen = {}
    for n, rs in own.items():
        for r, k in rs.items():
            ctx.check("settings independent", k not in seen, "shared:%s" % n, lambda: "%s and %s set the same parameter %s" % (n, seen[k], show_cells([k])))
            seen.setdefault(k, n)
    # -- groups
    for g, member in GROUPS.items():
        ms = [n for n in own if not n.startswith("cutoff:") and member(n)]
        for kw in ({"n": 37, "min": lo, "max": hi, "interpol": "lin"}, {"interpol": "lin"}, {"n": 37}, {"min": lo, "max": hi}):
            calls = guarded("group %r" % g, lambda: w.precision(g, **kw))
            if calls is None:
                continue
            ch = changed(w.init, library(ctx, calls))
            exp = {}
            for n in ms:
                if any(r in kw for r in own[n]):
                    exp.update(changed(w.init, library(ctx, w.precision(n, **kw))))
            ctx.check("group changes every member", ch == exp, "group:%s:%s" % (g, sorted(kw)[0]), lambda: "group %r with %s: %s" % (g, sorted(kw), "does not set " + show_cells([k for k in exp if k not in ch]) if any(k not in ch for k in exp) else "also sets " + show_cells([k for k in ch if ch[k] is not exp.get(k)])))
        allset = sum([w.precision(n, n=37, min=lo, max=hi, interpol="lin") for n in own if not n.startswith("cutoff:")], [])
        calls = guarded("group %r reset" % g, lambda: w.precision(g))
        if calls is not None:
            left = changed(w.init, library(ctx, allset + calls))
            exp = set(k for n in own if not n.startswith("cutoff:") and not member(n) for k in own[n].values())
            exp = set(k for k in exp if k in changed(w.init, library(ctx, allset)))
            ctx.check("group reset reaches every member", set(left) == exp, "group-reset:%s" % g, lambda: "resetting the group %r: %s" % (g, "leaves " + show_cells(set(left) - exp) if set(left) - exp else "also resets " + show_cells(exp - set(left))))
    calls = guarded("cutoff group", lambda: w.cutoff("all", uvcutoff=lo2))
    if calls is not None:
        ch = changed(w.init, library(ctx, calls))
        exp = set(own[n]["uvcutoff"] for n in own if n.startswith("cutoff:") and own[n])
        ctx.check("group changes every member", set(ch) == exp and all(v is lo2.t for v in ch.values()), "group:cutoff", "set_running_uvcutoff('all') does not set %s" % show_cells(exp - set(ch)))
        ctx.check("default group", w.cutoff("all", uvcutoff=lo2) is not None and changed(w.init, library(ctx, w.calls(lambda: w.s.do(w.x, "set_running_uvcutoff", uvcutoff=lo2)))) == ch, "group:cutoff:default", "set_running_uvcutoff() without a name does not set every cutoff")
    ch = changed(w.init, library(ctx, w.calls(lambda: w.s.do(w.x, "set_precision", n=37))))
    exp = changed(w.init, library(ctx, w.precision("all_q", n=37)))
    ctx.check("default group", ch == exp, "group:default", "set_precision() without a name is not 'all_q'")
    # -- clear
    allset = sum([w.precision(n, n=37, min=lo, max=hi, interpol="lin") for n in own if not n.startswith("cutoff:")], []) + sum([w.cutoff(n[7:], uvcutoff=lo2) for n in own if n.startswith("cutoff:")], [])
    every = changed(w.init, library(ctx, allset))
    ctx.check("every setting can be changed", len(every) >= 40, "every", "only %d cells of the settings change" % len(every))
    calls = guarded("clear", w.clear)
    if calls is not None:
        left = changed(w.init, library(ctx, allset + calls))
        vc = [k for k in left if k not in every]
        ctx.check("clear() restores every setting", not [k for k in left if k in every], "clear", lambda: "after clear(), %s differ from their initial values" % show_cells([k for k in left if k in every]))
        info = changed(w.init, library(ctx, [("set_verbosity", [(None, b"info")])]))
        ctx.check("clear() restores the verbosity", {k: left[k] for k in vc} == info, "clear:verbosity", "clear() leaves the verbosity at another level than the default or changes %s" % show_cells(vc))
    # -- every settings cell of the library is one of these
    allcells = set(k for rs in own.values() for k in rs.values())
    governs(ctx, own)
    for n in missing:
        ctx.check("documented setting exists", False, "missing:%s" % n, "the library has no setting %s" % n)
    ctx.stats["settings"] = len(own)
    ctx.stats["cells of the settings"] = len(allcells)

def governs(ctx, own):
    """Dependence of the columns on each setting."""
    P = ctx.program()
    cell = {}
    for n, rs in own.items():
        for r, (o, path) in rs.items():
            cell[o + "".join("." + p for p in path)] = (n, r)
    dep, strays, tables = {}, {}, set()
    def root(x):
        f, _, n = str(x).rpartition(":")
        return f + ":" + n.split(".")[0]
    for f in ctx.families():
        fls = flags(P, f)
        r = base_run(ctx, f, fls[1] if len(fls) > 1 else fls[0])
        for n, c, v, o in columns(ctx, r, f):
            L = list(leaves(guarded_value(v, None, f)))
            tables.update(root(x.args[0].args[0]) for x in L if x.op == "elem" and x.args[0].op == "g" and x.args[0].args)
            for x in L:
                if x.op != "g" or not x.args:
                    continue
                if x.args[0] in cell:
                    s, role = cell[x.args[0]]
                    dep.setdefault(s, {}).setdefault(role, set()).add((f, n))
                elif not str(x.args[0]).startswith("arg:"):
                    strays.setdefault(x.args[0], set()).add((f, n))
                ctx.ok("parameter of a column")
    for x, cs in sorted(strays.items()):
        if root(x) in tables:
            continue
        ctx.check("parameter set by a setting", False, "stray:%s" % x, "column %s of %s depends on %s, which no setting sets" % (sorted(cs)[0][1], sorted(cs)[0][0], x))
    spec = dict(GOVERNS)
    spec.update({"cutoff:" + n: v for n, v in CUT.items()})
    for n in own:
        if n not in spec:
            ctx.check("setting documented", not dep.get(n), "undocumented:%s" % n, "the setting %s governs %s but is not documented" % (n, dep.get(n)))
            continue
        got = dep.get(n, {})
        allowed = set(spec[n]) | set(k for k, ns in INDIRECT.items() if n in ns)
        for role in own[n]:
            for col in sorted(got.get(role, ())):
                ctx.check("column governed by a setting", col in allowed, "governs:%s:%s:%s" % (n, col[0], col[1]), "%s of the setting %s governs column %s of %s" % (role, n, col[1], col[0]))
            if role != "interpol" or n.endswith("_pk_lin"):
                need = set(spec[n])
                lack = need - got.get(role, set())
                ctx.check("setting reaches what it names", not lack, "reach:%s:%s" % (n, role), lambda: "%s of the setting %s does not reach column %s of %s" % (role, n, sorted(lack)[0][1], sorted(lack)[0][0]))
    pairs = {}
    for n in own:
        if n.endswith(("_q", "_mu")):
            pairs.setdefault(n.rsplit("_", 1)[0], []).append(n)
    for b, ns in pairs.items():
        cols = set(c for n in ns for c in dep.get(n, {}).get("interpol", ()))
        lone = b in ("A_2loop_I", "A_2loop_II_III")
        ctx.check("interpolation setting reaches what it names", bool(cols) or lone, "interpol:%s" % b, "the interpolation of %s governs nothing" % b)
