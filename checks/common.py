"""Helpers shared by the checks."""
import ast, os
from context import *

OPAQUE = {"carried": "depends on a value carried from an earlier iteration", "stale": "reads working data left by an earlier computation or another thread",
          "undef": "reads memory that was never written", "tid": "depends on the number or identity of threads", "redux": "is accumulated across threads in an unspecified order"}

def opaque_leaves(v):
    """(op, description) of every leaf of v that is not a function of inputs, modes and settings."""
    out = []
    for x in sorted(leaves(v), key=lambda t: t.id):
        if x.op in OPAQUE:
            out.append((x.op, "%s (%s)" % (OPAQUE[x.op], show(x)[:80])))
        elif x.op == "sym" and x.args and x.args[0] in ("clock", "env"):
            out.append(("clock", "depends on the clock or the environment"))
    return out

def family(ctx, f):
    """First Python class whose computation is run_terms_<f>."""
    from checks.layer import family_table
    for x in family_table(ctx):
        if x.suffix == f:
            return x
    raise AnalysisError("no Python class computes the terms of %s" % f)

def shapes(ctx, f):
    """(field, number of components), in the order of the columns handed to the library."""
    return family(ctx, f).shapes

MODE = sym("mode")

def columns(ctx, r, f, label=None):
    """Output columns of a run: list of (field, component, value at the symbolic mode, object)."""
    label = label or "set_terms_" + f
    fd = r.it.P.funcs["set_terms_" + f]
    sh = shapes(ctx, f)
    ptrs = [p for p, t in zip(fd.params, fd.ty.params) if t.kind == "ptr"]
    if len(ptrs) != len(sh):
        raise AnalysisError("set_terms_%s takes %d arrays, its class has %d fields" % (f, len(ptrs), len(sh)))
    out = []
    for (name, m), p in list(zip(sh, ptrs))[1:]:
        o = r.args[(label, p)]
        for c in range(m):
            out.append((name, c, SC.cell(r, o, norm(add(mul(num(m), MODE), num(c)))), o))
    return out

def base_run(ctx, f, fl, cfg=(), **kw):
    kw.setdefault("verbosity", None)
    kw.setdefault("init", "sym")
    return ctx.run(family_calls(ctx.program(*cfg), f, fl), cfg, **kw)

def lookup_bodies(ctx, cfg=()):
    """The helpers the interpreter treats as table lookups: their own bodies, for effects.
    Yields (name, run, set of output objects)."""
    P = ctx.program(*cfg)
    for n in ("find_pk", "find_pk_lin", "calc_running_sigmad2", "nodes_weights_gauss_legendre"):
        fd = P.funcs.get(n)
        if fd is None:
            continue
        over = {}
        calls = [("set_pk_lin",), (n, over)]
        for p, t in zip(fd.params, fd.ty.params):
            if t.kind == "struct":
                over[p] = "@table"
        if any(v == "@table" for v in over.values()):
            # a table passed by value: use the linear spectrum
            r = table_call(ctx, n, cfg)
        else:
            r = ctx.run(calls, cfg, verbosity=None, init="sym", intrinsics=False, log_all=True)
        yield n, r

def table_call(ctx, n, cfg=()):
    """Call n with the linear-spectrum table by value."""
    key = ("table_call", n, cfg)
    r = ctx.runs.get(key)
    if r is None:
        P = ctx.program(*cfg)
        fd = P.funcs[n]
        over = {}
        def prep(it, st):
            for p, t in zip(fd.params, fd.ty.params):
                if t.kind == "struct":
                    over[p] = struct_of(it, st, t)
        r = SC.scenario(P, [("set_pk_lin",), (n, over)], verbosity=None, init="sym", intrinsics=False, log_all=True, prepare=prep)
        ctx.note(r)
        ctx.runs[key] = r
    return r

def struct_of(it, st, t):
    from cinterp import StructV, Ptr
    lv = {}
    for p, lt in it.leafs(t):
        if lt.kind == "ptr":
            o = it.extern_array("arg:table." + ".".join(p), lt.to)
            lv[p] = Ptr(o, (), ZERO, lt.to)
        else:
            lv[p] = sym("arg", "table", ".".join(p))
    return StructV(t, lv)
