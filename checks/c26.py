"""Containers of columns.  The operations through which columns are declared, listed, looked up, cleaned
and handed to the library are interpreted over the Python syntax tree for every class, on symbolic
columns set in several orders: the list of columns has the declared order whatever the order they were
set in, every declared column is created with its declared shape and the given wavenumbers in the given
order, elements that are not numbers, and those only, become zero, and a missing column is an error."""
from checks.c18 import *
import pyfront as PF

RULE = "columns are those declared, in the declared order, of the declared shape, with the modes in the given order; nan_to_zero changes the elements that are not numbers only"
ASSUMPTIONS = ["numpy functions behave as modelled", "order of symbolic wavenumbers is that of the numbers they are given at the point of the analysis"]
ORDERS = [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [2, 0, 0, 1]]     # positions of the wavenumbers on a rising grid

def declared(s, cls):
    fields = s.C[cls].find("FIELDS") if s.C[cls].has("FIELDS") else []
    shape = s.C[cls].find("SHAPE") if s.C[cls].has("SHAPE") else {}
    return list(fields), dict(shape)

def given(at):
    g = grid("kout.x0", 0, sorted(set(at)))
    m = {a: g[i] for i, a in enumerate(sorted(set(at)))}
    return PF.NP.asarray([m[a] for a in at])

def filled(ctx, s, cls, order):
    """An object whose columns are set one by one, in an order of its own, on three modes."""
    fields, shape = declared(s, cls)
    o = s.new(cls)
    vals = {}
    for i in order:
        f = fields[i]
        vals[f] = grid("kout.x0", 3) if i == 0 else symarr("x0." + f, 3, *shape.get(f, ()))
        s.set(o, f, vals[f])
    return o, fields, shape, vals

def raises(f, kinds):
    try:
        f()
    except PyRaise as e:
        return e.name in kinds
    return False

def listing(ctx, cls):
    s = Session(ctx, light=True)
    fields, shape = declared(s, cls)
    n = len(fields)
    for order in (list(range(n)), list(range(n))[::-1], list(range(1, n, 2)) + list(range(0, n, 2))):
        o, fields, shape, vals = filled(ctx, s, cls, order)
        text = "%s with columns set in the order %s" % (cls, [fields[i] for i in order])
        it = guarded(ctx, cls, "iteration", lambda: list(s.it.iterate(o)))
        if it is None:
            return
        ctx.check("columns listed in the declared order", it == fields, "order:%s" % cls, lambda: "%s: iterating gives %s instead of %s" % (text, it, fields))
        l = guarded(ctx, cls, "tolist", lambda: s.do(o, "tolist"))
        ctx.check("arrays listed in the declared order", l is not None and len(l) == n and all(x is vals[f] or eq(x, vals[f]) for x, f in zip(l, fields)), "tolist:%s" % cls,
                  lambda: "%s: tolist does not give the columns in the order %s" % (text, fields))
        # a column that is not declared is no part of the list
        s.set(o, "own", symarr("own", 3))
        ctx.check("undeclared columns not listed", list(s.it.iterate(o)) == fields and len(s.do(o, "tolist")) == n, "undeclared:%s" % cls, lambda: "%s: a column of the user's own is listed among the declared ones" % text)
        d = guarded(ctx, cls, "as_dict", lambda: s.do(o, "as_dict"))
        ctx.check("all columns in the dictionary", d is not None and set(d) == set(fields) | {"own"} and all(eq(d[f], vals[f]) for f in fields), "dict:%s" % cls, lambda: "%s: as_dict gives %s" % (text, d and sorted(d)))
        some = [fields[-1], fields[0]]
        d = guarded(ctx, cls, "as_dict of some columns", lambda: s.do(o, "as_dict", some))
        ctx.check("chosen columns in the dictionary", d is not None and list(d) == some and all(eq(d[f], vals[f]) for f in some), "dict:%s" % cls, lambda: "%s: as_dict(%s) gives %s" % (text, some, d and list(d)))
        has_ = lambda f: s.it.truth(s.it.call(s.it.attr(o, "__contains__"), [f], {}))
        ctx.check("membership", all(has_(f) for f in fields + ["own"]) and not has_("none"), "member:%s" % cls, lambda: "%s: membership of a column is wrong" % text)
        ctx.check("missing column is an error", raises(lambda: s.get(o, "none"), ("KeyError",)), "missing:%s" % cls, lambda: "%s: a missing column does not raise KeyError" % text)
        ctx.check("size", s.it.call(s.it.attr(o, "__len__"), [], {}) == 3 and s.it.attr(o, "size") == 3, "size:%s" % cls, lambda: "%s: the size is not the number of modes" % text)
        v = guarded(ctx, cls, "pop", lambda: s.do(o, "pop", fields[-1]))
        left = [f for f in s.fields(o)]
        ctx.check("column taken out", v is not None and eq(v, vals[fields[-1]]) and set(left) == set(fields[:-1]) | {"own"} and all(eq(s.get(o, f), vals[f]) for f in fields[:-1]), "pop:%s" % cls, lambda: "%s: after pop(%r) the columns are %s" % (text, fields[-1], left))
        ctx.check("columns listed in the declared order", list(s.it.iterate(o)) == fields[:-1], "order:%s" % cls, lambda: "%s: after pop(%r) iterating gives %s" % (text, fields[-1], list(s.it.iterate(o))))
        ctx.check("missing column is an error", raises(lambda: s.do(o, "pop", fields[-1]), ("KeyError",)), "missing:%s" % cls, lambda: "%s: taking out a missing column does not raise KeyError" % text)

def cleaning(ctx, cls):
    s = Session(ctx, light=True)
    fields, shape = declared(s, cls)
    for which in range(4):
        o, fields, shape, vals = filled(ctx, s, cls, range(len(fields)))
        want = {}
        for j, f in enumerate(fields):
            w = vals[f].copy()
            for i, ix in enumerate(np.ndindex(w.shape)):
                # none, some, one mode, all elements
                if j and (which == 1 and (i + j) % 3 == 0 or which == 2 and ix[0] == 1 or which == 3):
                    vals[f][ix] = S(PF.NAN)
                    w[ix] = S(TM.num(0))
            want[f] = w
        if guarded(ctx, cls, "nan_to_zero", lambda: (s.do(o, "nan_to_zero"), 1)) is None:
            return
        for f in fields:
            got = s.get(o, f)
            ctx.check("elements that are not numbers become zero", eq(got, want[f]), "nan:%s:%s" % (cls, f),
                      lambda: "%s.nan_to_zero: column %s is %s instead of %s" % (cls, f, [show(t) for t in tags(got)], [show(t) for t in tags(want[f])]))

def creating(ctx, cls):
    s = Session(ctx, light=True)
    fields, shape = declared(s, cls)
    for at in ORDERS:
        for n in (len(at), 1):
            k = given(at[:n])
            o = s.new(cls)
            # twice: what was there before is replaced
            for again in range(2):
                if guarded(ctx, cls, "set_terms", lambda: (s.do(o, "set_terms", k), 1)) is None:
                    return
            text = "%s.set_terms of %d wavenumbers in the order %s" % (cls, n, at[:n])
            got = s.get(o, fields[0])
            ctx.check("wavenumbers in the given order", eq(np.asarray(got, object).ravel(), k), "given:%s" % cls, lambda: "%s: the wavenumbers become %s" % (text, [show(t) for t in tags(got)]))
            ctx.check("columns are those declared", set(s.fields(o)) == set(fields) and list(s.it.iterate(o)) == fields, "declared:%s" % cls, lambda: "%s: the columns are %s" % (text, s.fields(o)))
            for f in fields[1:]:
                a = s.get(o, f)
                m = int(np.prod(shape.get(f, ()) or (1,)))
                ctx.check("room for every mode", isinstance(a, np.ndarray) and a.size == n * m, "room:%s:%s" % (cls, f), lambda: "%s: column %s has %d elements for %d modes of %d" % (text, f, a.size, n, m))
        # what is handed out after a computation has the declared shape
        o = s.new(cls)
        base = s.C["PyRegPT"]
        if base in s.C[cls].mro:
            lk, pk = s.lin("lin.x0", 4)
            s.do(o, "set_pk_lin", lk, pk)
            s.do(o, "set_terms", given(at))
            if guarded(ctx, cls, "run_terms", lambda: (s.do(o, "run_terms"), 1)) is None:
                return
            for f in fields:
                a = s.get(o, f)
                ctx.check("declared shape", tuple(a.shape) == (len(at),) + tuple(shape.get(f, ())), "shape:%s:%s" % (cls, f), lambda: "%s: after run_terms column %s has shape %s" % (cls, f, a.shape))
            got = s.get(o, fields[0])
            ctx.check("wavenumbers in the given order", eq(got, given(at)), "given:%s" % cls, lambda: "%s: after run_terms the wavenumbers are %s" % (cls, [show(t) for t in tags(got)]))

def run(ctx):
    n = 0
    for cls in classes(ctx):
        s = Session(ctx, light=True)
        if len(declared(s, cls)[0]) < 2:
            continue
        listing(ctx, cls)
        cleaning(ctx, cls)
        if has(s.it, s.new(cls), "set_terms"):
            creating(ctx, cls)
        n += 1
        ctx.sample("%s: columns %s" % (cls, declared(s, cls)))
    if n < 8:
        raise AnalysisError("only %d classes with columns" % n)
