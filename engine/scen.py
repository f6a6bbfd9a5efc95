"""Scenarios: sequences of library calls from a symbolic library state, interpreted abstractly."""
import terms as TM
from terms import *
from cfront import *
import cfront
from cinterp import *

class Run(object):
    pass

def scenario(prog, calls, verbosity="QUIET", init="sym", summaries=True, log_all=False, intrinsics=True, sizes=None, prepare=None):
    """calls: list of (function, {param index or name: value}).  Pointers default to a fresh
    caller-owned array named arg:<call>.<param>, scalars to a symbol."""
    it = Interp(prog, intrinsics=intrinsics, summaries=summaries)
    it.static_inits = []
    it.regions = []
    it.log_all = log_all
    it.static_sym = init == "sym"
    it.point = None
    st = State()
    it.init_globals(st, init)
    if verbosity is not None and "verbose" in prog.gvars:
        g = prog.gvars["verbose"]
        o = it.gobj(g)
        ev = {}
        for u in prog.units.values():
            ev.update(u.enums)
        st.mem[(o.id, ())] = num(ev[verbosity])
    r = Run()
    r.it, r.st, r.args, r.rets = it, st, {}, []
    if prepare:
        prepare(it, st)
    it.frames.append(Frame(None, list(prog.units.values())[0]))
    r.marks = []
    for ci, c in enumerate(calls):
        fname, over = c[0], (c[1] if len(c) > 1 else {})
        label = c[2] if len(c) > 2 else fname
        fd = prog.funcs.get(fname)
        if fd is None:
            raise AnalysisError("no function %s in the library" % fname)
        vals = []
        for i, (pn, pt) in enumerate(zip(fd.params, fd.ty.params or [])):
            v = over.get(pn, over.get(i))
            if v is None:
                if pt.kind == "ptr" and pt.to.kind in ("float",):
                    o = it.extern_array("arg:%s.%s" % (label, pn), pt.to, size=sizes(fname, label, pn) if sizes else None)
                    r.args[(label, pn)] = o
                    r.args[(label, i)] = o
                    v = Ptr(o, (), ZERO, pt.to)
                elif pt.kind == "ptr" and pt.to.kind == "int" and pt.to.size == 1:
                    o = it.extern_array("str:%s.%s" % (label, pn), pt.to)
                    v = Ptr(o, (), ZERO, pt.to)
                elif pt.kind == "ptr":
                    raise AnalysisError("pointer parameter %s of %s" % (pn, fname))
                else:
                    v = sym("arg", label, pn)
            elif isinstance(v, str):
                v = Str(v)
            elif isinstance(v, Obj):
                v = Ptr(v, (), ZERO, pt.to)
            vals.append((v, pt))
        r.marks.append(len(it.events))
        r.rets.append(it.call_entry(fd, vals, st))
    r.marks.append(len(it.events))
    it.frames.pop()
    return r

def cell(r, obj, idx, ety=DOUBLE):
    """Value of element idx of an array after the scenario."""
    return r.it.load(r.st, Loc(obj, (), idx, ety), True)

def gval(r, name, path=()):
    for u, g in r.it.all_gvars():
        if g.key == name or g.name == name and not g.static:
            return r.it.load(r.st, Loc(r.it.gobj(g), tuple(path), None, g.ty if not path else r.it.leafty(r.it.gobj(g), tuple(path))), True)
    raise KeyError(name)
