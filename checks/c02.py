"""Typestate analysis of every heap block over the value graph of each computation: blocks are
created by malloc/calloc sites, released by free, and each dereference, release and end of loop
iteration, thread, or computation is checked against the block's state on every path.  Each family
of terms is analysed alone and run twice in a row, in every combination of flags."""
from context import *

RULE = "live -> freed exactly once before the computation returns; no dereference or release in state freed; no release of memory not obtained from the allocator"
ASSUMPTIONS = ["allocation succeeds", "the Cuba integrator calls its integrand and touches only its own arguments"]

TEXT = {"uaf": "use of a released block", "dangling": "dereference of a pointer left over from an earlier computation",
        "doublefree": "block released twice", "badfree": "release of memory the library does not own",
        "leak-iter": "block allocated in a loop iteration and not released before the next", "leak-region": "block allocated by a thread and not released before the parallel region ends",
        "free-in-loop": "block released inside a loop, again by the next iteration", "nullderef": "null pointer dereferenced"}

def run(ctx):
    configs = [()] + ([("_CUBA15",), ("_FLOAT32",)] if ctx.thorough else [])
    for cfg in configs:
        P = ctx.program(*cfg)
        fams = ctx.families()
        for f in fams:
            heavy = f.startswith("A_2loop")
            fls = flags(P, f)
            if not ctx.thorough:
                fls = [fls[0]] + ([fls[1], fls[3]] if len(fls) > 1 else [])
            for fl in fls:
                for verb in (["QUIET", "DEBUG"] if ctx.thorough else ["QUIET"]):
                    calls = [("set_pk_lin",), ("set_terms_" + f,), ("run_terms_" + f, fl)]
                    if not (heavy and not ctx.thorough):
                        calls.append(("run_terms_" + f, fl, "again"))
                    analyse(ctx, P, calls, cfg, verb, f)
        # histories across families
        hist = [("bias_1loop", "A_1loop"), ("spectrum_1loop", "B"), ("B", "spectrum_1loop"), ("A_1loop", "bias_1loop")]
        if ctx.thorough:
            hist = [(a, b) for a in fams for b in fams if a != b]
        for a, b in hist:
            if a in fams and b in fams:
                calls = [("set_pk_lin",), ("set_terms_" + a,), ("set_terms_" + b,), ("run_terms_" + a, flags(P, a)[-1]), ("run_terms_" + b, flags(P, b)[-1])]
                analyse(ctx, P, calls, cfg, "QUIET", a + ";" + b)
        # entry points that allocate on their own
        others = [n for n in ctx.api() if not n.startswith(("run_terms_", "set_", "nodes_"))]
        for n in sorted(others) + ["run_spectrum_1loop"]:
            if n in P.funcs:
                calls = [("set_pk_lin",)]
                if n == "run_spectrum_1loop":
                    calls.append(("set_spectrum_1loop",))
                calls.append((n, {p: "delta" for p, t in zip(P.funcs[n].params, P.funcs[n].ty.params) if t.kind == "ptr" and t.to.size == 1}))
                analyse(ctx, P, calls, cfg, "QUIET", n, intr=False)
    if ctx.obl.get("release", 0) < 40 or ctx.obl.get("allocation", 0) < 40:
        raise AnalysisError("fewer allocation and release sites than the library is known to have")

def analyse(ctx, P, calls, cfg, verb, label, intr=True):
    r = ctx.run(calls, cfg, verbosity=verb, init="mixed", intrinsics=intr)
    it, st = r.it, r.st
    for e in it.events:
        if e.kind == "alloc":
            ctx.ok("allocation")
            ctx.sample("%s: block allocated at %s, state at the end: %s" % (label, e.where, it.hstate(st, st.heap.get(e.obj.id))))
        elif e.kind == "free":
            ctx.ok("release")
        elif e.kind in TEXT:
            what = e.obj.name if e.obj is not None else ""
            ctx.violation("%s:%s:%s" % (e.kind, fn_of(e), re_line(what)), "%s: %s at %s (%s) in %s" % (label, TEXT[e.kind], e.where, what, " > ".join(f.name for f, _, _ in e.stack)))
    for h, hs in st.heap.items():
        o = it.objs[h]
        if o.kind != "heap":
            continue
        ctx.ok("block state at the end of the computation")
        hs = it.hstate(st, hs)
        if it.hleaves(hs) - {"freed", "none"}:
            ctx.violation("leak:%s" % re_line(o.name), "%s: block allocated at %s is not released on every path before the computation returns" % (label, o.where))

def fn_of(e):
    return e.stack[-1][0].name if e.stack else "?"

def re_line(s):
    import re
    return re.sub(r":\d+", "", s or "")
