"""Decides linear statements about array indices from path conditions and loop ranges: refutation by
Fourier-Motzkin elimination over the integers with case splits on conditional expressions."""
from fractions import Fraction
from math import gcd
import terms as TM
from terms import *

class Budget(Exception):
    pass

def prove_range(idx, size, pc, loops, extra=()):
    """0 <= idx < size under the path condition and the ranges of the enclosing loops?"""
    hyps = list(pc) + list(extra)
    for lv, n in loops:
        hyps.append(cmp("<=", ZERO, lv))
        if n is not None:
            hyps.append(cmp("<", lv, n))
    return prove(cmp("<=", ZERO, idx), hyps) and prove(cmp("<", idx, size), hyps)

def prove(goal, hyps):
    if goal.op == "num":
        return goal.args[0] != 0
    try:
        return refute([(h, True) for h in hyps] + [(goal, False)], {}, [], [], [4000], atoms(goal))
    except Budget:
        return False

def atoms(t):
    """Integer atoms of the comparisons of a boolean term."""
    out = set()
    stack = [t]
    while stack:
        u = stack.pop()
        if u.op in ("and", "or", "not"):
            stack.extend(u.args)
        elif u.op == "cmp":
            for s in u.args[1:]:
                for k in lin(s)[0]:
                    inner(k, out)
    return out

def inner(k, out):
    if k in out:
        return
    out.add(k)
    if k.op == "sel":
        for s in k.args[1:]:
            for x in lin(s)[0]:
                inner(x, out)
        out |= atoms(k.args[0])
    elif k.op in ("idiv", "mod", "*"):
        for s in k.args:
            for x in lin(s)[0]:
                inner(x, out)
    elif k.op == "fn":
        for s in k.args[1:]:
            if isinstance(s, T):
                for x in lin(s)[0]:
                    inner(x, out)

def refute(todo, facts, lins, disj, budget, rel):
    """Are these assumptions contradictory?  lins: (coefs, const) meaning sum + const >= 0."""
    budget[0] -= 1
    if budget[0] < 0:
        raise Budget()
    todo = list(todo)
    while todo:
        t, v = todo.pop()
        if t.op == "num":
            if (t.args[0] != 0) != v:
                return True
            continue
        if t.op == "not":
            todo.append((t.args[0], not v))
            continue
        f = facts.get(t)
        if f is not None:
            if f != v:
                return True
            continue
        facts[t] = v
        n = notb(t)
        if n.op != "not":
            facts[n] = not v
        if t.op == "and":
            if v:
                todo += [(x, True) for x in t.args]
            else:
                disj.append([(x, False) for x in t.args])
        elif t.op == "or":
            if not v:
                todo += [(x, False) for x in t.args]
            else:
                disj.append([(x, True) for x in t.args])
        elif t.op == "cmp":
            o, a, b = t.args
            if o == "==":
                if v:
                    lins.append(sub(a, b)); lins.append(sub(b, a))
                else:
                    disj.append([(mk("cmp", "<", a, b), True), (mk("cmp", "<", b, a), True)])
            elif o == "<":
                lins.append(sub(sub(b, a), ONE) if v else sub(a, b))
            else:
                lins.append(sub(b, a) if v else sub(sub(a, b), ONE))
        elif t.op == "sel":
            disj.append([("case", t.args[0], t.args[1], True, v), ("case", t.args[0], t.args[2], False, v)])
    # relevance: only constraints over atoms connected to the goal
    rel = set(rel)
    cons = []
    pool = list(lins)
    sels = []
    changed = True
    used = set()
    while changed:
        changed = False
        for i, l in enumerate(pool):
            if i in used:
                continue
            ks = set()
            for k in lin(l)[0]:
                inner(k, ks)
            if not ks or ks & rel:
                used.add(i)
                rel |= ks
                changed = True
    for i in used:
        d, c = lin(pool[i])
        cons.append((d, c))
        for k in d:
            s = findsel(k)
            if s is not None:
                sels.append(s)
    if sels:
        c = sels[0]
        env = {}
        for v in (True, False):
            f2 = dict(facts)
            if facts.get(c) is not None and facts[c] != v:
                continue
            l2 = [substsel(l, c, v) for l in lins]
            d2 = [list(x) for x in disj]
            if not refute([(c, v)], f2, l2, d2, budget, rel | atoms(c)):
                return False
        return True
    # auxiliary facts about the atoms
    aux = []
    dj = []
    seen = set()
    st = [k for d, c in cons for k in d]
    while st:
        k = st.pop()
        if k in seen:
            continue
        seen.add(k)
        if k.op in ("g", "sym", "lv"):
            aux.append(({k: Fraction(1)}, Fraction(0)))
        elif k.op == "fn" and k.args[0] in ("u", "trunc", "narrow"):
            pass
        elif k.op == "idiv" and k.args[1].op == "num" and k.args[1].args[0] > 0:
            x, y = k.args
            for z in lin(x)[0]:
                st.append(z)
            dj.append((k, x, y.args[0]))
        elif k.op == "mod" and k.args[1].op == "num":
            st += list(lin(k.args[0])[0])
            aux.append(({k: Fraction(1)}, Fraction(0)))
            aux.append(({k: Fraction(-1)}, k.args[1].args[0] - 1))
        elif k.op == "*":
            if all(x.op in ("g", "sym", "lv") for x in k.args):
                aux.append(({k: Fraction(1)}, Fraction(0)))
    # idiv: x>=0 -> y*q <= x <= y*q+y-1 ; the unsigned or non-negative case is the only one used
    for k, x, y in dj:
        dx, cx = lin(x)
        d = dict(dx); d[k] = d.get(k, 0) - y
        a1 = (d, cx)
        d = {z: -w for z, w in dx.items()}; d[k] = d.get(k, 0) + y
        a2 = (d, y - 1 - cx)
        if infeasible(cons + aux + [({z: -w for z, w in dx.items()}, -cx - 1)], budget):
            aux += [a1, a2]
    if infeasible(cons + aux, budget):
        return True
    for i, alts in enumerate(disj):
        rest = [list(x) for j, x in enumerate(disj) if j != i]
        ks = set()
        for a in alts:
            ks |= atoms(a[0] if len(a) == 2 else a[1])
        if ks and not ks & rel:
            continue
        ok = True
        for a in alts:
            add_ = [a] if len(a) == 2 else [(a[1], a[3]), (a[2], a[4])]
            if not refute(add_, dict(facts), list(lins), [list(x) for x in rest], budget, rel):
                ok = False
                break
        return ok
    return False

def findsel(k):
    if k.op == "sel":
        return k.args[0]
    if k.op in ("idiv", "mod", "*", "fn"):
        for s in k.args:
            if isinstance(s, T):
                for x in lin(s)[0]:
                    r = findsel(x)
                    if r is not None:
                        return r
    return None

def substsel(t, c, v, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "sel" and t.args[0] is c:
        r = substsel(t.args[1] if v else t.args[2], c, v, memo)
    elif t.op in ("+", "*", "neg", "idiv", "mod", "sel", "fn"):
        a = [substsel(x, c, v, memo) if isinstance(x, T) else x for x in t.args]
        r = rebuild(t, a)
    else:
        r = t
    memo[t] = r
    return r

def tight(d, c):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return d, c
    m = 1
    for v in d.values():
        m = m * Fraction(v).denominator // gcd(m, Fraction(v).denominator)
    c = c * m
    g = 0
    for k in d:
        d[k] = int(d[k] * m)
        g = gcd(g, d[k])
    c = Fraction(c) / g
    c = Fraction(c.numerator // c.denominator)
    return {k: Fraction(v // g) for k, v in d.items()}, c

def infeasible(cons, budget):
    cs = []
    seen = set()
    for d, c in cons:
        d, c = tight(dict(d), c)
        if not d:
            if c < 0:
                return True
            continue
        k = (frozenset(d.items()), c)
        if k not in seen:
            seen.add(k)
            cs.append((d, c))
    while True:
        vs = {}
        for d, c in cs:
            for k, v in d.items():
                p, n = vs.get(k, (0, 0))
                vs[k] = (p + (v > 0), n + (v < 0))
        if not vs:
            return False
        x = min(vs, key=lambda k: (vs[k][0] * vs[k][1], k.id))
        pos = [(d, c) for d, c in cs if d.get(x, 0) > 0]
        ng = [(d, c) for d, c in cs if d.get(x, 0) < 0]
        new = [(d, c) for d, c in cs if d.get(x, 0) == 0]
        best = {}
        for d1, c1 in pos:
            for d2, c2 in ng:
                a, b = d1[x], -d2[x]
                d = {}
                for k, v in d1.items():
                    d[k] = d.get(k, 0) + v * b
                for k, v in d2.items():
                    d[k] = d.get(k, 0) + v * a
                d, c = tight(d, c1 * b + c2 * a)
                if not d:
                    if c < 0:
                        return True
                    continue
                new.append((d, c))
        for d, c in new:
            k = frozenset(d.items())
            if k not in best or best[k][1] > c:
                best[k] = (d, c)
        cs = list(best.values())
        if len(cs) > 3000:
            raise Budget()
