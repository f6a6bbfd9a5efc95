"""Perturbation theory written down independently of the repository: recursion of the kernels,
integrands of the redshift-space corrections.  Vectors are tuples of mpmath numbers."""
import itertools
import mpmath
from mpmath import mpf

def V(*a):
    return tuple(mpf(x) for x in a)

def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), mpf(0))

def vadd(*vs):
    return tuple(sum(c, mpf(0)) for c in zip(*vs))

def vneg(a):
    return tuple(-x for x in a)

def norm2(a):
    return dot(a, a)

def alpha(p, q):
    return 1 + dot(p, q) / norm2(p)

def beta(p, q):
    s = vadd(p, q)
    return norm2(s) * dot(p, q) / (2 * norm2(p) * norm2(q))

def FG(ks):
    """Unsymmetrised kernels (F_n, G_n) of Goroff et al."""
    n = len(ks)
    if n == 1:
        return mpf(1), mpf(1)
    F = G = mpf(0)
    for m in range(1, n):
        a, b = ks[:m], ks[m:]
        ka, kb = vadd(*a), vadd(*b)
        Fa, Ga = FG(a)
        Fb, Gb = FG(b)
        al = alpha(ka, kb) if Ga * Fb != 0 else mpf(0)
        be = beta(ka, kb) if Ga * Gb != 0 else mpf(0)
        F += Ga * ((2 * n + 1) * al * Fb + 2 * be * Gb)
        G += Ga * (3 * al * Fb + 2 * n * be * Gb)
    d = mpf((2 * n + 3) * (n - 1))
    return F / d, G / d

def sym(a, *ks):
    """Symmetrised kernel of field a ('d' density, 't' velocity divergence)."""
    i = 0 if a == "d" else 1
    tot, n = mpf(0), 0
    for p in itertools.permutations(ks):
        tot += FG(list(p))[i]
        n += 1
    return tot / n

def F2(a, p, q):
    pq, pp, qq = dot(p, q), norm2(p), norm2(q)
    m = pq * (1 / pp + 1 / qq) / 2
    return (mpf(5) / 7 if a == "d" else mpf(3) / 7) + m + (mpf(2) if a == "d" else mpf(4)) / 7 * pq * pq / pp / qq

def azimuth(f, n=8):
    """Average over the azimuth of f(cos, sin): exact for trigonometric polynomials of degree < n."""
    return sum((f(mpmath.cos(2 * mpmath.pi() * j / n), mpmath.sin(2 * mpmath.pi() * j / n)) for j in range(n)), mpf(0)) / n

def fit(fun, exps, mus=None, fs=None):
    """Coefficients of sum_c x_c mu2**a_c f**b_c equal to fun(mu, f); checks that nothing is left."""
    n = len(exps)
    pts = [(mpf(i + 1) / (2 * n + 5) + mpf("0.03") * i * i / n / n, mpf("0.4") + mpf("0.13") * ((5 * i) % (n + 3))) for i in range(n + 2)]
    A = mpmath.matrix(n + 2, n)
    b = mpmath.matrix(n + 2, 1)
    for i, (m2, f) in enumerate(pts):
        for j, (a, c) in enumerate(exps):
            A[i, j] = m2 ** a * f ** c
        b[i] = fun(mpmath.sqrt(m2), f)
    x = mpmath.lu_solve(A[:n, :], b[:n])
    left = max(abs(b[i] - sum(A[i, j] * x[j] for j in range(n))) for i in range(n, n + 2))
    scale = max(abs(b[i]) for i in range(n + 2))
    return [x[j] for j in range(n)], left <= mpf(10) ** -20 * (scale + mpf(10) ** -100)

A_EXPS = [(1, 1), (1, 2), (2, 2), (2, 3), (3, 3)]
B_EXPS = [(1, 2), (1, 3), (1, 4), (2, 2), (2, 3), (2, 4), (3, 3), (3, 4), (4, 4)]

def los(mu):
    return (mpmath.sqrt(1 - mu * mu), mpf(0), mu)       # line of sight; k along z

def geometry(k, q, mu):
    kv = V(0, 0, k)
    s = mpmath.sqrt(1 - mu * mu)
    def at(c, sn):
        qv = (q * s * c, q * s * sn, q * mu)
        return kv, qv, vadd(kv, vneg(qv))
    return at

def B_density(k, q, mu, Pdt, Ptt):
    """Components of (k mu f)^2 q^3/(2 pi)^2 <F(q) F(k-q)>, F(p) = p_z/p^2 (P_dt + f p_z^2/p^2 P_tt)."""
    at = geometry(k, q, mu)
    def fun(m, f):
        n = los(m)
        def one(c, s):
            kv, qv, rv = at(c, s)
            v = mpf(1)
            for p in (qv, rv):
                p2, pz = norm2(p), dot(p, n)
                pa = mpmath.sqrt(p2)
                v *= pz / p2 * (Pdt(pa) + f * pz * pz / p2 * Ptt(pa))
            return v
        return (k * m * f) ** 2 * q ** 3 / (2 * mpmath.pi()) ** 2 * azimuth(one)
    return fit(fun, B_EXPS)

def A_density(k, q, mu, which, bis=None):
    """Components of 2 k mu f q^3/(2 pi)^2 <q_z/q^2 B_sigma(q, k-q, -k)> at tree level; which selects
    the product of two spectra: 'kr' P(k)P(|k-q|), 'qr', 'qk'."""
    at = geometry(k, q, mu)
    def fun(m, f):
        n = los(m)
        def one(c, s):
            kv, qv, rv = at(c, s)
            ok = vneg(kv)
            def x(p):
                return 1 + f * dot(p, n) ** 2 / norm2(p)
            def x2(a, b):
                w = vadd(a, b)
                return F2("d", a, b) + f * dot(w, n) ** 2 / norm2(w) * F2("t", a, b)
            if which == "kr":
                B = 2 * F2("t", rv, ok) * x(rv) * x(ok)
            elif which == "qr":
                B = 2 * x2(qv, rv) * x(rv)
            else:
                B = 2 * x2(qv, ok) * x(ok)
            return dot(qv, n) / norm2(qv) * B
        return 2 * k * m * f * q ** 3 / (2 * mpmath.pi()) ** 2 * azimuth(one)
    return fit(fun, A_EXPS)

def A_project(k, q, mu, bis):
    """Components of 2 k mu f q^3/(2 pi)^2 <q_z/q^2 B_sigma(q, k-q, -k)> for given bispectra
    bis[(b, c)] of theta(q), field b at k-q and field c at -k."""
    at = geometry(k, q, mu)
    def fun(m, f):
        n = los(m)
        def one(c, s):
            kv, qv, rv = at(c, s)
            x, y = f * dot(rv, n) ** 2 / norm2(rv), f * dot(kv, n) ** 2 / norm2(kv)
            return dot(qv, n) / norm2(qv) * (bis["dd"] + x * bis["td"] + y * bis["dt"] + x * y * bis["tt"])
        return 2 * k * m * f * q ** 3 / (2 * mpmath.pi()) ** 2 * azimuth(one)
    return fit(fun, A_EXPS)

def B_tree(abc, ks, G1, G2, P):
    """Gamma-expansion bispectrum at lowest order in the number of spectra: G1(i) propagator of leg i
    with field abc[i], G2(i) vertex of leg i with the two others, P[i] spectra."""
    tot = mpf(0)
    for i in range(3):
        j, l = (i + 1) % 3, (i + 2) % 3
        tot += 2 * G2(i, abc[i]) * G1(j, abc[j]) * G1(l, abc[l]) * P[j] * P[l]
    return tot

def B_loop(abc, ks, q, P):
    """Integrand over d3q/(2 pi)^3 of the one-loop bispectrum terms with three tree-level vertices
    (222) and (321), the loop momentum q being the smallest of those it can be exchanged with."""
    def pos(v):
        return mpmath.sqrt(norm2(v))
    nq = pos(q)
    tot = mpf(0)
    for s in (q, vneg(q)):
        for i in range(3):
            j, l = (i + 1) % 3, (i + 2) % 3
            u, w = vadd(ks[i], vneg(s)), vadd(ks[j], s)
            if pos(u) > nq and pos(w) > nq:
                tot += 4 * F2(abc[i], u, s) * F2(abc[j], w, vneg(s)) * F2(abc[l], u, w) * P(pos(u)) * P(nq) * P(pos(w))
        for j in range(3):
            u = vadd(ks[j], vneg(s))
            if not pos(u) > nq:
                continue
            for i in range(3):
                if i != j:
                    l = 3 - i - j
                    tot += 6 * sym(abc[i], ks[l], u, s) * F2(abc[j], u, s) * P(pos(u)) * P(nq) * P(pos(ks[l]))
    return tot

# -- kernels of any order, and their averages over the directions of loop momenta

def kernels(ks):
    """Symmetrised kernels (F_n, G_n) of wavevectors, some subsets of which may sum to zero (their own
    kernels vanish).  Works for tuples of mpmath numbers and for arrays (3, ...) of numbers."""
    import math
    import numpy as np
    n = len(ks)
    arrays = isinstance(ks[0], np.ndarray)
    full = (1 << n) - 1
    vec, n2 = {}, {}
    for m in range(1, full + 1):
        vs = [ks[i] for i in range(n) if m >> i & 1]
        vec[m] = sum(vs[1:], vs[0]) if arrays else vadd(*vs)
        n2[m] = (vec[m] * vec[m]).sum(0) if arrays else norm2(vec[m])
    d = (lambda a, b: (a * b).sum(0)) if arrays else dot
    zero = (lambda x: not np.any(x)) if arrays else (lambda x: x == 0)
    one = np.longdouble(1) if arrays else mpf(1)
    memo = {}
    def rec(m):
        if m in memo:
            return memo[m]
        c = bin(m).count("1")
        if c == 1:
            r = (one, one)
        elif zero(n2[m]):
            r = None
        else:
            F = G = 0 * one
            s = (m - 1) & m
            while s:
                A, B = rec(s), rec(m ^ s)
                if A is not None and B is not None:
                    w = one / math.comb(c, bin(s).count("1"))
                    pq = d(vec[s], vec[m ^ s])
                    al = 1 + pq / n2[s]
                    be = n2[m] * pq / (2 * n2[s] * n2[m ^ s])
                    F = F + w * A[1] * ((2 * c + 1) * al * B[0] + 2 * be * B[1])
                    G = G + w * A[1] * (3 * al * B[0] + 2 * c * be * B[1])
                s = (s - 1) & m
            q = (2 * c + 3) * (c - 1)
            r = (F / q, G / q)
        memo[m] = r
        return r
    r = rec(full)
    return r if r is not None else (0 * one, 0 * one)

def propagator(x):
    """(density, velocity) 3 * integral over the directions of q of F3(k, q, -q), |q| = x |k|: the
    integrand is a polynomial over (1+x^2)^2 - 4 x^2 mu^2, integrated exactly."""
    n = 6
    a, b = (1 + x * x) ** 2, 4 * x * x
    pts = [mpf(i + 1) / (n + 2) for i in range(n)]
    M = mpmath.matrix(n, n)
    rhs = [mpmath.matrix(n, 1), mpmath.matrix(n, 1)]
    for i, mu in enumerate(pts):
        s = mpmath.sqrt(1 - mu * mu)
        q = (x * s, mpf(0), x * mu)
        f = kernels([V(0, 0, 1), q, vneg(q)])
        for j in range(n):
            M[i, j] = mu ** (2 * j)
        for t in (0, 1):
            rhs[t][i] = f[t] * (a - b * mu * mu)
    # integrals over (-1, 1) of mu^2j / (a - b mu^2)
    y = mpmath.sqrt(b / a)
    I = [mpmath.log(abs((1 + y) / (1 - y))) / (y * a)]
    for j in range(1, n):
        I.append((a * I[-1] - mpf(2) / (2 * j - 1)) / b)
    out = []
    for t in (0, 1):
        c = mpmath.lu_solve(M, rhs[t])
        big = max(abs(c[j]) for j in range(n))
        if max(abs(c[j]) for j in (n - 2, n - 1)) > mpf(10) ** -30 * big:
            raise ArithmeticError("integrand of the propagator of unexpected degree")
        out.append(3 * 2 * mpmath.pi() * sum(c[j] * I[j] for j in range(n)))
    return tuple(out)

_ld = {}
def ldgauss(n):
    """Gauss-Legendre nodes and weights in extended precision."""
    import numpy as np
    if n not in _ld:
        x = np.polynomial.legendre.leggauss(n)[0].astype(np.longdouble)
        for _ in range(3):
            p0, p1 = np.ones_like(x), x.copy()
            for j in range(2, n + 1):
                p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
            d = n * (x * p1 - p0) / (x * x - 1)
            x = x - p1 / d
        _ld[n] = (x, 2 / ((1 - x * x) * d * d))
    return _ld[n]

def vertex(k1, k2, k3, q, n=48):
    """(density, velocity) 6 * integral over the directions of q of F4(k1, k2, q, -q).  The polar axis is
    along the wavevector closest in length to q, and the cosine is integrated in the logarithm of its
    distance to the pole of the integrand."""
    import numpy as np
    ld = np.longdouble
    k1, k2, k3, q = [ld(mpmath.nstr(mpf(x), 25)) for x in (k1, k2, k3, q)]
    z0 = ld(0)
    c = (k3 * k3 - k1 * k1 - k2 * k2) / (2 * k1 * k2)
    s = np.sqrt(max(1 - c * c, z0))
    a, b = np.array([z0, z0, k1]), np.array([k2 * s, z0, k2 * c])
    legs = [a, b, a + b]
    i = int(np.argmin([abs(np.log(q / k)) for k in (k1, k2, k3)]))
    e3 = legs[i] / np.sqrt((legs[i] ** 2).sum())
    e2 = np.array([z0, ld(1), z0])
    e1 = np.cross(e2, e3)
    x = q / (k1, k2, k3)[i]
    D = (1 + x * x) / (2 * x)
    t, w = ldgauss(n)
    lo, hi = np.log(max((1 - x) ** 2 / (2 * x), ld(10) ** -18)), np.log(D)      # the half of the directions with mu > 0
    u = (lo + hi) / 2 + (hi - lo) / 2 * t
    mu, wm = D - np.exp(u), np.exp(u) * w * (hi - lo) / 2
    m = 2 * n
    ph = 2 * ld(np.pi) * (np.arange(m).astype(ld) + ld(0.5)) / m
    X, PH = np.meshgrid(mu, ph, indexing="ij")
    S = np.sqrt(np.maximum((1 - X) * (1 + X), 0))
    qv = q * (S * np.cos(PH) * e1[:, None, None] + S * np.sin(PH) * e2[:, None, None] + X * e3[:, None, None])
    full = lambda v: np.broadcast_to(v[:, None, None], qv.shape).copy()
    F, G = kernels([full(a), full(b), qv, -qv])
    W = wm[:, None] * (2 * ld(np.pi) / m) * 2
    return tuple(mpf(np.format_float_scientific((6 * f * W).sum(), precision=20)) for f in (F, G))

def twoloop(x1, x2, n=16):
    """(density, velocity) 15 * integral over the directions of two loop momenta of F5(k, p, -p, q, -q)."""
    import numpy as np
    ld = np.longdouble
    x, w = ldgauss(n)
    ph = 2 * ld(np.pi) * (np.arange(n).astype(ld) + ld(0.5)) / n
    A, B, P = np.meshgrid(x, x, ph, indexing="ij")
    sa, sb = np.sqrt(1 - A * A), np.sqrt(1 - B * B)
    o = np.zeros_like(A)
    p = ld(x1) * np.array([sa, o, A])
    q = ld(x2) * np.array([sb * np.cos(P), sb * np.sin(P), B])
    F, G = kernels([np.array([o, o, o + 1]), p, -p, q, -q])
    W = w[:, None, None] * w[None, :, None] * (2 * ld(np.pi) / n) * 2 * ld(np.pi)
    return tuple(mpf(np.format_float_scientific((15 * f * W).sum(), precision=20)) for f in (F, G))
