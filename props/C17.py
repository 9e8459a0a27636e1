"""C17: spline-perturbed power-law mass models"""
from .common import own_grid, registry, trap

HARNESSES, harness = registry()
BOUNDS = "posterior 1x2 and 2 injections with one free mass and mass ratio per set, model range [3, 99] and hyperparameter cut-offs below, at and inside it, index and pairing exponent in [-5, 5] (or fixed, in the joint model), spline coefficients in [-3, 3] for orders k = 2 with 3 and k = 4 with 4 basis functions, own grid of 3 nodes per axis in place of 1000 and 500"
OUTSIDE = "a primary mass exactly at the minimum mass, where the mass-ratio range is empty; more samples, finer grids; the power law itself (C05) and the spline basis (C01)"
ASSUMPTIONS = ["powerlaw_pdf and BSpline of the package are the reference (decided by C05 and C01)"]
X = "gwinferno.models.spline_perturbation"
I = "gwinferno.interpolation"
D = "gwinferno.distributions"


def masses(S):
    m, q = S.real("m", 1, 150), S.real("q", 0, 1.5, lo_open=True)
    S.assume(S.ne(m, 3), S.ne(m, 4), S.ne(m, 5))
    if not S.sym:
        S.assume(S.gt(q, 0.05), S.gt(S.abs(q - 1), 1e-3), S.gt(S.abs(q * m - 3), 1e-2), S.gt(S.abs(q * m - 4), 1e-2))
        for t in (3, 4, 5, 61, 99, 99**0.5 * 3**0.5):
            S.assume(S.gt(S.abs(m - t), 1e-2))
    i = S.choose("free", 2)
    ms, qs, mi, qi = [S.num(20), S.num(5)], [S.num("0.7"), S.num("0.9")], [S.num(7), S.num(40)], [S.num("0.95"), S.num("0.5")]
    ms[i], qs[i], mi[1 - i], qi[1 - i] = m, q, m, q
    return ms, qs, mi, qi, i


def coef(S, name, n):
    return S.reals(name, n, -3, 3)


def spline(S, it, n, lo, hi, k, c):
    sp = it.BSpline(n, xrange=(lo, hi), k=k, normalize=False)

    def f(xs):
        b = sp.bases(S.j(xs))
        out = []
        for j in range(len(xs)):
            t = 0
            for i in range(n):
                t = t + S.at(b, i, j) * c[i]
            out.append(S.exp(t))
        return out

    return f


def num(S, x):
    """hyperparameters arrive as floating-point arrays (numpyro samples)"""
    return S.j([x])[0]


def pl(S, ds, x, a, lo, hi):
    return S.elems(ds.powerlaw_pdf(S.j([x]), num(S, a), num(S, lo), num(S, hi)))[0]


def index(S, name):
    a = S.real(name, -5, 5)
    if not S.sym:
        S.assume(S.gt(S.abs(a - 1), 0.05), S.gt(S.abs(a + 1), 0.05))
    return a


def _primary(S, n, k, cuts, fixed=False):
    x, it, ds = S.module(X), S.module(I), S.module(D)
    ms, qs, mi, qi, free = masses(S)
    mn, mx = cuts
    m2 = 3 if mn == 3 else 4  # the secondary limit is a number of its own
    M = x.PowerlawBasisSplinePrimaryPowerlawRatio(n, S.j(ms).reshape(1, 2), S.j(mi), mmin=3.0, m2min=float(m2), mmax=99.0, k=k)
    al, be = (S.num("2.5"), 1) if fixed else (index(S, "alpha"), index(S, "beta"))
    c = coef(S, "c", n)
    f = spline(S, it, n, S.log(S.num(3)), S.log(S.num(99)), k, c)
    g = own_grid(S, M, "ms", 3, 99)
    cj = S.j(c)
    if S.sym:
        Z = trap([pl(S, ds, m, -al, mn, mx) * s for m, s in zip(g, f([S.log(m) for m in g]))], g)
    else:
        import numpy as np

        gg = np.asarray(M.ms)
        Z = np.trapz(np.asarray(ds.powerlaw_pdf(M.ms, num(S, -al), num(S, mn), num(S, mx))) * np.array(f([np.log(v) for v in gg])), gg)
    S.prove_eq("normalisation is the integral of the same product over the own grid", S.elems(M.norm_p_m1(alpha=num(S, al), mmin=num(S, mn), mmax=num(S, mx), cs=cj))[0], Z)
    val = {}
    for flag, m1, q in ((True, ms, qs), (False, mi, qi)):
        am, aq = (S.j(m1).reshape(1, 2), S.j(q).reshape(1, 2)) if flag else (S.j(m1), S.j(q))
        p = S.elems(M.p_m1(am, alpha=num(S, al), mmin=num(S, mn), mmax=num(S, mx), cs=cj))
        v = S.elems(M(am, aq, alpha=num(S, al), beta=num(S, be), mmin=num(S, mn), mmax=num(S, mx), cs=cj))
        s = f([S.log(m) for m in m1])
        val[flag] = v[free if flag else 1 - free]
        for i in range(2):
            S.prove_eq("power law times exponentiated spline over the integral", p[i] * Z, pl(S, ds, m1[i], -al, mn, mx) * s[i])
            S.prove_eq("times the mass-ratio power law", v[i], p[i] * pl(S, ds, q[i], be, S.div(m2, m1[i]), 1))
            if S.test_lt(m1[i], mn) or S.test_lt(mx, m1[i]) or S.test_lt(1, q[i]) or S.test_lt(q[i] * m1[i], m2):
                S.prove_zero("zero outside the limits", v[i])
    S.prove_eq("same parameters, same density", val[True], val[False])


@harness(grid=3, weight=3)
def primary(S):
    _primary(S, 3, 2, (3, 99))


@harness(grid=3, weight=4)
def primary_cut(S):
    _primary(S, 3, 2, (5, 61))


@harness(grid=3, weight=3)
def primary_cubic(S):
    _primary(S, 4, 4, (3, 99), True)


def _joint(S, n, nq, k, cuts):
    x, it, ds = S.module(X), S.module(I), S.module(D)
    ms, qs, mi, qi, free = masses(S)
    mn, mx = cuts
    M = x.PowerlawBasisSplinePrimaryRatio(n, nq, S.j(ms).reshape(1, 2), S.j(qs).reshape(1, 2), S.j(mi), S.j(qi), mmin=3.0, mmax=99.0, k=k)
    al, be = S.choose("indices", [(2, 1), (S.num("2.5"), -1)])
    c, d = coef(S, "c", n), coef(S, "d", nq)
    f = spline(S, it, n, S.log(S.num(3)), S.log(S.num(99)), k, c)
    h = spline(S, it, nq, 0, 1, k, d)
    g, gq = own_grid(S, M, "ms", 3, 99), own_grid(S, M, "qs", S.div(3, S.num(99)), 1, 500)
    kw = dict(alpha=num(S, al), mmax=num(S, mx), cs=S.j(c), beta=num(S, be), vs=S.j(d), mmin=num(S, mn))
    fm, fq = f([S.log(m) for m in g]), h(list(gq))
    if S.sym:
        inner = []
        for m, s in zip(g, fm):
            if S.test_le(m, mn):
                inner.append(0)
                continue
            inner.append(pl(S, ds, m, -al, mn, mx) * s * trap([pl(S, ds, q, be, S.div(mn, m), 1) * t for q, t in zip(gq, fq)], gq))
        Z = trap(inner, g)
    else:
        import numpy as np

        G, H = np.asarray(M.ms), np.asarray(M.qs)
        with np.errstate(all="ignore"):
          pq = np.asarray(ds.powerlaw_pdf(S.j(H[None, :]), num(S, be), S.j(mn / G[:, None]), 1.0)) * np.array(fq)[None, :]
        pq = np.where(G[:, None] > mn, pq, 0.0)
        Z = np.trapz(np.asarray(ds.powerlaw_pdf(M.ms, num(S, -al), num(S, mn), num(S, mx))) * np.array(fm) * np.trapz(pq, H, axis=1), G)
    S.prove_eq("normalisation is the double integral of the same product", S.elems(M.norm_pm1q(**kw))[0], Z)
    val = {}
    for flag, m1, q in ((True, ms, qs), (False, mi, qi)):
        am, aq = (S.j(m1).reshape(1, 2), S.j(q).reshape(1, 2)) if flag else (S.j(m1), S.j(q))
        v = S.elems(M(am, aq, **kw))
        s, t = f([S.log(m) for m in m1]), h(q)
        val[flag] = v[free if flag else 1 - free]
        for i in range(2):
            if S.test_lt(m1[i], mn) or S.test_lt(mx, m1[i]) or S.test_lt(1, q[i]) or S.test_lt(q[i] * m1[i], mn):
                S.prove_zero("zero outside the limits", v[i])
            else:
                S.prove_eq("both power laws times both exponentiated splines over the integral", v[i] * Z, pl(S, ds, m1[i], -al, mn, mx) * s[i] * pl(S, ds, q[i], be, S.div(mn, m1[i]), 1) * t[i])
    S.prove_eq("same parameters, same density", val[True], val[False])


@harness(grid=3, weight=4)
def joint(S):
    _joint(S, 3, 2, 2, (3, 99))


@harness(grid=3, weight=4)
def joint_cut(S):
    _joint(S, 3, 2, 2, (5, 61))


@harness(grid=3, tier="thorough")
def joint_cubic(S):
    _joint(S, 4, 4, 4, (3, 99))


@harness(grid=3)
def default_cutoff(S):
    """without a minimum mass the model's own one is used"""
    x = S.module(X)
    m = S.real("m", 4, 90)
    if not S.sym:
        S.assume(S.gt(S.abs(m - 17.2336), 0.01))
    M = x.PowerlawBasisSplinePrimaryRatio(3, 2, S.j([m]).reshape(1, 1), S.j([S.num("0.9")]).reshape(1, 1), S.j([m]), S.j([S.num("0.9")]), mmin=3.0, mmax=99.0, k=2)
    c, d = S.j(coef(S, "c", 3)), S.j(coef(S, "d", 2))
    a, b = S.j([m]), S.j([S.num("0.9")])
    u = S.elems(M(a, b, alpha=num(S, 2), mmax=num(S, 99), cs=c, beta=num(S, 1), vs=d))[0]
    S.prove_eq("own minimum mass by default", u, S.elems(M(a, b, alpha=num(S, 2), mmax=num(S, 99), cs=c, beta=num(S, 1), vs=d, mmin=num(S, 3)))[0])
