"""C12: separable two-dimensional spline models"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "1x2 posterior and 2 injection value pairs, one free value per parameter and set (positions chosen), linear splines with 3 (first) and 4 (second) basis functions, coefficients in [-5, 5], every model; options given to one component only and to both; power-law indices in [-5, 5]"
OUTSIDE = "more samples and basis functions; the one-dimensional factors themselves (decided by C13, C10)"
ASSUMPTIONS = ["the factor of reference is the one-dimensional model of gwinferno.models.bsplines.single (decided by C13)"]
Z = "gwinferno.models.bsplines.separable"
B = "gwinferno.models.bsplines.single"
I = "gwinferno.interpolation"


def values(S, lo, hi, lo2=None, hi2=None):
    """pe: (1,2), inj: (2,) for two parameters; one free entry in each"""
    lo2, hi2 = lo if lo2 is None else lo2, hi if hi2 is None else hi2
    which = S.choose("free", 2)
    u, v = S.real("u", lo, hi), S.real("v", lo2, hi2)
    if not S.sym:
        for f, a, b in ((u, lo, hi), (v, lo2, hi2)):
            for k in (0, 1 / 3, 0.5, 2 / 3, 1):
                S.assume(S.gt(S.abs(f - a - k * (b - a)), 1e-3))

    def c(a, b, w):
        return S.num(a) + (S.num(b) - S.num(a)) * S.num(w)

    x1, x2 = [c(lo, hi, "0.2"), c(lo, hi, "0.7")], [c(lo2, hi2, "0.4"), c(lo2, hi2, "0.9")]
    y1, y2 = [c(lo, hi, "0.6"), c(lo, hi, "0.1")], [c(lo2, hi2, "0.8"), c(lo2, hi2, "0.3")]
    if which == 0:
        x1[0], x2[0] = u, v
    else:
        y1[1], y2[1] = u, v
    return x1, x2, y1, y2


def pe(S, x):
    return S.j(x).reshape(1, 2)


def product(S, M, call, f1, c1, f2, c2, extra=None):
    for flag in (True, False):
        got = call(M, flag)
        S.prove_true("shape", S.shape(got) == ((1, 2) if flag else (2,)))
        got = S.elems(got)
        a, b = S.elems(f1(c1, pe_samples=flag)), S.elems(f2(c2, pe_samples=flag))
        for i in range(2):
            w = a[i] * b[i]
            if extra:
                w = w * extra(flag, i)
            S.prove_eq("product of the two factors" + (" (posterior)" if flag else " (injections)"), got[i], w)


def _spin(S, iid, indep, single, lo, hi, basis):
    z, b, it = S.module(Z), S.module(B), S.module(I)
    x1, x2, y1, y2 = values(S, lo, hi)
    bas = getattr(it, basis)
    F = getattr(b, single)
    c, d = S.j(S.reals("c", 3, -5, 5)), S.j(S.reals("d", 4, -5, 5))
    kind = S.choose("kind", ["iid", "independent", "own options"])
    if kind == "iid":
        M = getattr(z, iid)(3, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), degree=1, basis=bas)
        f1, f2 = F(3, pe(S, x1), S.j(y1), degree=1, basis=bas), F(3, pe(S, x2), S.j(y2), degree=1, basis=bas)
        product(S, M, lambda M, f: M(c, pe_samples=f), f1, c, f2, c)
        for u, v in zip(S.elems(M(c)), S.elems(M(c, pe_samples=True))):
            S.prove_eq("posterior samples are the default", u, v)
        return
    k1, k2 = ({}, {}) if kind == "independent" else ({"xrange": (lo, (lo + hi) / 2)}, {"normalize": False})
    M = getattr(z, indep)(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), kwargs1=dict(k1), kwargs2=dict(k2), degree=1, basis=bas)
    f1 = F(3, pe(S, x1), S.j(y1), degree=1, basis=bas, **k1)
    f2 = F(4, pe(S, x2), S.j(y2), degree=1, basis=bas, **k2)
    product(S, M, lambda M, f: M(c, d, pe_samples=f), f1, c, f2, d)


@harness(grid=3)
def magnitudes(S):
    _spin(S, "BSplineIIDSpinMagnitudes", "BSplineIndependentSpinMagnitudes", "BSplineSpinMagnitude", 0, 1, "LogYBSpline")


@harness(grid=3)
def tilts(S):
    _spin(S, "BSplineIIDSpinTilts", "BSplineIndependentSpinTilts", "BSplineSpinTilt", -1, 1, "LogYBSpline")


@harness(grid=3)
def defaults_do_not_leak(S):
    """options of one model never reach a later one built with the defaults"""
    z, b, it = S.module(Z), S.module(B), S.module(I)
    x1, x2, y1, y2 = values(S, 0, 1)
    k1, k2 = {"xrange": (0, 0.5)}, {"xrange": (0.25, 1)}
    c, d = S.j(S.reals("c", 3, -5, 5)), S.j(S.reals("d", 4, -5, 5))
    name, single = S.choose("model", [("BSplineIndependentSpinMagnitudes", "BSplineSpinMagnitude"), ("BSplineIndependentSpinTilts", "BSplineSpinTilt"), ("BSplineEffectiveSpinDims", None)])
    C = getattr(z, name)
    if single:
        C(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), kwargs1=k1, kwargs2=k2, degree=1)
        M = C(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), degree=1)
        f1, f2 = getattr(b, single)(3, pe(S, x1), S.j(y1), degree=1), getattr(b, single)(4, pe(S, x2), S.j(y2), degree=1)
    else:
        C(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), kwargs_e=k1, kwargs_p=k2, degree=1)
        M = C(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), degree=1)
        f1, f2 = b.BSplineChiEffective(3, pe(S, x1), S.j(y1), degree=1), b.BSplineChiPrecess(4, pe(S, x2), S.j(y2), degree=1)
    S.prove_true("the caller's options are unchanged", k1 == {"xrange": (0, 0.5)} and k2 == {"xrange": (0.25, 1)})
    product(S, M, lambda M, f: M(c, d, pe_samples=f), f1, c, f2, d)


@harness(grid=3)
def effective_spins(S):
    z, b, it = S.module(Z), S.module(B), S.module(I)
    x1, x2, y1, y2 = values(S, -1, 1, 0, 1)
    c, d = S.j(S.reals("c", 3, -5, 5)), S.j(S.reals("d", 4, -5, 5))
    ke, kp = S.choose("options", [({}, {}), ({"xrange": (-0.5, 0.75)}, {"xrange": (0, 0.75)})])
    M = z.BSplineEffectiveSpinDims(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), kwargs_e=dict(ke), kwargs_p=dict(kp), degree=1)
    f1 = b.BSplineChiEffective(3, pe(S, x1), S.j(y1), degree=1, **ke)
    f2 = b.BSplineChiPrecess(4, pe(S, x2), S.j(y2), degree=1, **kp)
    product(S, M, lambda M, f: M(c, d, pe_samples=f), f1, c, f2, d)


def ratio_power(S, x1, x2, y1, y2, be):
    def e(flag, i):
        m1, m2 = (x1[i], x2[i]) if flag else (y1[i], y2[i])
        return S.pow(S.div(m2, m1), be)

    return e


@harness(grid=3, weight=2)
def component_masses(S):
    z, b, it = S.module(Z), S.module(B), S.module(I)
    x1, x2, y1, y2 = values(S, 2, 40)
    be = S.real("beta", -5, 5)
    bas = it.LogYBSpline
    c, d = S.j(S.reals("c", 3, -5, 5)), S.j(S.reals("d", 4, -5, 5))
    k1, k2 = S.choose("options", [({}, {}), ({"normalize": False}, {"xrange": (3, 30)})])
    M = z.BSplineIndependentComponentMasses(3, 4, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), mmin1=2, mmax1=36, mmin2=3, mmax2=38, kwargs1=dict(k1), kwargs2=dict(k2), basis=bas, degree=1)
    f1 = b.BSplineMass(3, pe(S, x1), S.j(y1), mmin=2, mmax=36, basis=bas, degree=1, **k1)
    f2 = b.BSplineMass(4, pe(S, x2), S.j(y2), mmin=3, mmax=38, basis=bas, degree=1, **k2)
    product(S, M, lambda M, f: M(c, d, beta=be, pe_samples=f), f1, c, f2, d, ratio_power(S, x1, x2, y1, y2, be))
    for u, v in zip(S.elems(M(c, d)), S.elems(M(c, d, beta=0, pe_samples=True))):
        S.prove_eq("no pairing by default", u, v)


@harness(grid=3, weight=2)
def component_masses_iid(S):
    z, b, it = S.module(Z), S.module(B), S.module(I)
    x1, x2, y1, y2 = values(S, 2, 40)
    be = S.real("beta", -5, 5)
    bas = it.LogYBSpline
    c = S.j(S.reals("c", 3, -5, 5))
    M = z.BSplineIIDComponentMasses(3, pe(S, x1), pe(S, x2), S.j(y1), S.j(y2), mmin=3, mmax=36, basis=bas, degree=1)
    f1 = b.BSplineMass(3, pe(S, x1), S.j(y1), mmin=3, mmax=36, basis=bas, degree=1)
    f2 = b.BSplineMass(3, pe(S, x2), S.j(y2), mmin=3, mmax=36, basis=bas, degree=1)
    pair = ratio_power(S, x1, x2, y1, y2, be)

    def e(flag, i):
        m1, m2 = (x1[i], x2[i]) if flag else (y1[i], y2[i])
        return 0 if S.test_lt(m1, m2) else pair(flag, i)

    product(S, M, lambda M, f: M(c, beta=be, pe_samples=f), f1, c, f2, c, e)


@harness(grid=3, weight=2)
def spline_primary_powerlaw_ratio(S):
    z, b, it, ds = S.module(Z), S.module(B), S.module(I), S.module("gwinferno.distributions")
    x1, x2, y1, y2 = values(S, 3, 40, 0.3, 1)
    be = S.real("beta", -5, 5)
    mn = S.num("2.5")
    if not S.sym:
        S.assume(S.gt(S.abs(be + 1), 0.01))
        for q, m in zip(x2 + y2, x1 + y1):
            S.assume(S.gt(S.abs(q * m - mn), 1e-3))
    c = S.j(S.reals("c", 3, -5, 5))
    bas = it.LogYBSpline
    M = z.BSplinePrimaryPowerlawRatio(3, pe(S, x1), S.j(y1), mmin=4, mmax=36, basis=bas, degree=1)
    f = b.BSplineMass(3, pe(S, x1), S.j(y1), mmin=4, mmax=36, basis=bas, degree=1)
    for flag, ms, qs in ((True, x1, x2), (False, y1, y2)):
        am, aq = (pe(S, ms), pe(S, qs)) if flag else (S.j(ms), S.j(qs))
        got = S.elems(M(am, aq, be, mn, c, pe_samples=flag))
        p = S.elems(f(c, pe_samples=flag))
        for i in range(2):
            S.prove_eq("spline in primary mass times power law in mass ratio", got[i], p[i] * S.elems(ds.powerlaw_pdf(S.j([qs[i]]), be, S.div(mn, ms[i]), 1))[0])


@harness(grid=3, weight=2)
def peak_primary_spline_ratio(S):
    z, b, it, pa = S.module(Z), S.module(B), S.module(I), S.module("gwinferno.models.parametric.parametric")
    x1, x2, y1, y2 = values(S, 3, 40, 0, 1)
    al, lam = S.num("-2.5"), S.real("lam", 0, 1)
    c = S.j(S.reals("c", 3, -5, 5))
    k = S.choose("options", [{}, {"qmin": 0.25}, {"xrange": (0.1, 0.8)}])
    M = z.PLPeakPrimaryBSplineRatio(3, pe(S, x2), S.j(y2), degree=1, **k)
    f = b.BSplineRatio(3, pe(S, x2), S.j(y2), degree=1, **k)
    for flag, ms in ((True, x1), (False, y1)):
        am = pe(S, ms) if flag else S.j(ms)
        got = S.elems(M(am, al, 5, 36, 30, 4, lam, c, pe_samples=flag))
        p = S.elems(f(c, pe_samples=flag))
        for i in range(2):
            S.prove_eq("power law plus peak in primary mass times spline in mass ratio", got[i], p[i] * S.elems(pa.plpeak_primary_pdf(S.j([ms[i]]), al, 5, 36, 30, 4, lam))[0])


@harness(grid=3, weight=2)
def spline_primary_spline_ratio(S):
    z, b, it = S.module(Z), S.module(B), S.module(I)
    x1, x2, y1, y2 = values(S, 3, 40, 0, 1)
    c, d = S.j(S.reals("c", 3, -5, 5)), S.j(S.reals("d", 4, -5, 5))
    km, kq = S.choose("options", [({}, {}), ({"xrange": (5, 30)}, {"normalize": False})])
    bas = it.LogYBSpline
    M = z.BSplinePrimaryBSplineRatio(3, 4, pe(S, x1), S.j(y1), pe(S, x2), S.j(y2), mmax=36, m1min=4, m2min=9, kwargs_m=dict(km), kwargs_q=dict(kq), basis=bas, degree=1)
    f1 = b.BSplineMass(3, pe(S, x1), S.j(y1), mmin=4, mmax=36, basis=bas, degree=1, **km)
    f2 = b.BSplineRatio(4, pe(S, x2), S.j(y2), qmin=0.25, basis=bas, degree=1, **kq)
    product(S, M, lambda M, f: M(c, d, pe_samples=f), f1, c, f2, d)
