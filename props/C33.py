"""C33: least-squares spline fit"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "all five one-dimensional spline classes; order k = 2, 3, 4 with 2..5 basis functions (thorough: 6), any ordinates in [-50, 50] and any coefficients in [-50, 50]; abscissae: several fixed layouts of 4..7 points (unsorted, repeated, for the linear classes also with points outside the domain; domain [-1, 3], log-abscissa [1, e^4]), and for k = 2 also any abscissae at least 0.05 apart on any domain in [-20, 20] at least 0.5 wide"
OUTSIDE = "more data points and basis functions; data that do not determine the coefficients (singular normal matrix); floating-point conditioning of the inverse"
ASSUMPTIONS = ["jnp.linalg.inv is executed as exact elimination"]
M = "gwinferno.interpolation"
CLS = ["BasisSpline", "BSpline", "LogXBSpline", "LogYBSpline", "LogXLogYBSpline"]
# (k, n, relative positions in the domain)
LAY = [
    (2, 3, [0.1, 0.45, 0.6, 0.9]),
    (2, 3, [0.9, 0.2, 0.2, 0.7, 0.55]),
    (3, 4, [0.75, 0.05, 0.35, 0.6, 0.95]),
    (3, 3, [0.3, 1.2, 0.7, 0.1, -0.2, 0.9]),
    (4, 5, [0.05, 0.3, 0.45, 0.62, 0.8, 0.97]),
    (4, 4, [0.85, 0.1, 0.4, 0.65]),
]


def check_fit(S, sp, xs, y):
    n, p = sp.N, len(y)
    xj, yj = S.j(xs), S.j(y)
    sx, sy = S.snapshot(xj), S.snapshot(yj)
    al, fit, dm = sp.get_coefficients(xj, yj)
    S.prove_same("abscissae unchanged", sx, xj)
    S.prove_same("ordinates unchanged", sy, yj)
    S.prove_true("one coefficient per basis function", S.shape(al) == (n,))
    S.prove_true("one fitted value per data point", S.shape(fit) == (p,))
    S.prove_true("one row per data point, one column per basis function", S.shape(dm) == (p, n))
    b = sp.bases(S.j(xs))
    a, f = S.elems(al), S.elems(fit)
    for j in range(p):
        t = 0
        for i in range(n):
            S.prove_eq("the design matrix holds the basis functions", S.at(dm, j, i), S.at(b, i, j))
            t = t + S.at(b, i, j) * a[i]
        S.prove_eq("fitted values are the spline with the returned coefficients", f[j], t)
    for i in range(n):
        t = 0
        for j in range(p):
            t = t + S.at(b, i, j) * (y[j] - f[j])
        S.prove_eq("residuals are orthogonal to every basis function", t, 0)


def layout(S, cls, lay, normalize=False):
    k, n, us = lay
    if "LogX" in cls:
        # powers of e, so that the logarithms of the abscissae are exact numbers
        a, b = S.num(1), S.exp(S.num(4))
        xs = [S.exp(S.num(round(4 * u, 6))) for u in us]
    else:
        a, b = S.num(-1), S.num(3)
        xs = [S.num(round(-1 + 4 * u, 6)) for u in us]
    if "LogY" in cls and (min(us) < 0 or max(us) > 1):
        S.skip()
    return getattr(S.module(M), cls)(n, xrange=(a, b), k=k, normalize=normalize), xs


@harness(weight=3)
def normal_equations(S):
    cls, lay = S.choose("class", CLS), S.choose("layout", LAY)
    sp, xs = layout(S, cls, lay)
    check_fit(S, sp, xs, S.reals("y", len(xs), -50, 50))


@harness(weight=2)
def recovers(S):
    """data that lie on a spline give back its coefficients"""
    cls, lay = S.choose("class", CLS), S.choose("layout", LAY)
    sp, xs = layout(S, cls, lay)
    n = sp.N
    c = S.reals("c", n, -50, 50)
    b = sp.bases(S.j(xs))
    y = []
    for j in range(len(xs)):
        t = 0
        for i in range(n):
            t = t + S.at(b, i, j) * c[i]
        y.append(t)
    al, fit, _ = sp.get_coefficients(S.j(xs), S.j(y))
    for u, v in zip(S.elems(al), c):
        S.prove_eq("coefficients recovered", u, v)
    for u, v in zip(S.elems(fit), y):
        S.prove_eq("data reproduced", u, v)


@harness(weight=2)
def any_abscissae(S):
    """straight-line and two-piece fits with any abscissae on any domain"""
    n = S.choose("n", [2, 3])
    cls = S.choose("class", ["BasisSpline", "BSpline"])
    a, w = S.real("a", -20, 20), S.real("w", 0.5, 20)
    sp = getattr(S.module(M), cls)(n, xrange=(a, a + w), k=2, normalize=False)
    us = S.reals("u", 3, 0.05, 0.95)
    if n == 2:
        S.assume(S.gt(us[1] - us[0], 0.05))
    else:
        S.assume(S.lt(us[0], 0.45), S.gt(us[1] - us[0], 0.05), S.lt(us[1], 0.5), S.gt(us[2], 0.55))
    check_fit(S, sp, [a + w * u for u in us], S.reals("y", 3, -50, 50))


@harness()
def normalised_same(S):
    """the fit does not depend on the normalisation flag or on earlier evaluations"""
    cls = S.choose("class", CLS)
    lay = S.choose("layout", [LAY[1], LAY[2]])
    sp, xs = layout(S, cls, lay)
    y = S.reals("y", len(xs), -50, 50)
    sq = layout(S, cls, lay, True)[0]
    r, fr, _ = [S.elems(t) for t in sp.get_coefficients(S.j(xs), S.j(y))]
    z = S.reals("z", len(xs), -50, 50)
    sq.get_coefficients(S.j(xs[::-1]), S.j(z))
    q, fq, _ = [S.elems(t) for t in sq.get_coefficients(S.j(xs), S.j(y))]
    for u, v in zip(q, r):
        S.prove_eq("same coefficients", u, v)
    for u, v in zip(fq, fr):
        S.prove_eq("same fitted values", u, v)
    o = S.elems(sp.get_coefficients(S.j(xs[::-1]), S.j(y[::-1]))[0])
    for u, v in zip(o, r):
        S.prove_eq("order of the data does not matter", u, v)


@harness(tier="thorough", time=400)
def larger(S):
    cls = S.choose("class", CLS)
    lay = S.choose("layout", [(4, 6, [0.02, 0.5, 0.2, 0.38, 0.61, 0.8, 0.98]), (3, 6, [0.07, 0.98, 0.3, 0.45, 0.62, 0.8, 0.2, 0.9])])
    sp, xs = layout(S, cls, lay)
    check_fit(S, sp, xs, S.reals("y", len(xs), -50, 50))
