"""C02: spline densities"""
from .common import registry, trap

HARNESSES, harness = registry()
BOUNDS = "order k = 2 and 4 with 3..5 basis functions, any domain end points in [-50, 50] at least 0.01 apart (log-abscissa: [2, 100] and symbolic knot positions), any coefficients in [-200, 200] (linear densities: in [0, 10] with a positive sum), normalisation grid of 4 nodes (thorough: 6) in place of the 1000 of the source, any evaluation point"
OUTSIDE = "the number of grid nodes of the source (linspace with at least 60 nodes is executed with 4), more basis functions; the second moment of the quadrature error, i.e. normalisation between grid nodes"
ASSUMPTIONS = []
M = "gwinferno.interpolation"
LIN = ["BasisSpline", "BSpline", "LogXBSpline"]
LOG = ["LogYBSpline", "LogXLogYBSpline"]


def domain(S, cls):
    if cls in ("LogXBSpline", "LogXLogYBSpline"):
        return S.num(2), S.num(100)
    a, b = S.real("lo", -50, 50), S.real("hi", -50, 50)
    S.assume(S.gt(b - a, 0.01))
    return a, b


def coefs(S, n, lin):
    if not lin:
        return S.reals("c", n, -200, 200)
    c = S.reals("c", n, 0, 10)
    t = 0
    for v in c:
        t = t + v
    S.assume(S.gt(t, 0))
    if not S.sym:
        S.assume(S.gt(t, 0.01))
    return c


def build(S, cls, n, k, normalize=True):
    a, b = domain(S, cls)
    return getattr(S.module(M), cls)(n, xrange=(a, b), k=k, normalize=normalize), a, b


def total(S, sp, c):
    g = S.elems(sp.grid)
    return g, trap(S.elems(sp(sp.grid, c)), g)


def _normalised(S, cls, n, k, lin, invariant=True):
    sp, a, b = build(S, cls, n, k)
    c = coefs(S, n, lin)
    cj = S.j(c)
    g, t = total(S, sp, cj)
    S.prove_true("a grid", len(g) > 1)
    S.prove_eq("the grid starts at the lower bound", g[0], a)
    S.prove_eq("the grid ends at the upper bound", g[-1], b)
    S.prove_eq("integrates to one on its own grid", t, 1)
    if not invariant:
        return
    if lin:
        s = S.real("s", 0, 10, lo_open=True)
        d = S.j([s * v for v in c])
    else:
        s = S.real("s", -10, 10)
        d = S.j([s + v for v in c])
    for u, v in zip(S.elems(sp(sp.grid, cj)), S.elems(sp(sp.grid, d))):
        S.prove_ge("non-negative", u, 0)
        S.prove_eq("unchanged by " + ("rescaling" if lin else "a constant shift") + " of the coefficients", u, v)


@harness(grid=3)
def normalised_mspline(S):
    _normalised(S, "BasisSpline", 4, S.choose("k", [2, 3]), True)


@harness()
def normalised_bspline(S):
    _normalised(S, "BSpline", 4, S.choose("k", [2, 4]), True)


@harness(grid=3)
def normalised_logx(S):
    _normalised(S, "LogXBSpline", 3, 2, True)


@harness()
def normalised_logy(S):
    _normalised(S, "LogYBSpline", 4, 2, False)


@harness(grid=3)
def normalised_logy_cubic(S):
    _normalised(S, "LogYBSpline", 4, 4, False)


@harness(grid=3)
def normalised_logxy(S):
    _normalised(S, "LogXLogYBSpline", 3, 2, False, False)


@harness(grid=2)
def invariant_logxy(S):
    _normalised(S, "LogXLogYBSpline", 3, 2, False)


@harness(grid=6, tier="thorough")
def normalised_logy_fine(S):
    _normalised(S, "LogYBSpline", 6, 4, False)


@harness(grid=6, tier="thorough")
def normalised_bspline_fine(S):
    _normalised(S, "BSpline", 6, 4, True)


def _pure(S, cls, n, k, lin):
    """calling, projecting and evaluating agree, twice, and leave the arguments alone"""
    sp, a, b = build(S, cls, n, k, S.choose("normalize", [True, False]))
    c = coefs(S, n, lin)
    x = S.real("x", 0, 1)
    if not S.sym:
        S.assume(S.gt(x, 0.01), S.lt(x, 0.99), S.gt(S.abs(x - 0.5), 0.01))
    xs = [a + (b - a) * x, a + (b - a) / 4]
    cj, xj = S.j(c), S.j(xs)
    c0, x0 = S.snapshot(cj), S.snapshot(xj)
    B = sp.bases(xj)
    b0 = S.snapshot(B)
    u = S.elems(sp(xj, cj))
    v = S.elems(sp.eval(xj, cj))
    w = S.elems(sp.project(B, cj))
    z = S.elems(sp(xj, cj))
    for i in range(2):
        S.prove_ge("non-negative", u[i], 0)
        S.prove_eq("eval is the call", u[i], v[i])
        S.prove_eq("projecting the design matrix is the call", u[i], w[i])
        S.prove_eq("a second call gives the same density", u[i], z[i])
        S.prove_eq("each point has its own density", u[i], S.elems(sp(S.j([xs[i]]), cj))[0])
    S.prove_same("coefficients unchanged", c0, cj)
    S.prove_same("points unchanged", x0, xj)
    S.prove_same("design matrix unchanged", b0, B)


@harness(grid=3)
def pure_mspline(S):
    _pure(S, "BasisSpline", 3, 2, True)


@harness(grid=3)
def pure_bspline(S):
    _pure(S, "BSpline", 3, 2, True)


@harness(grid=3)
def pure_logx(S):
    _pure(S, "LogXBSpline", 3, 2, True)


@harness(grid=3)
def pure_logy(S):
    _pure(S, "LogYBSpline", 3, 2, False)


@harness(grid=3)
def pure_logxy(S):
    _pure(S, "LogXLogYBSpline", 3, 2, False)


def _outside(S, cls, lin):
    sp, a, b = build(S, cls, 3, 2, S.choose("normalize", [True, False]))
    c = coefs(S, 3, lin)
    d = S.real("d", 0, 1, lo_open=True)
    if not S.sym:
        S.assume(S.gt(d, 0.01))
    x = [a - d, b + d][S.choose("side", 2)]
    u = S.elems(sp(S.j([x, (a + b) / 2]), S.j(c)))
    S.prove_zero("zero outside the domain", u[0])
    S.prove_finite("other points are not disturbed", u[1])
    S.prove_eq("other points keep their density", u[1], S.elems(sp(S.j([(a + b) / 2]), S.j(c)))[0])


@harness(grid=3)
def outside_linear(S):
    _outside(S, S.choose("cls", ["BasisSpline", "BSpline"]), True)


@harness(grid=3)
def outside_logx(S):
    _outside(S, "LogXBSpline", True)


@harness(grid=3)
def outside_logy(S):
    _outside(S, "LogYBSpline", False)


@harness(grid=3)
def outside_logxy(S):
    _outside(S, "LogXLogYBSpline", False)


@harness()
def linear_in_coefficients(S):
    """the unnormalised B-spline is linear in its coefficients, the log-density spline its exponential"""
    m = S.module(M)
    n, k = 4, 3
    c, e = S.reals("c", n, -5, 5), S.reals("e", n, -5, 5)
    x = S.real("x", 0, 1)
    if not S.sym:
        S.assume(S.gt(S.abs(x - 0.5), 1e-3), S.gt(x, 1e-3), S.lt(x, 0.999))
    lin, lg = m.BSpline(n, k=k, normalize=False), m.LogYBSpline(n, k=k, normalize=False)
    xs = S.j([x])
    B = [S.at(lin.bases(xs), i, 0) for i in range(n)]
    t = 0
    for i in range(n):
        t = t + B[i] * c[i]
    S.prove_eq("linear combination of the basis", S.elems(lin(xs, S.j(c)))[0], t)
    S.prove_eq("exponential of the linear combination", S.elems(lg(xs, S.j(c)))[0], S.exp(t))
    s = S.elems(lin(xs, S.j([u + v for u, v in zip(c, e)])))[0]
    S.prove_eq("linear", s, S.elems(lin(xs, S.j(c)))[0] + S.elems(lin(xs, S.j(e)))[0])
