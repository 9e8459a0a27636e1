"""C03: natural cubic spline"""
from .common import Q, registry

HARNESSES, harness = registry()
BOUNDS = "4 data points (thorough: 5) with strictly increasing abscissae in [-50, 50] at least 0.01 apart, ordinates in [-50, 50], any evaluation point (inside, on a knot, or beyond the ends)"
OUTSIDE = "more data points; floating-point conditioning of the linear solve"
ASSUMPTIONS = ["jnp.linalg.solve is executed as exact elimination"]
M = "gwinferno.interpolation"
C = "NaturalCubicUnivariateSpline"


def knots(S, n):
    """strictly increasing abscissae: x0 and positive steps"""
    x = [S.real("x0", -50, 50)]
    for i in range(1, n):
        h = S.real(f"h{i}", 0.01, 10)
        if not S.sym:
            S.assume(S.gt(h, 0.2))
        x.append(x[-1] + h)
    return x


def data(S, n, pre="y"):
    return S.reals(pre, n, -50, 50)


def _interpolates(S, n):
    m = S.module(M)
    x, y = knots(S, n), data(S, n)
    xj, yj = S.j(x), S.j(y)
    sx, sy = S.snapshot(xj), S.snapshot(yj)
    f = getattr(m, C)(xj, yj)
    v = S.elems(f(xj))
    S.prove_true("one value per point", len(v) == n)
    for i in range(n):
        S.prove_eq("passes through every data point", v[i], y[i])
    S.prove_same("abscissae unchanged", sx, xj)
    S.prove_same("ordinates unchanged", sy, yj)


@harness()
def interpolates(S):
    _interpolates(S, 4)


@harness(tier="thorough")
def interpolates5(S):
    _interpolates(S, 5)


def _piece(S, f, lo, hi, side):
    """value, first and second derivative of the cubic piece on (lo, hi) extrapolated to one of its ends"""
    d = hi - lo
    p = [lo + d * c / 5 for c in (1, 2, 3, 4)]
    v = S.elems(f(S.j(p)))
    # Newton form with nodes 1..4 in units of d/5
    c0, c1 = v[0], v[1] - v[0]
    c2 = (v[2] - 2 * v[1] + v[0]) / 2
    c3 = (v[3] - 3 * v[2] + 3 * v[1] - v[0]) / 6
    u = 0 if side == 0 else 5
    a, b, g = u - 1, u - 2, u - 3
    val = c0 + c1 * a + c2 * a * b + c3 * a * b * g
    d1 = c1 + c2 * (a + b) + c3 * (a * b + a * g + b * g)
    d2 = 2 * c2 + c3 * 2 * (a + b + g)
    return val, d1 * 5 / d, d2 * 25 / (d * d)


def _smooth(S, n):
    m = S.module(M)
    x, y = knots(S, n), data(S, n)
    f = getattr(m, C)(S.j(x), S.j(y))
    ends = [(_piece(S, f, x[i], x[i + 1], 0), _piece(S, f, x[i], x[i + 1], 1)) for i in range(n - 1)]
    S.prove_eq("natural at the first knot", ends[0][0][2], 0)
    S.prove_eq("natural at the last knot", ends[-1][1][2], 0)
    for i in range(n - 1):
        S.prove_eq("each piece starts at its data point", ends[i][0][0], y[i])
        S.prove_eq("each piece ends at its data point", ends[i][1][0], y[i + 1])
    for i in range(n - 2):
        S.prove_eq("continuous first derivative", ends[i][1][1], ends[i + 1][0][1])
        S.prove_eq("continuous second derivative", ends[i][1][2], ends[i + 1][0][2])


@harness(weight=2)
def smooth(S):
    _smooth(S, 4)


@harness(tier="thorough", time=400)
def smooth5(S):
    _smooth(S, 5)


@harness()
def cubic_pieces(S):
    """on each interval the spline is one cubic: five equally spaced values have vanishing fourth difference; beyond the ends the end pieces continue"""
    m = S.module(M)
    x, y = knots(S, 4), data(S, 4)
    f = getattr(m, C)(S.j(x), S.j(y))
    i = S.choose("interval", 3)
    d = x[i + 1] - x[i]
    us = S.choose("points", [(1, 2, 3, 4, 5), (0, 1, 2, 3, 4), (-3, -2, -1, 1, 2), (4, 5, 7, 8, 9)])
    if (us[0] < 0 and i > 0) or (us[-1] > 6 and i < 2):
        S.skip()
    v = S.elems(f(S.j([x[i] + d * u / 6 for u in us])))
    t = 0
    for a in range(5):
        w = Q(1)
        for b in range(5):
            if b != a:
                w = w / (us[a] - us[b])
        t = t + v[a] * S.num(w)
    S.prove_eq("one cubic per interval", t, 0)


@harness()
def lines(S):
    m = S.module(M)
    x = knots(S, 4)
    a, b = S.real("a", -10, 10), S.real("b", -10, 10)
    f = getattr(m, C)(S.j(x), S.j([a + b * t for t in x]))
    p = S.real("p", -100, 100)
    S.prove_eq("straight lines are reproduced", S.elems(f(S.j([p])))[0], a + b * p)


@harness()
def linear(S):
    m = S.module(M)
    x, y, w = knots(S, 4), data(S, 4), data(S, 4, "w")
    k = S.real("k", -5, 5)
    p = S.real("p", -100, 100)
    if not S.sym:
        for t in x:
            S.assume(S.gt(S.abs(p - t), 1e-3))
        S.assume(S.gt(p, x[0] - 5), S.lt(p, x[-1] + 5))
    F = getattr(m, C)

    def g(d):
        return S.elems(F(S.j(x), S.j(d))(S.j([p])))[0]

    S.prove_eq("linear in the data", g([u + k * v for u, v in zip(y, w)]), g(y) + k * g(w))


@harness()
def rebuilt(S):
    m = S.module(M)
    x, y = knots(S, 4), data(S, 4)
    p = S.real("p", -100, 100)
    if not S.sym:
        S.assume(S.gt(p, x[0] - 5), S.lt(p, x[-1] + 5))
    f = getattr(m, C)(S.j(x), S.j(y))
    ch, aux = f.tree_flatten()
    g = getattr(m, C).tree_unflatten(aux, ch)
    v = S.elems(f(S.j([p])))[0]
    S.prove_eq("rebuilt from its leaves", S.elems(g(S.j([p])))[0], v)
    ch2, aux2 = g.tree_flatten()
    S.prove_true("same leaves", len(ch) == len(ch2))
    for a, b in zip(ch, ch2):
        for u, w in zip(S.elems(a), S.elems(b)):
            S.prove_eq("same leaves", u, w)


@harness()
def arrays(S):
    """points in any order and shape get their own value"""
    m = S.module(M)
    x = [S.num(v) for v in (0, 1, 3, 4)]
    y = data(S, 4)
    f = getattr(m, C)(S.j(x), S.j(y))
    pos = S.choose("pos", 4)
    p = S.real("p", -1, 5)
    if not S.sym:
        for t in x:
            S.assume(S.gt(S.abs(p - t), 1e-3))
    ps = [S.num(v) for v in ("3.5", "0.5", "2", "3")]
    ps[pos] = p
    v = f(S.j(ps).reshape(2, 2))
    S.prove_true("shape", S.shape(v) == (2, 2))
    for e in range(4):
        S.prove_eq("own value", S.at(v, e // 2, e % 2), S.elems(f(S.j([ps[e]])))[0])


@harness()
def refused(S):
    m = S.module(M)
    F = getattr(m, C)
    y = data(S, 4)
    S.raises("different lengths are refused", lambda: F(S.j([S.num(v) for v in (0, 1, 2, 3, 4)]), S.j(y)), AssertionError)
    S.raises("too few points are refused", lambda: F(S.j([S.num(v) for v in (0, 1, 2)]), S.j(y[:3])), AssertionError)
