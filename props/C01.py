"""C01: spline bases"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "order k = 2, 3, 4 (5 and 6 on the domain [-1, 3]; thorough: 5 on any domain) with 1..3 knot intervals (thorough: 5), any domain end points in [-50, 50] at least 0.01 apart (log-abscissa: [0.01, 100], ratio at least 1.01), strictly increasing interior knots at least 0.001 apart, any evaluation point"
OUTSIDE = "k = 1 (its right end point is excluded by the half-open intervals), more knot intervals (each basis function reads only k+1 consecutive knots), knots closer than 1e-6"
ASSUMPTIONS = []
M = "gwinferno.interpolation"


def domain(S, lo=-50, hi=50):
    a, b = S.real("lo", lo, hi), S.real("hi", lo, hi)
    S.assume(S.gt(b - a, 0.01))
    return a, b


def point(S, kn, lo, hi, ends=()):
    x = S.real("x", lo, hi)
    if not S.sym:
        if x not in ends:
            for t in kn:
                S.assume(S.gt(S.abs(x - t), 1e-4))
    return x


def column(S, sp, x):
    """all basis functions at one point"""
    b = sp.bases(S.j([x]))
    S.prove_true("one row per basis function, one column per point", S.shape(b) == (sp.N, 1))
    return [S.at(b, i, 0) for i in range(sp.N)]


def knots_uniform(a, b, n, k):
    m = n - k + 1
    return [a + (b - a) * j / m for j in range(-(k - 1), m + k)]


def partition(S, sp, x, kn, k, n, a, b):
    col = column(S, sp, x)
    inside = S.test_le(a, x) and S.test_le(x, b)
    if not inside:
        for v in col:
            S.prove_zero("zero outside the domain", v)
        return
    t = 0
    for i, v in enumerate(col):
        S.prove_ge("non-negative", v, 0)
        t = t + v
        if S.test_lt(x, kn[i]) or S.test_lt(kn[i + k], x):
            S.prove_eq("zero outside its own knot span", v, 0)
    S.prove_eq("partition of unity", t, 1)


def _uniform(S, ks, extra):
    m = S.module(M)
    k = S.choose("k", ks)
    n = k + S.choose("extra", extra)
    a, b = domain(S)
    kn = knots_uniform(a, b, n, k)
    x = point(S, kn, -100, 100, (a, b))
    sp = m.BSpline(n, xrange=(a, b), k=k)
    got = S.elems(sp.knots)
    S.prove_true("number of knots", len(got) == n + k)
    for u, v in zip(got, kn):
        S.prove_eq("equally spaced knots through the domain", u, v)
    partition(S, sp, x, kn, k, n, a, b)


@harness(weight=3)
def uniform(S):
    _uniform(S, [2, 3], [0, 1, 2])


@harness(weight=3)
def uniform_cubic(S):
    _uniform(S, [4], [0, 1])


@harness(tier="thorough", time=600)
def uniform_quartic(S):
    _uniform(S, [4, 5], [2, 3])


@harness(weight=2)
def high_order(S):
    """orders five and six on a fixed domain"""
    m = S.module(M)
    k, n = S.choose("size", [(5, 5), (5, 6), (6, 6)])
    a, b = S.num(-1), S.num(3)
    kn = knots_uniform(a, b, n, k)
    x = point(S, kn, -100, 100, (a, b))
    sp = getattr(m, "BSpline")(n, xrange=(a, b), k=k)
    partition(S, sp, x, kn, k, n, a, b)
    bs = column(S, sp, x)
    ms = column(S, m.BasisSpline(n, xrange=(a, b), k=k, normalize=False), x)
    for i in range(n):
        S.prove_eq("M-spline = B-spline times order over span", ms[i] * (kn[i + k] - kn[i]), k * bs[i])


def _interior(S, k, m_int):
    m = S.module(M)
    a, b = domain(S)
    ts = [a] + S.reals("t", m_int - 1, -50, 50) + [b]
    for u, v in zip(ts, ts[1:]):
        S.assume(S.gt(v - u, 0.001))
        if not S.sym:
            S.assume(S.gt(v - u, 0.05))
    n = m_int + k - 1
    d0, d1 = ts[1] - ts[0], ts[-1] - ts[-2]
    kn = [a - d0 * j for j in range(k - 1, 0, -1)] + ts + [b + d1 * j for j in range(1, k)]
    x = point(S, kn, -100, 100, (a, b))
    sp = m.BSpline(n, interior_knots=S.n(ts), xrange=(a, b), k=k)
    partition(S, sp, x, kn, k, n, a, b)


@harness()
def interior_linear(S):
    _interior(S, 2, S.choose("intervals", [2, 3]))


@harness(weight=3)
def interior_quadratic(S):
    _interior(S, 3, 2)


@harness(weight=4)
def interior_cubic(S):
    _interior(S, 4, 2)


def _logx(S, cls, lin):
    m = S.module(M)
    k = S.choose("k", [2, 4])
    n = k + 1
    if cls == "LogXBSpline":
        a, b = S.real("lo", 0.01, 100), S.real("hi", 0.01, 100)
        S.assume(S.gt(b, a * S.num("1.01")))
    else:
        a, b = (2, 100)
    x = S.real("x", 0, 200, lo_open=True)
    la, lb, lx = S.log(a), S.log(b), S.log(x)
    if not S.sym:
        for t in knots_uniform(la, lb, n, k):
            S.assume(S.gt(S.abs(lx - t), 1e-4))
    sp = getattr(m, cls)(n, xrange=(a, b), k=k, normalize=False)
    got = sp.bases(S.j([x]))
    want = getattr(m, lin)(n, xrange=(la, lb), k=k, normalize=False).bases(S.j([lx]))
    S.prove_true("shape", S.shape(got) == (n, 1) and S.shape(want) == (n, 1))
    for i in range(n):
        S.prove_eq("the basis in log abscissa", S.at(got, i, 0), S.at(want, i, 0))


@harness()
def log_abscissa(S):
    _logx(S, "LogXBSpline", "BSpline")


@harness()
def log_abscissa_log_density(S):
    _logx(S, "LogXLogYBSpline", "LogYBSpline")


@harness()
def log_interior(S):
    m = S.module(M)
    k = 3
    cls, lin = S.choose("cls", [("LogXBSpline", "BSpline"), ("LogXLogYBSpline", "LogYBSpline")])
    if cls == "LogXBSpline":
        a, t, b = S.real("lo", 0.01, 100), S.real("t", 0.01, 100), S.real("hi", 0.01, 100)
        S.assume(S.gt(t, a * S.num("1.01")), S.gt(b, t * S.num("1.01")))
    else:
        a, t, b = 2, 9, 100
    x = S.real("x", 0, 200, lo_open=True)
    la, lt, lb, lx = S.log(a), S.log(t), S.log(b), S.log(x)
    if not S.sym:
        for u in (la, lt, lb):
            S.assume(S.gt(S.abs(lx - u), 1e-4))
    got = getattr(m, cls)(4, interior_knots=S.n([a, t, b]), xrange=(a, b), k=k, normalize=False).bases(S.j([x]))
    want = getattr(m, lin)(4, interior_knots=S.n([la, lt, lb]), xrange=(la, lb), k=k, normalize=False).bases(S.j([lx]))
    for i in range(4):
        S.prove_eq("the basis in log abscissa", S.at(got, i, 0), S.at(want, i, 0))


@harness()
def mspline(S):
    m = S.module(M)
    k = S.choose("k", [2, 3, 4])
    n = k + 1
    a, b = domain(S)
    kn = knots_uniform(a, b, n, k)
    x = point(S, kn, -100, 100)
    ms = column(S, m.BasisSpline(n, xrange=(a, b), k=k, normalize=False), x)
    bs = column(S, m.BSpline(n, xrange=(a, b), k=k, normalize=False), x)
    for i in range(n):
        S.prove_eq("M-spline = B-spline times order over span", ms[i] * (kn[i + k] - kn[i]), k * bs[i])


@harness()
def mspline_integral(S):
    """Simpson's rule is exact on each cubic piece: members supported inside the domain integrate to one"""
    m = S.module(M)
    k = S.choose("k", [2, 3, 4])
    n = 2 * k
    a, b = domain(S)
    kn = knots_uniform(a, b, n, k)[k - 1:n + 1]
    pts = []
    for u, v in zip(kn, kn[1:]):
        pts += [u, (u + v) / 2]
    pts.append(kn[-1])
    if not S.sym:
        pts = [p + 1e-9 * (b - a) for p in pts[:-1]] + [pts[-1]]
    B = m.BasisSpline(n, xrange=(a, b), k=k, normalize=False).bases(S.j(pts))
    h = (b - a) / (n - k + 1)
    for i in range(k - 1, n - k + 1):
        t = 0
        for j in range(len(kn) - 1):
            t = t + h * (S.at(B, i, 2 * j) + 4 * S.at(B, i, 2 * j + 1) + S.at(B, i, 2 * j + 2)) / 6
        S.prove_eq("integrates to one", t, 1)


@harness()
def arrays(S):
    """a two-dimensional array of points: every point gets its own column"""
    m = S.module(M)
    cls = S.choose("cls", ["BasisSpline", "BSpline"])
    n, k = 4, 3
    pos = S.choose("pos", 4)
    x = S.real("x", -1, 2)
    if not S.sym:
        S.assume(S.gt(S.abs(x), 1e-4), S.gt(S.abs(x - 0.5), 1e-4), S.gt(S.abs(x - 1), 1e-4))
    xs = [S.num(v) for v in ("0.2", "0.7", "1.5", "0.4")]
    xs[pos] = x
    sp = getattr(m, cls)(n, xrange=(0, 1), k=k, normalize=False)
    arr = S.j(xs).reshape(2, 2)
    snap = S.snapshot(arr)
    B = sp.bases(arr)
    S.prove_true("shape (N, *xs.shape)", S.shape(B) == (n, 2, 2))
    for e in range(4):
        one = sp.bases(S.j([xs[e]]))
        for i in range(n):
            S.prove_eq("own column", S.at(B, i, e // 2, e % 2), S.at(one, i, 0))
    S.prove_same("inputs unchanged", snap, arr)
