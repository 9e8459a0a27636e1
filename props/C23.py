"""C23: isotropic-spin prior on effective spin"""
from .common import registry, s1

HARNESSES, harness = registry()
BOUNDS = "q in (0,1], a_max in (0,1] (and the default 1), chi_eff in [-2,2]; scalars, arrays of shape (2,), (2,2), broadcast (2,1)x(2,) with the mass ratios and all but one chi_eff fixed"
OUTSIDE = "larger arrays (elementwise code); rounding within 1e-9 of a case boundary"
ASSUMPTIONS = [
    "the dilogarithm enters linearly with real coefficients, so only its real part reaches the result; it is an uninterpreted real function with derivative -log|1-z|/z and the values at 0 and 1",
    "two solutions of the same second-order equation with equal value and slope at a point are equal",
]
P = "gwinferno.preprocess.priors"


def _qa(S):
    return S.real("q", 0, 1, lo_open=True), S.real("a", 0, 1, lo_open=True)


def H_inner(S, u, q, a):
    """u < a(1-q)"""
    d = S.abs(u - q * a)
    return 4 * q * a + 2 * q * a * S.log(a) + (u - q * a) * S.log(d) - (u + q * a) * S.log(u + q * a) + u * (S.li2(-S.div(q * a, u)) - S.li2(S.div(q * a, u)))


def H_outer(S, u, q, a):
    """u > a(1-q)"""
    La, Lq, Lu = S.log(a), S.log(q), S.log(u)
    l1, l2 = S.log(S.abs(u - a)), S.log(S.abs(u - q * a))
    return (
        2 * ((1 + q) * a - u)
        + (u - a) * (l1 - La - Lq)
        + (u - q * a) * (l2 - La)
        + u * (Lu - La) * (Lq + La - l1)
        + u * (S.li2(1 - S.div(a, u)) - S.li2(S.div(q * a, u)))
    )


def spec(S, x, q, a):
    """reference density away from the case boundaries"""
    x = S.abs(x)
    u = (1 + q) * x
    if S.test_le(a, x):
        return S.num(0)
    if S.test_eq(x, S.num(0)):
        return S.div((1 + q) * (2 - S.log(q)), 2 * a)
    k = S.div(1 + q, 4 * q * a * a)
    if S.test_lt(u, a * (1 - q)):
        return k * H_inner(S, u, q, a)
    return k * H_outer(S, u, q, a)


def clear(S, x, q, a):
    """off the case boundaries"""
    u = (1 + q) * S.abs(x)
    for b in (a * (1 - q), q * a, a):
        S.assume(S.ne(u, b))
        if not S.sym:
            S.assume(S.gt(S.abs(u - b), 1e-9))


@harness()
def pointwise(S):
    m = S.module(P)
    q, a = _qa(S)
    x = S.real("x", -2, 2)
    clear(S, x, q, a)
    p = s1(S, m.chi_effective_prior_from_isotropic_spins(x, q, a))
    S.prove_notnan("not NaN", p)
    if S.test_le(a, S.abs(x)):
        S.prove_zero("zero at and beyond the maximum spin", p)
    S.prove_eq("density", p, spec(S, x, q, a))


@harness()
def even(S):
    m = S.module(P)
    q, a = _qa(S)
    x = S.real("x", 0, 2)
    clear(S, x, q, a)
    S.prove_eq("even", s1(S, m.chi_effective_prior_from_isotropic_spins(x, q, a)), s1(S, m.chi_effective_prior_from_isotropic_spins(-x, q, a)))


@harness()
def scaling(S):
    m = S.module(P)
    q, a = _qa(S)
    y = S.real("y", 0, 2)
    clear(S, y, q, S.num(1))
    p = s1(S, m.chi_effective_prior_from_isotropic_spins(y * a, q, a_max=a))
    r = s1(S, m.chi_effective_prior_from_isotropic_spins(y, q))
    S.prove_eq("scales with the maximum spin", p * a, r)


@harness()
def spec_ode(S):
    """the reference pieces obey the equation of the convolution of two isotropic spins"""
    q, a = _qa(S)
    u = S.real("u", 0, 2, lo_open=True)
    S.assume(S.lt(u, (1 + q) * a), S.ne(u, a), S.ne(u, q * a), S.ne(u, a * (1 - q)))
    if not S.sym:
        S.skip()
    if S.test_lt(u, a * (1 - q)):
        H = lambda t: H_inner(S, t, q, a)  # noqa
        rhs = S.log(S.div(u + q * a, S.abs(u - q * a)))
    else:
        H = lambda t: H_outer(S, t, q, a)  # noqa
        rhs = S.log(S.div(q * a * a, S.abs(u - q * a) * S.abs(u - a)))
    d2 = S.derivative(lambda t: S.derivative(H, t), u)
    S.prove_eq("second derivative", d2 * u, rhs)


def dH_inner(S, u, q, a):
    return S.li2(-S.div(q * a, u)) - S.li2(S.div(q * a, u))


def dH_outer(S, u, q, a):
    return (S.log(u) - S.log(a)) * (S.log(q) + S.log(a) - S.log(S.abs(u - a))) + S.li2(1 - S.div(a, u)) - S.li2(S.div(q * a, u))


@harness()
def spec_slope(S):
    q, a = _qa(S)
    u = S.real("u", 0, 2, lo_open=True)
    S.assume(S.lt(u, (1 + q) * a), S.ne(u, a), S.ne(u, q * a), S.ne(u, a * (1 - q)))
    if not S.sym:
        S.skip()
    if S.test_lt(u, a * (1 - q)):
        S.prove_eq("slope", S.derivative(lambda t: H_inner(S, t, q, a), u), dH_inner(S, u, q, a))
    else:
        S.prove_eq("slope", S.derivative(lambda t: H_outer(S, t, q, a), u), dH_outer(S, u, q, a))


@harness()
def spec_ends(S):
    """the reference vanishes with its slope at the maximum, and its two forms match in value and slope at a(1-q)"""
    q, a = _qa(S)
    if not S.sym:
        S.skip()
    if S.choose("boundary", 2) == 0:
        S.prove_eq("value at the maximum", H_outer(S, (1 + q) * a, q, a), 0)
        S.prove_eq("slope at the maximum", dH_outer(S, (1 + q) * a, q, a), 0)
    else:
        S.assume(S.lt(q, 1), S.ne(q, S.div(S.num(1), S.num(2))))
        S.prove_eq("value at a(1-q)", H_outer(S, (1 - q) * a, q, a), H_inner(S, (1 - q) * a, q, a))
        S.prove_eq("slope at a(1-q)", dH_outer(S, (1 - q) * a, q, a), dH_inner(S, (1 - q) * a, q, a))


@harness()
def boundary(S):
    """exactly on a case boundary the value is the average of its neighbours"""
    m = S.module(P)
    q = S.real("q", "0.05", "0.95")
    a = S.choose("a", [S.num(1), S.num("0.5")])
    k = S.choose("boundary", 3)
    x = S.div([a * (1 - q), q * a, a][k], 1 + q)
    S.assume(S.gt(S.abs(2 * q - 1), S.num("0.01")))
    e = S.num("0.000001")
    f = lambda t: s1(S, m.chi_effective_prior_from_isotropic_spins(t, q, a))  # noqa
    p = f(x)
    S.prove_notnan("not NaN", p)
    if not S.sym:
        S.prove("close to its neighbours", S.lt(S.abs(p - (f(x + e) + f(x - e)) / 2), 1e-4))
    else:
        S.prove_eq("average", p, (f(x + e) + f(x - e)) / 2)


def _one_free(S, n):
    e = S.choose("free position", n)
    fx = [S.num("0.7"), S.num("-0.1"), S.num("0.9"), S.num("0.2")]
    fq = [S.num("0.6"), S.num("0.3"), S.num("0.8"), S.num("0.25")]  # the last pair lies on a boundary
    x = S.real("x", -2, 2)
    return [x if i == e else fx[i] for i in range(n)], fq[:n]


@harness()
def arrays(S):
    m = S.module(P)
    kind = S.choose("kind", 4)
    a = S.num(1)
    if kind == 1:
        x, q = _one_free(S, 4)
        shp, idx = (2, 2), lambda i: (i, i)
        X, G = S.n([x[:2], x[2:]]), S.n([q[:2], q[2:]])
    else:
        x, q = _one_free(S, 2)
        X, G = S.n(x), S.n(q)
        if kind == 0:
            shp, idx = (2,), lambda i: (i, i)
        elif kind == 2:
            shp, idx = (2, 2), lambda i: (i // 2, i % 2)
            X = S.n([[x[0]], [x[1]]])
        else:
            shp, idx = (2,), lambda i: (i, 0)
            G = q[0]
    for i in range(4 if kind in (1, 2) else 2):
        j, k = idx(i)
        if not (kind == 1 and i == 3):
            clear(S, x[j], q[k], a)
    x0 = S.snapshot(X)
    p = m.chi_effective_prior_from_isotropic_spins(X, G)
    S.prove_true("shape", S.shape(p) == shp)
    S.prove_same("input untouched", X, x0)
    for i, v in enumerate(S.elems(p)):
        j, k = idx(i)
        S.prove_eq("element by element", v, s1(S, m.chi_effective_prior_from_isotropic_spins(x[j], q[k])))
