"""C24: isotropic-spin prior on effective precession"""
from .common import registry, s1

HARNESSES, harness = registry()
BOUNDS = "q in (0,1], a_max in (0,1] (and the default 1), chi_p in [0,2]; scalars, arrays of shape (2,), (2,2), broadcast (2,1)x(2,) with one element free and the others fixed"
OUTSIDE = "negative chi_p (outside the physical range), larger arrays (elementwise code)"
ASSUMPTIONS = ["a function that is the derivative of a distribution function running continuously from 0 to 1 integrates to one (fundamental theorem of calculus)"]
P = "gwinferno.preprocess.priors"


def _qa(S):
    return S.real("q", 0, 1, lo_open=True), S.real("a", 0, 1, lo_open=True)


def cut(S, q):
    return S.div(q * (3 + 4 * q), 4 + 3 * q)


def F(S, x, s):
    """distribution function of the in-plane part of an isotropic spin with magnitude uniform on (0, s)"""
    return S.div(x * S.acos(S.div(x, s)) - S.sqrt(s * s - x * x) + s, s)


def spec(S, x, q, a):
    """derivative of F(x; a) F(x; cut a), written out"""
    w = cut(S, q) * a
    if S.test_le(a, x):
        return S.num(0)
    fa = S.div(S.acos(S.div(x, a)), a)
    if S.test_le(w, x):
        return fa
    fb = S.div(S.acos(S.div(x, w)), w)
    return fa * F(S, x, w) + fb * F(S, x, a)


@harness()
def spec_is_derivative(S):
    """the formula used below is the derivative of the product of distribution functions, which runs from 0 to 1"""
    q, a = _qa(S)
    w = cut(S, q) * a
    x = S.real("x", 0, 1, lo_open=True)
    S.assume(S.lt(x, a))
    S.prove_eq("F(0) = 0", F(S, S.num(0), a), 0)
    S.prove_eq("F(s) = 1", F(S, a, a), 1)
    if not S.sym:
        S.assume(S.gt(S.abs(x - w), w / 50), S.gt(a - x, a / 50))
    if S.test_lt(x, w):
        d = S.derivative(lambda t: F(S, t, a) * F(S, t, w), x)
    else:
        S.assume(S.gt(x, w))
        d = S.derivative(lambda t: F(S, t, a), x)
    if d is None:
        S.skip()
    S.prove_eq("derivative", spec(S, x, q, a), d)


@harness()
def pointwise(S):
    m = S.module(P)
    q, a = _qa(S)
    x = S.real("x", 0, 2)
    p = s1(S, m.chi_p_prior_from_isotropic_spins(x, q, a))
    S.prove_notnan("not NaN", p)
    S.prove_ge("non-negative", p, 0)
    if S.test_le(a, x):
        S.prove_zero("zero at and above the maximum", p)
    S.prove_eq("density", p, spec(S, x, q, a))


@harness()
def at_cut(S):
    """at the break the two pieces agree (continuity)"""
    m = S.module(P)
    q, a = _qa(S)
    S.assume(S.lt(q, 1))
    x = cut(S, q) * a
    if not S.sym:
        S.assume(S.lt(q, 0.9))
    p = s1(S, m.chi_p_prior_from_isotropic_spins(x, q, a_max=a))
    S.prove_eq("value at the break", p, S.div(S.acos(S.div(x, a)), a))
    S.prove_eq("left limit", S.div(S.acos(S.div(x, a)), a) * F(S, x, x), S.div(S.acos(S.div(x, a)), a))


def _one_free(S, n):
    e = S.choose("free position", n)
    fx = [S.num("0.7"), S.num("0.1"), S.num("0.9"), S.num("0.2")]
    fq = [S.num("0.6"), S.num("0.3"), S.num("0.8"), S.num("0.5")]
    x, q = S.real("x", 0, 2), S.real("q", 0, 1, lo_open=True)
    return [x if i == e else fx[i] for i in range(n)], [q if i == e else fq[i] for i in range(n)]


@harness()
def arrays(S):
    m = S.module(P)
    kind = S.choose("kind", 4)
    if kind == 1:
        x, q = _one_free(S, 4)
        shp, idx = (2, 2), lambda i: (i, i)
        X, G = S.n([x[:2], x[2:]]), S.n([q[:2], q[2:]])
    else:
        x, q = _one_free(S, 2)
        X, G = S.n(x), S.n(q)
        if kind == 0:
            shp, idx = (2,), lambda i: (i, i)
        elif kind == 2:
            shp, idx = (2, 2), lambda i: (i // 2, i % 2)
            X = S.n([[x[0]], [x[1]]])
        else:
            shp, idx = (2,), lambda i: (i, 0)
            G = q[0]
    x0 = S.snapshot(X)
    p = m.chi_p_prior_from_isotropic_spins(X, G)
    S.prove_true("shape", S.shape(p) == shp)
    S.prove_same("input untouched", X, x0)
    for i, v in enumerate(S.elems(p)):
        j, k = idx(i)
        S.prove_eq("element by element", v, spec(S, x[j], q[k], S.num(1)))
