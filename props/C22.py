"""C22: aligned-spin prior on effective spin"""
from .common import registry, s1

HARNESSES, harness = registry()
BOUNDS = "q in (0,1], a_max in (0,1] (and the default 1), chi_eff in [-2,2]; scalars; arrays of shape (2,), (2,2), broadcast (2,1)x(2,) with one element (position chosen symbolically) free and the others fixed"
OUTSIDE = "larger arrays (elementwise code)"
ASSUMPTIONS = ["the integral of a function that is linear between consecutive break points is the trapezoid sum over the break points"]
P = "gwinferno.preprocess.priors"


def _qa(S):
    return S.real("q", 0, 1, lo_open=True), S.real("a", 0, 1, lo_open=True)


def spec(S, x, q, a):
    flat = S.div(1 + q, 2 * a)
    side = S.div((1 + q) * (1 + q) * (a - S.abs(x)), 4 * q * a * a)
    return S.max(S.min(flat, side), 0)


@harness()
def pointwise(S):
    m = S.module(P)
    q, a = _qa(S)
    x = S.real("x", -2, 2)
    p = s1(S, m.chi_effective_prior_from_aligned_spins(x, q, a))
    r = s1(S, m.chi_effective_prior_from_aligned_spins(-x, q, a_max=a))
    S.prove_notnan("not NaN", p)
    S.prove_eq("even", p, r)
    S.prove_ge("non-negative", p, 0)
    if S.test_lt(a, S.abs(x)):
        S.prove_zero("zero beyond the maximum spin", p)
    S.prove_eq("trapezoid", p, spec(S, x, q, a))


@harness()
def default_amax(S):
    m = S.module(P)
    q = S.real("q", 0, 1, lo_open=True)
    x = S.real("x", -2, 2)
    p = s1(S, m.chi_effective_prior_from_aligned_spins(S.n([x]), S.n([q])))
    S.prove_eq("trapezoid, default maximum spin", p, spec(S, x, q, S.num(1)))


@harness()
def continuity(S):
    m = S.module(P)
    q, a = _qa(S)
    x = S.real("x", -2, 2)
    y = S.real("y", -2, 2)
    S.assume(S.lt(x, y))
    f = lambda t: s1(S, m.chi_effective_prior_from_aligned_spins(t, q, a))  # noqa
    L = S.div((1 + q) * (1 + q), 4 * q * a * a)
    d = f(y) - f(x)
    S.prove_le("Lipschitz, rising", d, L * (y - x))
    S.prove_ge("Lipschitz, falling", d, -L * (y - x))


@harness()
def integral(S):
    m = S.module(P)
    q, a = _qa(S)
    f = lambda t: s1(S, m.chi_effective_prior_from_aligned_spins(t, q, a))  # noqa
    b = S.div(a * (1 - q), 1 + q)
    if not S.sym:
        # the rounded break point may fall on either side; the density is continuous there
        pass
    pa, pb, pc, pd = f(-a), f(-b), f(b), f(a)
    S.prove_eq("integrates to one", (pa + pb) / 2 * (a - b) + (pb + pc) / 2 * (2 * b) + (pc + pd) / 2 * (a - b), 1)
    S.prove_eq("vanishes at the ends", pa + pd, 0)


@harness()
def linear_between_breaks(S):
    m = S.module(P)
    q, a = _qa(S)
    u = S.real("u", 0, 1)
    f = lambda t: s1(S, m.chi_effective_prior_from_aligned_spins(t, q, a))  # noqa
    b = S.div(a * (1 - q), 1 + q)
    nodes = [-a, -b, b, a]
    k = S.choose("piece", 3)
    lo, hi = nodes[k], nodes[k + 1]
    S.prove_eq("linear", f(lo + u * (hi - lo)), f(lo) + u * (f(hi) - f(lo)))


def _one_free(S, n):
    """n pairs (x, q): one position symbolic, the others fixed to values in different pieces"""
    e = S.choose("free position", n)
    fx = [S.num("-0.7"), S.num("0.1"), S.num("0.9"), S.num("-0.2")]
    fq = [S.num("0.6"), S.num("0.3"), S.num("0.8"), S.num("0.5")]
    x, q = S.real("x", -2, 2), S.real("q", 0, 1, lo_open=True)
    return [x if i == e else fx[i] for i in range(n)], [q if i == e else fq[i] for i in range(n)]


@harness()
def arrays(S):
    m = S.module(P)
    kind = S.choose("kind", 4)
    a = S.num("0.8")
    if kind == 1:
        x, q = _one_free(S, 4)
        shp, idx = (2, 2), lambda i: (i, i)
        X, G = S.n([x[:2], x[2:]]), S.n([q[:2], q[2:]])
    else:
        x, q = _one_free(S, 2)
        X, G = S.n(x), S.n(q)
        if kind == 0:
            shp, idx = (2,), lambda i: (i, i)
        elif kind == 2:
            shp, idx = (2, 2), lambda i: (i // 2, i % 2)
            X = S.n([[x[0]], [x[1]]])
        else:
            shp, idx = (2,), lambda i: (i, 0)
            G = q[0]
    x0 = S.snapshot(X)
    p = m.chi_effective_prior_from_aligned_spins(X, G, a)
    S.prove_true("shape", S.shape(p) == shp)
    S.prove_same("input untouched", X, x0)
    for i, v in enumerate(S.elems(p)):
        j, k = idx(i)
        S.prove_eq("element by element", v, spec(S, x[j], q[k], a))
