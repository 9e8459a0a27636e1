"""C09: three-piece power law"""
from .common import check_support, registry

HARNESSES, harness = registry()
BOUNDS = "0 < low < minimum < maximum < high <= 200; low and high side indices in (0, 20], middle index in [-10, 10], none of the three pieces with index exactly -1; scalar parameters"
OUTSIDE = "middle index -1 and high-side index -1 (excluded by the closed form itself); batched parameters"
ASSUMPTIONS = ["unit integral: the closed-form integrals k*(b^(1+a) - a^(1+a))/(1+a) of the three pieces add up to one"]
N = "gwinferno.numpyro_distributions"


def s1(S, x):
    return S.elems(x)[0]


def _mk(S):
    m = S.module(N)
    b = [S.real(n, 0, 200, lo_open=True) for n in ("low", "mmin", "mmax", "high")]
    for x, y in zip(b, b[1:]):
        S.assume(S.lt(x, y))
        if not S.sym:
            S.assume(S.lt(1.05 * x, y), S.lt(y, 10 * x))
    al = S.real("alpha", -10, 10)
    ah = S.real("alpha_max", 0, 20, lo_open=True)
    an = S.real("alpha_min", 0, 20, lo_open=True)
    S.assume(S.ne(al, -1), S.ne(ah, 1))
    if not S.sym:
        S.assume(S.gt(S.abs(al + 1), 0.05), S.gt(S.abs(ah - 1), 0.05), S.lt(ah, 6), S.lt(an, 6), S.lt(S.abs(al), 5))
    d = m.PowerlawSmoothedPowerlaw(al, b[1], b[2], ah, an, b[0], b[3])
    return d, b, al, ah, an


def _gap(S, a, lo, hi):
    """integral of t^a over [lo, hi], positive because t^a is"""
    v = S.div(S.pow(hi, a + 1) - S.pow(lo, a + 1), a + 1)
    return v


def _pos(S, a, lo, hi):
    """the closed-form integral of t^a over [lo, hi] is positive (decided for all lo < hi, a by piece_weight)"""
    g = _gap(S, a, lo, hi)
    S.lemma(S.gt(g, 0))
    return g


@harness()
def piece_weight(S):
    lo = S.real("lo", 0, 200, lo_open=True)
    hi = S.real("hi", 0, 200, lo_open=True)
    a = S.real("a", -20, 20)
    S.assume(S.lt(lo, hi), S.ne(a, -1))
    S.module(N)
    u = S.log(hi) - S.log(lo)
    S.prove_gt("log spacing", u, 0)
    r = S.exp((a + 1) * u)
    if S.test_lt(a, -1):
        S.prove_lt("decreasing power", r, 1)
    else:
        S.prove_gt("increasing power", r, 1)
    S.prove_eq("integral of a piece", _gap(S, a, lo, hi) * (a + 1), S.pow(lo, a + 1) * (r - 1))


@harness(weight=2)
def normalised(S):
    d, b, al, ah, an = _mk(S)
    lo, mn, mx, hi = b
    g1, g2, g3 = _pos(S, an, lo, mn), _pos(S, al, mn, mx), _pos(S, -ah, mx, hi)
    t1 = s1(S, d.log_prob(lo)) - an * S.log(lo)
    t2 = s1(S, d.log_prob(mn)) - al * S.log(mn)
    t3 = s1(S, d.log_prob(hi)) + ah * S.log(hi)
    I = S.exp(t1) * g1 + S.exp(t2) * g2 + S.exp(t3) * g3
    S.prove_eq("integrates to one", I, 1)


@harness(weight=2)
def slopes(S):
    """requested index on each piece, continuity at both breaks, finite density"""
    d, b, al, ah, an = _mk(S)
    lo, mn, mx, hi = b
    x = S.real("x", 0, 200, lo_open=True)
    S.assume(S.ge(x, lo), S.le(x, hi))
    for a, u, v in ((an, lo, mn), (al, mn, mx), (-ah, mx, hi)):
        _pos(S, a, u, v)
    p = s1(S, d.log_prob(x))
    S.prove_finite("positive density", p)
    pm, pM = s1(S, d.log_prob(mn)), s1(S, d.log_prob(mx))
    S.prove_eq("middle index", pM - pm, al * (S.log(mx) - S.log(mn)))
    if S.test_lt(x, mn):
        S.prove_eq("low index, continuous at the lower break", pm - p, an * (S.log(mn) - S.log(x)))
    elif S.test_le(x, mx):
        S.prove_eq("middle index", p - pm, al * (S.log(x) - S.log(mn)))
    else:
        S.prove_eq("high index, continuous at the upper break", p - pM, -ah * (S.log(x) - S.log(mx)))


@harness()
def support(S):
    d, b, *_ = _mk(S)
    check_support(S, d, b[0], b[3])
