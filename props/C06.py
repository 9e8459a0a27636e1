"""C06: smoothing and truncation windows"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "argument in [-100, 250], minimum/cut in [-50, 100], width in (0, 50] (and width 0), scale in (0, 20], both signs; scalars and length-2 arrays"
OUTSIDE = "longer arrays (elementwise code); floating-point overflow of exp"
D = "gwinferno.distributions"


def _args(S):
    x = S.real("x", -100, 250)
    lo = S.real("xmin", -50, 100)
    dx = S.real("dx", 0, 50, lo_open=True)
    return x, lo, dx


@harness()
def smooth_values(S):
    m = S.module(D)
    x, lo, dx = _args(S)
    w = m.smooth(dx, x, lo)
    S.prove_notnan("not NaN", w)
    if S.test_lt(x, lo):
        S.prove_zero("0 below", w)
    elif S.test_le(lo + dx, x):
        S.prove_eq("1 above", w, 1)
    elif S.test_lt(lo, x):
        S.prove_gt("positive inside", w, 0)
        S.prove_lt("below one inside", w, 1)
        S.prove_eq("window formula", S.div(1, w) - 1, S.exp(S.div(dx, x - lo) + S.div(dx, x - lo - dx)))
    else:
        S.prove_eq("0 at the minimum", w, 0)


@harness()
def smooth_zero_width(S):
    m = S.module(D)
    x = S.real("x", -100, 250)
    lo = S.real("xmin", -50, 100)
    w = m.smooth(S.num(0), x, lo)
    if S.test_lt(x, lo):
        S.prove_zero("0 below", w)
    else:
        S.prove_eq("1 at or above", w, 1)


@harness()
def smooth_monotone(S):
    m = S.module(D)
    x, lo, dx = _args(S)
    S.assume(S.lt(lo, x), S.lt(x, lo + dx))
    d = S.derivative(lambda t: m.smooth(dx, t, lo), x)
    if d is None:
        S.skip()
    S.prove_ge("non-decreasing", d, 0)


@harness()
def smooth_array(S):
    m = S.module(D)
    xs = S.reals("x", 2, -100, 250)
    lo = S.real("xmin", -50, 100)
    dx = S.real("dx", 0, 50, lo_open=True)
    a = S.j(xs)
    s = S.snapshot(a)
    w = m.smooth(dx, a, lo)
    S.prove_same("argument unchanged", s, a)
    S.prove_true("shape", S.shape(w) == (2,))
    for x, v in zip(xs, S.elems(w)):
        S.prove_eq("elementwise", v, m.smooth(dx, x, lo))


@harness()
def logistic(S):
    m = S.module(D)
    x = S.real("x", -100, 250)
    x0 = S.real("x0", -50, 100)
    k = S.real("k", -20, 20)
    L = S.real("L", 0, 10, lo_open=True)
    if not S.sym:
        S.assume(S.lt(S.abs(k * (x - x0)), 30))
    f = m.logistic_function(x, L, k, x0)
    S.prove_eq("definition", f * (1 + S.exp(-k * (x - x0))), L)
    S.prove_gt("positive", f, 0)
    S.prove_lt("below L", f, L)
    S.prove_eq("half at the midpoint", m.logistic_function(x0, L, k, x0) * 2, L)


@harness()
def logistic_unit(S):
    m = S.module(D)
    sgn = S.choose("sgn", [1, -1])
    x = S.real("x", -100, 250)
    x0 = S.real("x0", -50, 100)
    sc = S.real("sc", 0, 20, lo_open=True)
    if not S.sym:
        S.assume(S.lt(S.abs(sc * (x - x0)), 30))
    f = m.logistic_unit(x, x0, sgn=sgn, sc=sc)
    S.prove_gt("positive", f, 0)
    S.prove_lt("below one", f, 1)
    S.prove_eq("definition", f * (1 + S.exp(sgn * sc * (x - x0))), 1)
    S.prove_eq("half at the cut", 2 * m.logistic_unit(x0, x0, sgn=sgn, sc=sc), 1)
    g = m.logistic_unit(x, x0, sgn=-sgn, sc=sc)
    S.prove_eq("the two sides sum to one", f + g, 1)
    d = S.derivative(lambda t: m.logistic_unit(t, x0, sgn=sgn, sc=sc), x)
    if d is not None:
        S.prove_le("monotone in the documented direction", sgn * d, 0)


@harness()
def logistic_unit_defaults(S):
    m = S.module(D)
    x = S.real("x", -100, 250)
    x0 = S.real("x0", -50, 100)
    if not S.sym:
        S.assume(S.lt(S.abs(x - x0), 8))
    S.prove_eq("right truncation by default", m.logistic_unit(x, x0) * (1 + S.exp(4 * (x - x0))), 1)
    S.prove_eq("log version", S.exp(S.elems(m.log_logistic_unit(x, x0))[0]), m.logistic_unit(x, x0))


@harness()
def log_logistic(S):
    m = S.module(D)
    sgn = S.choose("sgn", [1, -1])
    x = S.real("x", -100, 250)
    x0 = S.real("x0", -50, 100)
    sc = S.real("sc", 0, 20, lo_open=True)
    if not S.sym:
        S.assume(S.lt(S.abs(sc * (x - x0)), 30))
    l = m.log_logistic_unit(x, x0, sgn=sgn, sc=sc)
    f = m.logistic_unit(x, x0, sgn=sgn, sc=sc)
    S.prove_finite("finite", l)
    S.prove_eq("log of the linear version", S.exp(S.elems(l)[0]), f)


@harness()
def log_logistic_far(S):
    """far beyond the cut, where the linear version underflows, the log version is the asymptote -sc |x - x0| minus log(1 + exp(-sc |x - x0|));
    the witness runs replay it there"""
    m = S.module(D)
    sgn = S.choose("sgn", [1, -1])
    d = S.real("d", 200, 300)
    x0 = S.real("x0", -50, 100)
    l = S.elems(m.log_logistic_unit(x0 + sgn * d, x0, sgn=sgn, sc=5))[0]
    S.prove_finite("finite", l)
    S.prove_eq("close to the asymptote", S.exp(l + 5 * d) * (1 + S.exp(-5 * d)), 1)


@harness()
def log_logistic_array(S):
    m = S.module(D)
    sgn = S.choose("sgn", [1, -1])
    xs = S.reals("x", 2, -100, 250)
    x0 = S.real("x0", -50, 100)
    sc = S.real("sc", 0, 20, lo_open=True)
    if not S.sym:
        for x in xs:
            S.assume(S.lt(S.abs(sc * (x - x0)), 30))
    l = m.log_logistic_unit(S.j(xs), x0, sgn=sgn, sc=sc)
    for x, v in zip(xs, S.elems(l)):
        S.prove_eq("elementwise", v, m.log_logistic_unit(x, x0, sgn=sgn, sc=sc))


@harness()
def powerlaw_soft_cuts(S):
    m = S.module(D)
    lo_on = S.choose("low", [True, False])
    hi_on = S.choose("high", [True, False])
    x = S.real("x", 0, 250, lo_open=True)
    al = S.real("alpha", -10, 10)
    low = S.real("low", 0, 100)
    high = S.real("high", 0, 200)
    sl = S.real("scl", 0, 20, lo_open=True)
    sh = S.real("sch", 0, 20, lo_open=True)
    if not S.sym:
        S.assume(S.lt(S.abs(sl * (x - low)), 30), S.lt(S.abs(sh * (x - high)), 30))
    p = m.powerlaw_logit_pdf(x, al, low=low if lo_on else None, high=high if hi_on else None, low_fall_off=sl, high_fall_off=sh)
    e = p
    if lo_on:
        e = e * (1 + S.exp(-sl * (x - low)))
    if hi_on:
        e = e * (1 + S.exp(sh * (x - high)))
    S.prove_eq("power law times the requested windows", e, S.pow(x, al))


def _method(S):
    m = S.module("gwinferno.models.spline_perturbation")
    c = m.PowerlawBasisSplinePrimaryPowerlawRatio
    o = object.__new__(c)
    return lambda dx, x, lo: S.elems(o.smoothing(S.j([x]), lo, dx))[0]


@harness()
def model_window(S):
    """the turn-on window of the perturbed mass model"""
    win = _method(S)
    x, lo, dx = _args(S)
    w = win(dx, x, lo)
    S.prove_notnan("not NaN", w)
    if S.test_le(x, lo):
        S.prove_zero("0 up to the minimum", w)
    elif S.test_le(lo + dx, x):
        S.prove_eq("1 above", w, 1)
    else:
        S.prove_gt("positive inside", w, 0)
        S.prove_lt("below one inside", w, 1)
        S.prove_eq("window formula", S.div(1, w) - 1, S.exp(S.div(dx, x - lo) + S.div(dx, x - lo - dx)))


@harness()
def model_window_monotone(S):
    win = _method(S)
    x, lo, dx = _args(S)
    S.assume(S.lt(lo, x), S.lt(x, lo + dx))
    d = S.derivative(lambda t: win(dx, t, lo), x)
    if d is None:
        S.skip()
    S.prove_ge("non-decreasing", d, 0)


@harness()
def model_window_array(S):
    m = S.module("gwinferno.models.spline_perturbation")
    o = object.__new__(m.PowerlawBasisSplinePrimaryPowerlawRatio)
    win = _method(S)
    xs = S.reals("x", 2, -100, 250)
    lo = S.real("xmin", -50, 100)
    dx = S.real("dx", 0, 50, lo_open=True)
    a = S.j(xs)
    s = S.snapshot(a)
    w = o.smoothing(a, lo, dx)
    S.prove_same("argument unchanged", s, a)
    S.prove_true("shape", S.shape(w) == (2,))
    for x, v in zip(xs, S.elems(w)):
        S.prove_eq("elementwise", v, win(dx, x, lo))
