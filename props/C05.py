"""C05: closed-form densities"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "bounds 0 < low < high <= 200, argument in (-250, 250) (power law and log-normal: positive arguments up to 250), index in [-10, 10], mu in [-50, 50], sigma in (0, 50], shape parameters in (0, 50], scale in (0, 10]; scalars and length-2 arrays"
OUTSIDE = "longer arrays (elementwise code); low = high; floating-point overflow"
ASSUMPTIONS = ["integral-one is decided as: the density is the derivative of a distribution function that is 0 at the lower and 1 at the upper bound (fundamental theorem of calculus); for the beta density as x^(a-1)(s-x)^(b-1) / (s^(a+b-1) B(a,b)) with B the beta function"]
D = "gwinferno.distributions"


def _bounds(S, hi=200):
    low = S.real("low", 0, hi, lo_open=True)
    high = S.real("high", 0, hi, lo_open=True)
    S.assume(S.lt(low, high))
    return low, high


@harness()
def powerlaw(S):
    m = S.module(D)
    low, high = _bounds(S)
    al = S.real("alpha", -10, 10)
    x = S.real("x", 0, 250, lo_open=True)
    p = m.powerlaw_pdf(x, al, low, high)
    S.prove_notnan("not NaN", p)
    if S.test_lt(x, low) or S.test_lt(high, x):
        S.prove_zero("zero outside", p)
        return
    S.prove_gt("positive inside", p, 0)
    if S.test_eq(al, -1):
        S.prove_eq("density, index -1", p * x * (S.log(high) - S.log(low)), 1)
    else:
        S.prove_eq("density", p * (S.pow(high, 1 + al) - S.pow(low, 1 + al)), (1 + al) * S.pow(x, al))


@harness()
def powerlaw_python_numbers(S):
    """parameters given as plain Python numbers"""
    m = S.module(D)
    al, low, high = S.choose("parameters", [(-1, 2, 10), (-1.0, 2.0, 10.0), (0, 2, 10), (-2.0, 2.0, 10.0), (3, 2.0, 10)])
    x = S.real("x", 0, 20, lo_open=True)
    if not S.sym:
        S.assume(S.gt(S.abs(x - 2), 1e-3), S.gt(S.abs(x - 10), 1e-3), S.gt(x, 0.01))
    p = S.elems(m.powerlaw_pdf(S.j([x]), al, low, high))[0]
    if S.test_lt(x, 2) or S.test_lt(10, x):
        S.prove_zero("zero outside", p)
    elif al == -1:
        S.prove_eq("density, index -1", p * x * (S.log(S.num(10)) - S.log(S.num(2))), 1)
    else:
        a = int(al)
        S.prove_eq("density", p * (S.pow(S.num(10), 1 + a) - S.pow(S.num(2), 1 + a)), (1 + a) * S.pow(x, a))


@harness()
def powerlaw_cdf(S):
    """density = d/dx of a CDF that is 0 at low and 1 at high"""
    m = S.module(D)
    low, high = _bounds(S)
    al = S.real("alpha", -10, 10)
    x = S.real("x", 0, 250, lo_open=True)
    S.assume(S.gt(x, low), S.lt(x, high))
    if S.test_eq(al, -1):
        F = lambda t: S.div(S.log(t) - S.log(low), S.log(high) - S.log(low))  # noqa
    else:
        F = lambda t: S.div(S.pow(t, 1 + al) - S.pow(low, 1 + al), S.pow(high, 1 + al) - S.pow(low, 1 + al))  # noqa
    S.prove_eq("CDF starts at 0", F(low), 0)
    S.prove_eq("CDF ends at 1", F(high), 1)
    d = S.derivative(F, x)
    if d is None:
        S.skip()
    S.prove_eq("density is the derivative", m.powerlaw_pdf(x, al, low, high), d)


@harness()
def powerlaw_array_floor(S):
    m = S.module(D)
    low, high = _bounds(S)
    al = S.real("alpha", -10, 10)
    fl = S.real("floor", 0, 1)
    xs = S.reals("x", 2, 0, 250, lo_open=True)
    a = S.j(xs)
    p = m.powerlaw_pdf(a, al, low, high, floor=fl)
    S.prove_true("shape", S.shape(p) == (2,))
    for x, v in zip(xs, S.elems(p)):
        if S.test_lt(x, low) or S.test_lt(high, x):
            S.prove_eq("floor outside", v, fl)
        elif S.test_eq(al, -1):
            S.prove_eq("density, index -1", v * x * (S.log(high) - S.log(low)), 1)
        else:
            S.prove_eq("density", v * (S.pow(high, 1 + al) - S.pow(low, 1 + al)), (1 + al) * S.pow(x, al))


@harness()
def truncnorm(S):
    m = S.module(D)
    low = S.real("low", -200, 200)
    high = S.real("high", -200, 200)
    S.assume(S.lt(low, high))
    mu = S.real("mu", -50, 50)
    sg = S.real("sigma", 0, 50, lo_open=True)
    x = S.real("x", -250, 250)
    # concrete replays: keep the window inside a few sigma so that the float erf difference is well conditioned
    if not S.sym:
        S.assume(S.lt(S.abs(low - mu), 4 * sg), S.lt(S.abs(high - mu), 4 * sg))
    p = m.truncnorm_pdf(x, mu, sg, low, high)
    S.prove_notnan("not NaN", p)
    if S.test_lt(x, low) or S.test_lt(high, x):
        S.prove_zero("zero outside", p)
        return
    S.prove_gt("positive inside", p, 0)
    Z = (S.erf(S.div(high - mu, sg * S.sqrt(S.num(2)))) - S.erf(S.div(low - mu, sg * S.sqrt(S.num(2))))) / 2
    S.prove_eq("density", p * sg * S.sqrt(2 * S.pi) * Z, S.exp(-S.div((x - mu) * (x - mu), 2 * sg * sg)))


@harness()
def truncnorm_cdf(S):
    m = S.module(D)
    low = S.real("low", -200, 200)
    high = S.real("high", -200, 200)
    mu = S.real("mu", -50, 50)
    sg = S.real("sigma", 0, 50, lo_open=True)
    x = S.real("x", -250, 250)
    S.assume(S.lt(low, x), S.lt(x, high))
    if not S.sym:
        S.assume(S.lt(S.abs(low - mu), 4 * sg), S.lt(S.abs(high - mu), 4 * sg))
    ph = lambda t: S.erf(S.div(t - mu, sg * S.sqrt(S.num(2))))  # noqa
    F = lambda t: S.div(ph(t) - ph(low), ph(high) - ph(low))  # noqa
    S.prove_eq("CDF starts at 0", F(low), 0)
    S.prove_eq("CDF ends at 1", F(high), 1)
    d = S.derivative(F, x)
    if d is None:
        S.skip()
    S.prove_eq("density is the derivative", m.truncnorm_pdf(x, mu, sg, low, high), d)


@harness()
def trunclognorm(S):
    m = S.module(D)
    low, high = _bounds(S)
    mu = S.real("mu", -10, 10)
    sg = S.real("sigma", 0, 10, lo_open=True)
    x = S.real("x", 0, 250, lo_open=True)
    if not S.sym:
        S.assume(S.lt(S.abs(S.log(low) - mu), 4 * sg), S.lt(S.abs(S.log(high) - mu), 4 * sg))
    p = m.truncnorm_pdf(x, mu, sg, low, high, log=True)
    S.prove_notnan("not NaN", p)
    if S.test_lt(x, low) or S.test_lt(high, x):
        S.prove_zero("zero outside", p)
        return
    S.prove_gt("positive inside", p, 0)
    ph = lambda t: S.erf(S.div(S.log(t) - mu, sg * S.sqrt(S.num(2))))  # noqa
    Z = (ph(high) - ph(low)) / 2
    S.prove_eq("density", p * x * sg * S.sqrt(2 * S.pi) * Z, S.exp(-S.div((S.log(x) - mu) * (S.log(x) - mu), 2 * sg * sg)))
    F = lambda t: S.div(ph(t) - ph(low), ph(high) - ph(low))  # noqa
    if S.test_lt(low, x) and S.test_lt(x, high):
        d = S.derivative(F, x)
        if d is not None:
            S.prove_eq("density is the derivative", p, d)


@harness()
def trunclognorm_nonpositive(S):
    """log-normal argument at or below zero is outside the support"""
    m = S.module(D)
    low, high = _bounds(S)
    mu = S.real("mu", -10, 10)
    sg = S.real("sigma", 0, 10, lo_open=True)
    x = S.real("x", -250, 0)
    S.prove_zero("zero", m.truncnorm_pdf(x, mu, sg, low, high, log=True))


@harness()
def powerlaw_nonpositive(S):
    m = S.module(D)
    low, high = _bounds(S)
    al = S.real("alpha", -10, 10)
    x = S.real("x", -250, 0)
    S.prove_zero("zero", m.powerlaw_pdf(x, al, low, high))


@harness()
def truncnorm_array(S):
    m = S.module(D)
    lg = S.choose("log", [False, True])
    low, high = _bounds(S)
    mu = S.real("mu", -10, 10)
    sg = S.real("sigma", 0, 10, lo_open=True)
    xs = S.reals("x", 2, 0, 250, lo_open=True)
    a = S.j(xs)
    s = S.snapshot(a)
    p = m.truncnorm_pdf(a, mu, sg, low, high, log=lg)
    S.prove_true("shape", S.shape(p) == (2,))
    S.prove_same("argument unchanged", s, a)
    for x, v in zip(xs, S.elems(p)):
        S.prove_eq("elementwise", v, m.truncnorm_pdf(x, mu, sg, low, high, log=lg))


def _beta_args(S):
    al = S.real("alpha", 0, 50, lo_open=True)
    be = S.real("beta", 0, 50, lo_open=True)
    sc = S.real("scale", 0, 10, lo_open=True)
    return al, be, sc


@harness()
def beta_inside(S):
    m = S.module(D)
    al, be, sc = _beta_args(S)
    x = S.real("x", 0, 10, lo_open=True)
    S.assume(S.lt(x, sc))
    p = m.betadist(x, al, be, scale=sc)
    B = S.lgamma(al) + S.lgamma(be) - S.lgamma(al + be)
    S.prove_gt("positive", p, 0)
    S.prove_eq("density", S.log(p), (al - 1) * S.log(x) + (be - 1) * S.log(sc - x) - (al + be - 1) * S.log(sc) - B)


@harness()
def beta_outside_edges(S):
    m = S.module(D)
    al, be, sc = _beta_args(S)
    fl = S.real("floor", 0, 1)
    x = S.real("x", -250, 250)
    if S.test_lt(x, 0) or S.test_lt(sc, x):
        S.prove_eq("floor outside", m.betadist(x, al, be, scale=sc, floor=fl), fl)
        S.prove_zero("zero outside", m.betadist(x, al, be, scale=sc))
        return
    p = m.betadist(x, al, be, scale=sc, floor=fl)
    S.prove_notnan("not NaN", p)
    at0, at1 = S.test_eq(x, 0), S.test_eq(x, sc)
    if not (at0 or at1):
        return
    # the end points belong to the support: the density is its limit there
    sh = al if at0 else be
    if S.test_lt(1, sh):
        S.prove_eq("limit at the edge, shape above one", p, 0)
    elif S.test_eq(sh, 1):
        S.prove_eq("limit at the edge, unit shape", p * sc, be if at0 else al)
    else:
        S.prove_true("limit at the edge, shape below one", S.isinf(S.elems(p)[0]))


@harness()
def beta_array(S):
    m = S.module(D)
    al, be, sc = _beta_args(S)
    xs = S.reals("x", 2, -20, 20)
    a = S.n(xs)
    s = S.snapshot(a)
    p = m.betadist(a, al, be, scale=sc)
    S.prove_same("argument unchanged", s, a)
    for x, v in zip(xs, S.elems(p)):
        S.prove_eq("elementwise", v, m.betadist(x, al, be, scale=sc))


@harness()
def beta_unscaled(S):
    m = S.module(D)
    al, be, _ = _beta_args(S)
    x = S.real("x", 0, 1, lo_open=True, hi_open=True)
    p = m.betadist(x, al, be)
    B = S.lgamma(al) + S.lgamma(be) - S.lgamma(al + be)
    S.prove_eq("density on the unit interval", S.log(p), (al - 1) * S.log(x) + (be - 1) * S.log(1 - x) - B)


# ------------------------------------------------- one normalisation constant per parameter set, for any input
@harness()
def ratio_of_densities(S):
    """the density at two points has the documented ratio (independent of the form of the normalisation)"""
    m = S.module(D)
    low, high = _bounds(S)
    al = S.real("alpha", -10, 10)
    x = S.real("x", 0, 250, lo_open=True)
    y = S.real("y", 0, 250, lo_open=True)
    S.assume(S.ge(x, low), S.le(x, high), S.ge(y, low), S.le(y, high))
    S.prove_eq("ratio", m.powerlaw_pdf(x, al, low, high) * S.pow(y, al), m.powerlaw_pdf(y, al, low, high) * S.pow(x, al))
