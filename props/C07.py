"""C07: Sine, Cosine, Powerlaw distributions"""
from .common import check_support, registry

HARNESSES, harness = registry()
BOUNDS = "sine bounds in [0, pi], cosine bounds in [-pi/2, pi/2], power law 0 < minimum < maximum <= 100 (also minimum 0 with index > -1), index in [-10, 10], value in the bounds or outside, quantile in [0, 1]; scalar parameters, scalar and length-2 values"
OUTSIDE = "batched parameters; sine/cosine bounds outside the principal branch; negative values for the power law"
ASSUMPTIONS = ["the uniform generator is a stand-in that returns symbolic variates in [0, 1) of the shape it was asked for"]
N = "gwinferno.numpyro_distributions"


def s1(S, x):
    return S.elems(x)[0]


def _trig(S, kind):
    m = S.module(N)
    if kind == "sine":
        lo, hi = S.real("u0", 0, 1), S.real("u1", 0, 1)
        S.assume(S.lt(lo, hi))
        a, b = lo * S.pi, hi * S.pi
        return m.Sine, a, b, S.sin, lambda t: -S.cos(t)
    lo, hi = S.real("u0", -1, 1), S.real("u1", -1, 1)
    S.assume(S.lt(lo, hi))
    a, b = lo * S.pi / 2, hi * S.pi / 2
    return m.Cosine, a, b, S.cos, S.sin


def _trig_cdf(S, kind):
    C, a, b, f, F = _trig(S, kind)
    u = S.real("u", -2, 2)
    x = u * S.pi
    d = C(minimum=a, maximum=b)
    c = s1(S, d.cdf(x))
    if S.test_lt(x, a):
        S.prove_eq("clamped below", c, 0)
    elif S.test_lt(b, x):
        S.prove_eq("clamped above", c, 1)
    else:
        S.prove_eq("cdf", c * (F(b) - F(a)), F(x) - F(a))
        S.prove_ge("cdf non-negative", c, 0)
        S.prove_le("cdf at most one", c, 1)
    S.prove_eq("cdf at minimum", s1(S, d.cdf(a)), 0)
    S.prove_eq("cdf at maximum", s1(S, d.cdf(b)), 1)


def _trig_pdf(S, kind):
    C, a, b, f, F = _trig(S, kind)
    u = S.real("u", -1, 1)
    x = u * S.pi
    S.assume(S.lt(a, x), S.lt(x, b))
    d = C(minimum=a, maximum=b)
    p = S.exp(s1(S, d.log_prob(x)))
    S.prove_eq("density", p * (F(b) - F(a)), f(x))
    g = S.derivative(lambda t: s1(S, d.cdf(t * S.pi)), u)
    if g is not None:
        S.prove_eq("density is the derivative of the cdf", p * S.pi, g)


def _trig_pdf_out(S, kind):
    C, a, b, f, F = _trig(S, kind)
    u = S.real("u", -2, 2)
    x = u * S.pi
    if not (S.test_lt(x, a) or S.test_lt(b, x)):
        S.skip()
    d = C(minimum=a, maximum=b)
    S.prove_true("no density outside the bounds", S.isinf(s1(S, d.log_prob(x))))


def _trig_icdf(S, kind):
    C, a, b, f, F = _trig(S, kind)
    q = S.real("q", 0, 1)
    d = C(minimum=a, maximum=b)
    x = s1(S, d.icdf(q))
    # strictly monotone F on the branch: x is the inverse iff it lies in the branch and F(x) hits the quantile
    S.prove_eq("F(icdf(q)) hits the quantile", F(x) - F(a), q * (F(b) - F(a)))
    if kind == "sine":
        S.prove_ge("on the branch", x, 0)
        S.prove_le("on the branch", x, S.pi)
    else:
        S.prove_ge("on the branch", x, -S.pi / 2)
        S.prove_le("on the branch", x, S.pi / 2)
    S.prove_ge("icdf above minimum", F(x), F(a))
    S.prove_le("icdf below maximum", F(x), F(b))
    S.prove_eq("icdf(0)", F(s1(S, d.icdf(S.num(0)))), F(a))
    S.prove_eq("icdf(1)", F(s1(S, d.icdf(S.num(1)))), F(b))


def _trig_round(S, kind):
    C, a, b, f, F = _trig(S, kind)
    u = S.real("u", -1, 1)
    x = u * S.pi
    S.assume(S.le(a, x), S.le(x, b))
    d = C(minimum=a, maximum=b)
    y = s1(S, d.icdf(s1(S, d.cdf(x))))
    S.prove_eq("icdf inverts cdf", F(y), F(x))


for _k in ("sine", "cosine"):
    for _f in (_trig_cdf, _trig_pdf, _trig_pdf_out, _trig_icdf, _trig_round):
        harness(name=_k + _f.__name__[5:])(lambda S, _f=_f, _k=_k: _f(S, _k))


@harness()
def trig_defaults(S):
    m = S.module(N)
    kind = S.choose("kind", ["Sine", "Cosine"])
    u = S.real("u", 0, 1, lo_open=True, hi_open=True)
    d = getattr(m, kind)()
    if kind == "Sine":
        x = u * S.pi
        S.prove_eq("density", 2 * S.exp(s1(S, d.log_prob(x))), S.sin(x))
        S.prove_eq("cdf", 2 * s1(S, d.cdf(x)), 1 - S.cos(x))
    else:
        x = u * S.pi - S.pi / 2
        S.prove_eq("density", 2 * S.exp(s1(S, d.log_prob(x))), S.cos(x))
        S.prove_eq("cdf", 2 * s1(S, d.cdf(x)), 1 + S.sin(x))


def _pl(S, zero_min=False):
    m = S.module(N)
    lo = S.num(0) if zero_min else S.real("lo", 0, 100, lo_open=True)
    hi = S.real("hi", 0, 100, lo_open=True)
    S.assume(S.lt(lo, hi))
    if not S.sym and not zero_min:
        S.assume(S.lt(hi, 30 * lo), S.gt(hi, 1.1 * lo))
    al = S.real("alpha", -1 if zero_min else -10, 10, lo_open=zero_min)
    if not S.sym:
        S.assume(S.Or(S.eq(al, -1), S.gt(S.abs(al + 1), 0.01)))
    return m.Powerlaw(al, minimum=lo, maximum=hi, low=0.0, high=100.0), al, lo, hi


def _plF(S, al, lo, hi):
    if S.test_eq(al, -1):
        return lambda t: S.div(S.log(t) - S.log(lo), S.log(hi) - S.log(lo))
    return lambda t: S.div(S.pow(t, al + 1) - S.pow(lo, al + 1), S.pow(hi, al + 1) - S.pow(lo, al + 1))


@harness()
def powerlaw_cdf(S):
    d, al, lo, hi = _pl(S)
    x = S.real("x", 0, 200, lo_open=True)
    f = _plF(S, al, lo, hi)(x)
    below, above = S.test_le(x, lo), S.test_le(hi, x)
    if below:
        S.lemma(S.le(f, 0))
    elif above:
        S.lemma(S.ge(f, 1))
    else:
        S.lemma(S.ge(f, 0))
        S.lemma(S.le(f, 1))
    c = s1(S, d.cdf(x))
    if below:
        S.prove_eq("clamped below", c, 0)
    elif above:
        S.prove_eq("clamped above", c, 1)
    else:
        S.prove_eq("cdf", c, f)
        S.prove_ge("cdf non-negative", c, 0)
        S.prove_le("cdf at most one", c, 1)


@harness()
def powerlaw_pdf(S):
    d, al, lo, hi = _pl(S)
    x = S.real("x", 0, 200, lo_open=True)
    lp = s1(S, d.log_prob(x))
    S.prove_notnan("not NaN", lp)
    if S.test_lt(x, lo) or S.test_lt(hi, x):
        S.prove_lt("no density outside", lp, -1000000)
        return
    if S.test_lt(lo, x) and S.test_lt(x, hi):
        g = S.derivative(_plF(S, al, lo, hi), x)
        if g is not None:
            S.prove_eq("density is the derivative of the cdf", S.exp(lp), g)
    elif S.test_eq(al, -1):
        S.prove_eq("density at the bounds", S.exp(lp) * x * (S.log(hi) - S.log(lo)), 1)
    else:
        S.prove_eq("density at the bounds", S.exp(lp) * (S.pow(hi, al + 1) - S.pow(lo, al + 1)), (al + 1) * S.pow(x, al))


@harness()
def powerlaw_icdf(S):
    d, al, lo, hi = _pl(S)
    q = S.real("q", 0, 1)
    x = s1(S, d.icdf(q))
    S.prove_gt("positive", x, 0)
    F = _plF(S, al, lo, hi)
    S.prove_eq("cdf inverts icdf", F(x), q)
    S.prove_eq("icdf(0)", s1(S, d.icdf(S.num(0))), lo)
    S.prove_eq("icdf(1)", s1(S, d.icdf(S.num(1))), hi)


@harness()
def powerlaw_round(S):
    d, al, lo, hi = _pl(S)
    x = S.real("x", 0, 200, lo_open=True)
    S.assume(S.le(lo, x), S.le(x, hi))
    S.prove_eq("icdf inverts cdf", s1(S, d.icdf(s1(S, d.cdf(x)))), x)


@harness()
def powerlaw_zero_minimum(S):
    d, al, lo, hi = _pl(S, True)
    x = S.real("x", 0, 200, lo_open=True)
    S.assume(S.le(x, hi))
    S.prove_eq("density", S.exp(s1(S, d.log_prob(x))) * S.pow(hi, al + 1), (al + 1) * S.pow(x, al))
    S.prove_eq("cdf", s1(S, d.cdf(x)) * S.pow(hi, al + 1), S.pow(x, al + 1))
    q = S.real("q", 0, 1, lo_open=True)
    S.prove_eq("icdf", S.pow(s1(S, d.icdf(q)), al + 1), q * S.pow(hi, al + 1))


@harness()
def sampling(S):
    """sampling = inverse CDF of a uniform variate of the requested shape"""
    kind = S.choose("kind", ["Sine", "Cosine", "Powerlaw"])
    m = S.module(N)
    us = S.reals("v", 2, 0, 1, hi_open=True)
    if kind == "Powerlaw":
        al = S.real("alpha", -10, 10)
        S.assume(S.ne(al, -1))
        if not S.sym:
            S.assume(S.gt(S.abs(al + 1), 0.01))
        d = m.Powerlaw(al, minimum=S.num(1), maximum=S.num(3), low=0.0, high=100.0)
    else:
        d = getattr(m, kind)()
    asked = []

    if S.sym:

        def rng(name, args, kw):
            shape = kw.get("shape", args[1] if len(args) > 1 else ())
            asked.append((name.replace("jax.", ""), tuple(int(v) for v in shape)))
            return S.j(us)

        S.set_rng(rng)
        x = d.sample(S.module(N).random.PRNGKey(0), sample_shape=(2,))
    else:
        import jax
        import numpy as np

        jnp = S.module_jnp()

        def uni(key, shape=(), *a, **k):
            asked.append(("uniform", tuple(shape)))
            return jnp.array(np.array(us, dtype=float))

        S.patch(jax.random, "uniform", uni)
        x = d.sample(jax.random.PRNGKey(0), sample_shape=(2,))
    S.prove_true("one uniform draw of the requested shape", asked == [("uniform", (2,))])
    for u, v in zip(us, S.elems(x)):
        S.prove_eq("inverse cdf of the variate", v, s1(S, d.icdf(u)))


@harness()
def support(S):
    """samplers reparametrise through the declared support: it must be the stated bounds"""
    m = S.module(N)
    lo, hi = S.real("lo", -1, 1), S.real("hi", -1, 1)
    S.assume(S.lt(lo, hi))
    C = S.choose("kind", ["Sine", "Cosine", "Powerlaw"])
    if C == "Powerlaw":
        d = m.Powerlaw(S.real("alpha", -3, 3), minimum=lo + 2, maximum=hi + 2, low=lo + 2, high=hi + 2)
        a, b = lo + 2, hi + 2
    else:
        d = getattr(m, C)(minimum=lo, maximum=hi)
        a, b = lo, hi
    S.prove_eq("lower end of the support", s1(S, d.support.lower_bound), a)
    S.prove_eq("upper end of the support", s1(S, d.support.upper_bound), b)


@harness()
def supports(S):
    """the declared support is the interval between the bounds (power law: the support bounds it was given)"""
    k = S.choose("distribution", ["sine", "cosine", "powerlaw"])
    if k == "powerlaw":
        a, b = S.real("lo", 0, 50, lo_open=True), S.real("hi", 0, 100)
        S.assume(S.lt(a, b))
        c, d = S.real("low", 0, 50), S.real("high", 50, 200)
        check_support(S, S.module(N).Powerlaw(S.real("alpha", -10, 10), a, b, low=c, high=d), c, d)
    else:
        C, a, b, _, _ = _trig(S, k)
        check_support(S, C(minimum=a, maximum=b), a, b)
