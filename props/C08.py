"""C08: grid-tabulated distributions"""
from .common import check_support, registry

HARNESSES, harness = registry()
BOUNDS = "grids of 4 strictly increasing symbolic nodes (thorough: 5), arbitrary positive volume elements, lamb in [-5, 5], arbitrary coefficients in [-5, 5] and a symbolic design matrix with 3 basis functions; values and quantiles anywhere"
OUTSIDE = "longer grids, batched parameters; linear interpolation reads node values only, so the statements are per panel"
ASSUMPTIONS = ["the uniform generator is a stand-in returning symbolic variates"]
N = "gwinferno.numpyro_distributions"


def s1(S, x):
    return S.elems(x)[0]


def _grid(S, n, lo=0, hi=10):
    g = S.reals("z", n, lo, hi)
    for a, b in zip(g, g[1:]):
        S.assume(S.lt(a, b))
        if not S.sym:
            S.assume(S.gt(b - a, 0.01))
    return g


def _trap(y, x):
    t = 0
    for i in range(1, len(x)):
        t = t + (x[i] - x[i - 1]) * (y[i] + y[i - 1]) / 2
    return t


def _redshift(S, n):
    m = S.module(N)
    g = _grid(S, n)
    dv = S.reals("dv", n, 0, 10, lo_open=True)
    if not S.sym:
        for v in dv:
            S.assume(S.gt(v, 0.01))
    lam = S.real("lamb", -5, 5)
    zmax = S.real("zmax", 0, 20, lo_open=True)
    d = m.PowerlawRedshift(lam, zmax, S.j(g), S.j(dv))
    return d, g, dv, lam, zmax


def _spline(S, n, nb=3):
    m = S.module(N)
    g = _grid(S, n)
    cs = S.reals("c", nb, -5, 5)
    B = [S.reals(f"b{i}_", n, 0, 1) for i in range(nb)]
    d = m.BSplineDistribution(g[0], g[-1], S.j(cs), S.j(g), S.j([v for r in B for v in r]).reshape(nb, n))
    pdf = []
    for k in range(n):
        e = 0
        for i in range(nb):
            e = e + cs[i] * B[i][k]
        pdf.append(S.exp(e))
    return d, g, pdf


def _consistency(S, d, g, shape):
    """shape: unnormalised density at the nodes"""
    n = len(g)
    Z = _trap(shape, g)
    p = S.elems(d.pdfs)
    c = S.elems(d.cdfgrid)
    S.prove_true("sizes", len(p) == n and len(c) == n)
    for k in range(n):
        S.prove_eq("stored density is the normalised model", p[k] * Z, shape[k])
    S.prove_eq("normalised", _trap(p, g), 1)
    S.prove_eq("cdf starts at 0", c[0], 0)
    S.prove_eq("cdf ends at 1", c[-1], 1)
    for k in range(1, n):
        S.prove_eq("cdf at a node is the trapezoid integral", c[k] * Z, _trap(shape[: k + 1], g[: k + 1]))
        S.prove_gt("cdf increasing", c[k], c[k - 1])


def _redshift_tables(S, n):
    d, g, dv, lam, zmax = _redshift(S, n)
    _consistency(S, d, g, [dv[k] * S.pow(1 + g[k], lam - 1) for k in range(n)])


@harness(weight=3)
def redshift_tables(S):
    _redshift_tables(S, 4)


@harness(tier="thorough")
def redshift_tables_5(S):
    _redshift_tables(S, 5)


@harness(weight=3)
def spline_tables(S):
    d, g, pdf = _spline(S, 4)
    _consistency(S, d, g, pdf)


@harness(tier="thorough")
def spline_tables_5(S):
    d, g, pdf = _spline(S, 5)
    _consistency(S, d, g, pdf)


@harness(weight=2)
def redshift_logprob(S):
    d, g, dv, lam, zmax = _redshift(S, 3)
    x = S.real("x", 0, 12)
    S.assume(S.ge(x, g[0]), S.le(x, g[-1]))
    lp = s1(S, d.log_prob(x))
    S.prove_notnan("not NaN", lp)
    if S.test_lt(zmax, x):
        S.prove_lt("no density above the maximum", lp, -1000000)
        return
    sh = [dv[k] * S.pow(1 + g[k], lam - 1) for k in range(3)]
    Z = _trap(sh, g)
    i = 0 if S.test_le(x, g[1]) else 1
    v = dv[i] + S.div((dv[i + 1] - dv[i]) * (x - g[i]), g[i + 1] - g[i])
    S.prove_eq("density", S.exp(lp) * Z, v * S.pow(1 + x, lam - 1))


@harness()
def redshift_logprob_given_volume(S):
    d, g, dv, lam, zmax = _redshift(S, 3)
    x = S.real("x", 0, 12)
    v = S.real("v", 0, 10, lo_open=True)
    S.assume(S.le(x, zmax))
    sh = [dv[k] * S.pow(1 + g[k], lam - 1) for k in range(3)]
    S.prove_eq("density from the given volume element", S.exp(s1(S, d.log_prob(x, dVdc=v))) * _trap(sh, g), v * S.pow(1 + x, lam - 1))


@harness(weight=2)
def spline_logprob(S):
    d, g, pdf = _spline(S, 3)
    k = S.choose("node", 3)
    S.prove_eq("log density at a node is the log of the stored density", S.exp(s1(S, d.log_prob(g[k]))), S.elems(d.pdfs)[k])
    x = S.real("x", 0, 12)
    S.assume(S.ge(x, g[0]), S.le(x, g[-1]))
    i = 0 if S.test_le(x, g[1]) else 1
    lp = s1(S, d.log_prob(x))
    L = [S.log(p) for p in pdf]
    S.prove_eq("linear in log density between nodes", lp + S.log(_trap(pdf, g)), L[i] + S.div((L[i + 1] - L[i]) * (x - g[i]), g[i + 1] - g[i]))


def _inv(S, d, g):
    """generic: nodes of the two tables are increasing, so linear interpolation in both directions inverts"""
    c = S.elems(d.cdfgrid)
    x = S.real("x", 0, 12)
    S.assume(S.ge(x, g[0]), S.le(x, g[-1]))
    f = s1(S, d.cdf(x))
    i = 0 if S.test_le(x, g[1]) else 1
    S.prove_eq("cdf is linear between nodes", (f - c[i]) * (g[i + 1] - g[i]), (c[i + 1] - c[i]) * (x - g[i]))
    S.prove_eq("cdf at the first node", s1(S, d.cdf(g[0])), 0)
    S.prove_eq("cdf at the last node", s1(S, d.cdf(g[-1])), 1)
    S.prove_eq("icdf inverts cdf", s1(S, d.icdf(f)), x)


def _inv2(S, d, g):
    q = S.real("q", 0, 1)
    y = s1(S, d.icdf(q))
    S.prove_ge("icdf within the grid", y, g[0])
    S.prove_le("icdf within the grid", y, g[-1])
    S.prove_eq("cdf inverts icdf", s1(S, d.cdf(y)), q)


@harness(weight=2)
def redshift_inverse(S):
    d, g, *_ = _redshift(S, 3)
    _inv(S, d, g)


@harness(weight=2)
def redshift_inverse2(S):
    d, g, *_ = _redshift(S, 3)
    _inv2(S, d, g)


@harness(weight=2)
def spline_inverse(S):
    d, g, _ = _spline(S, 3, 2)
    _inv(S, d, g)


@harness(weight=2)
def spline_inverse2(S):
    d, g, _ = _spline(S, 3, 2)
    _inv2(S, d, g)


@harness()
def outside_support_nodes(S):
    """design matrix with NaN columns marks nodes outside the support: no density there"""
    m = S.module(N)
    g = _grid(S, 4)
    cs = S.reals("c", 2, -5, 5)
    nan = float("nan")
    B = [S.reals(f"b{i}_", 4, 0, 1) for i in range(2)]
    rows = [[B[0][0], B[0][1], B[0][2], nan], [B[1][0], B[1][1], B[1][2], nan]]
    d = m.BSplineDistribution(g[0], g[-1], S.j(cs), S.j(g), S.j([v for r in rows for v in r]).reshape(2, 4))
    p = S.elems(d.pdfs)
    S.prove_zero("no density outside the support", p[3])
    S.prove_eq("normalised", _trap(p, g), 1)


@harness()
def cumulative_trapezoid(S):
    m = S.module(N)
    x = _grid(S, 4)
    y = S.reals("y", 4, -5, 5)
    r = S.elems(m.cumtrapz(S.j(y), S.j(x)))
    S.prove_true("one value per panel", len(r) == 3)
    for k in range(3):
        S.prove_eq("running trapezoid integral", r[k], _trap(y[: k + 2], x[: k + 2]))


@harness()
def sampling(S):
    kind = S.choose("kind", ["z", "s"])
    d, g = (_redshift(S, 3)[:2]) if kind == "z" else (_spline(S, 3, 2)[:2])
    if kind == "s":
        S.skip() if not S.sym else None  # batch shape of the coefficients is broadcast into the sample shape
    us = S.reals("v", 2, 0, 1, hi_open=True)
    asked = []
    if S.sym:

        def rng(name, args, kw):
            asked.append(tuple(int(v) for v in kw.get("shape", args[1] if len(args) > 1 else ())))
            return S.j(us)

        S.set_rng(rng)
        key = S.module(N).random.PRNGKey(0)
    else:
        import jax
        import numpy as np

        jnp = S.module_jnp()
        S.patch(jax.random, "uniform", lambda key, shape=(), *a, **k: (asked.append(tuple(shape)), jnp.array(np.array(us, dtype=float)))[1])
        key = jax.random.PRNGKey(0)
    x = d.sample(key, sample_shape=(2,))
    S.prove_true("one uniform draw", len(asked) == 1 and asked[0][:1] == (2,))
    for u, v in zip(us, S.elems(x)):
        S.prove_eq("inverse cdf of the variate", v, s1(S, d.icdf(u)))


@harness()
def supports(S):
    """the declared support is the given bounds"""
    if S.choose("distribution", 2):
        d, g, _ = _spline(S, 3)
        check_support(S, d, g[0], g[-1])
    else:
        g = _grid(S, 3)
        a, b = S.real("low", 0, 5), S.real("high", 5, 100)
        check_support(S, S.module(N).PowerlawRedshift(S.real("lamb", -5, 5), S.real("zmax", 1, 20), S.j(g), S.j([1, 2, 3]), low=a, high=b), a, b)
