"""C19: difference prior"""
from math import comb

from .common import normal_params, registry, run_pyro, s1

HARNESSES, harness = registry()
BOUNDS = "coefficient vectors of length 2..5 (thorough: 7) with entries in [-50, 50], difference orders 1..4, inverse variance in [0, 100] (any strength, symbolic)"
OUTSIDE = "longer coefficient vectors, higher orders; the density of the normal prior itself (numpyro)"
ASSUMPTIONS = ["numpyro.sample/factor/deterministic are recorded by a stand-in during symbolic execution"]
M = "gwinferno.models.bsplines.smoothing"
N = "gwinferno.numpyro_distributions"
U = "gwinferno.pipeline.utils"


def diffs(c, d):
    return [sum((-1) ** (d - j) * comb(d, j) * c[i + j] for j in range(d + 1)) for i in range(len(c) - d)]


def penalty(c, iv, d):
    t = 0
    for x in diffs(c, d):
        t = t + x * x
    return -iv * t / 2


def _shape(S, nmax=5):
    d = S.choose("order", [1, 2, 3, 4])
    n = S.choose("n", list(range(2, nmax + 1)))
    if n <= d:
        S.skip()
    return d, n


def _definition(S, nmax):
    m = S.module(M)
    d, n = _shape(S, nmax)
    iv = S.real("inv_var", 0, 100)
    c = S.reals("c", n, -50, 50)
    a = S.j(c)
    p = s1(S, m.apply_difference_prior(a, iv, degree=d))
    S.prove_eq("quadratic form", p, penalty(c, iv, d))
    S.prove_le("never positive", p, 0)
    k = S.real("k", -5, 5)
    S.prove_eq("quadratic scaling", s1(S, m.apply_difference_prior(S.j([k * x for x in c]), iv, degree=d)), k * k * p)
    S.prove_eq("reversal", s1(S, m.apply_difference_prior(S.j(c[::-1]), iv, degree=d)), p)
    q = S.reals("q", d, -5, 5)
    sh = [c[i] + sum(q[e] * i**e for e in range(d)) for i in range(n)]
    S.prove_eq("polynomial shift", s1(S, m.apply_difference_prior(S.j(sh), iv, degree=d)), p)
    S.prove_eq("zero on polynomials", s1(S, m.apply_difference_prior(S.j([sum(q[e] * i**e for e in range(d)) for i in range(n)]), iv, degree=d)), 0)


@harness(weight=2)
def definition(S):
    _definition(S, 5)


@harness(tier="thorough")
def definition_long(S):
    _definition(S, 7)


@harness()
def default_order(S):
    m = S.module(M)
    c = S.reals("c", 4, -50, 50)
    iv = S.real("inv_var", 0, 100)
    S.prove_eq("first differences by default", s1(S, m.apply_difference_prior(S.j(c), iv)), penalty(c, iv, 1))


@harness(weight=2)
def zero_only_on_polynomials(S):
    """penalty zero (positive strength) forces every order-d difference to vanish"""
    m = S.module(M)
    d, n = _shape(S)
    iv = S.real("inv_var", 0, 100, lo_open=True)
    c = S.reals("c", n, -50, 50)
    p = s1(S, m.apply_difference_prior(S.j(c), iv, degree=d))
    for x in diffs(c, d):
        S.prove("strictly negative off polynomials", S.Or(S.lt(p, 0), S.eq(x, 0)))


@harness()
def numpy_input(S):
    m = S.module(M)
    d, n = _shape(S, 4)
    iv = S.real("inv_var", 0, 100)
    c = S.reals("c", n, -50, 50)
    a = S.n(c)
    s = S.snapshot(a)
    S.prove_eq("quadratic form", s1(S, m.apply_difference_prior(a, iv, degree=d)), penalty(c, iv, d))
    S.prove_same("coefficients unchanged", s, a)


@harness()
def distribution(S):
    m = S.module(N)
    d, n = _shape(S, 5)
    iv = S.real("inv_var", 0, 100, lo_open=True)
    c = S.reals("c", n, -50, 50)
    D = m.PSplineCoeficientPrior(n, iv, diff_order=d)
    S.prove_eq("log density is the penalty", s1(S, D.log_prob(S.j(c))), penalty(c, iv, d))
    if n > 2:
        D2 = m.PSplineCoeficientPrior(n, iv)
        S.prove_eq("second differences by default", s1(S, D2.log_prob(S.j(c))), penalty(c, iv, 2))


def _check(S, sites, cs, fac, sig, iv, d, names):
    S.prove_true("coefficients are sampled under their own name", cs in sites and sites[cs].kind == "sample")
    S.prove_true("penalty is applied", fac in sites and sites[fac].kind == "factor")
    loc, sc = normal_params(S, sites[cs])
    S.prove_eq("prior centre", loc, 0)
    S.prove_eq("prior width", sc, sig)
    S.prove_eq("penalty of its own coefficients, order and strength", s1(S, sites[fac].value), penalty(names[cs], iv, d))


def _vals(S, **k):
    return {n: S.reals(n + "_", v, -20, 20) for n, v in k.items()}


def _arr(S, v):
    return {k: S.j(x) for k, x in v.items()}


@harness(weight=2)
def mass_prior(S):
    m = S.module(U)
    case = S.choose("case", ["both", "mass", "ratio"])
    md, qd = S.choose("mdeg", [1, 2]), S.choose("qdeg", [1, 2])
    nm = S.choose("name", [None, "pop"])
    sf = "" if nm is None else "_pop"
    mt, qt = S.real("mtau", 0, 50), S.real("qtau", 0, 50)
    ms, qs = S.real("msig", 0, 50, lo_open=True), S.real("qsig", 0, 50, lo_open=True)
    v = _vals(S, **{"mass_cs" + sf: 4, "q_cs" + sf: 3})
    kw = dict(m_tau=mt, q_tau=qt, name=nm, m_cs_sig=ms, q_cs_sig=qs, m_deg=md, q_deg=qd)
    if case != "ratio":
        kw["m_nsplines"] = 4
    if case != "mass":
        kw["q_nsplines"] = 3
    out, sites = run_pyro(S, lambda: m.bspline_mass_prior(**kw), _arr(S, v))
    if case != "ratio":
        _check(S, sites, "mass_cs" + sf, "mass_smoothing_prior" + sf, ms, mt, md, v)
    if case != "mass":
        _check(S, sites, "q_cs" + sf, "q_smoothing_prior" + sf, qs, qt, qd, v)
    outs = out if case == "both" else (out,)
    want = {"both": ["mass_cs", "q_cs"], "mass": ["mass_cs"], "ratio": ["q_cs"]}[case]
    S.prove_true("number of returned vectors", len(outs) == len(want))
    for o, w in zip(outs, want):
        S.prove_eq("returned coefficients", o, S.j(v[w + sf]))
    S.prove_true("no other sites", len(sites) == 2 * len(want))


@harness()
def mass_prior_nothing(S):
    m = S.module(U)
    S.real("dummy", 0, 1)
    S.raises("refused", lambda: run_pyro(S, lambda: m.bspline_mass_prior(), {}), AssertionError)


@harness(weight=2)
def spin_prior(S):
    m = S.module(U)
    iid = S.choose("iid", [True, False])
    ad, cd = S.choose("adeg", [1, 2]), S.choose("cdeg", [1, 2])
    nm = S.choose("name", [None, "pop"])
    sf = "" if nm is None else "_pop"
    at, ct = S.real("atau", 0, 50), S.real("ctau", 0, 50)
    asg, csg = S.real("asig", 0, 50, lo_open=True), S.real("csig", 0, 50, lo_open=True)
    names = ["a_cs", "tilt_cs"] if iid else ["a1_cs", "tilt1_cs", "a2_cs", "tilt2_cs"]
    v = _vals(S, **{n + sf: (4 if n[0] == "a" else 3) for n in names})
    out, sites = run_pyro(S, lambda: m.bspline_spin_prior(a_nsplines=4, ct_nsplines=3, a_tau=at, ct_tau=ct, name=nm, IID=iid, a_cs_sig=asg, ct_cs_sig=csg, a_deg=ad, ct_deg=cd), _arr(S, v))
    S.prove_true("number of returned vectors", len(out) == len(names))
    for o, n in zip(out, names):
        S.prove_eq("returned coefficients", o, S.j(v[n + sf]))
        mag = n[0] == "a"
        fac = n.replace("tilt", "ct").replace("_cs", "_smoothing_prior") + sf
        _check(S, sites, n + sf, fac, asg if mag else csg, at if mag else ct, ad if mag else cd, v)
    S.prove_true("no other sites", len(sites) == 2 * len(names))


@harness()
def redshift_prior(S):
    m = S.module(U)
    d = S.choose("deg", [1, 2])
    nm = S.choose("name", [None, "pop"])
    sf = "" if nm is None else "_pop"
    t = S.real("tau", 0, 50)
    sg = S.real("sig", 0, 50, lo_open=True)
    v = _vals(S, **{"z_cs" + sf: 3})
    out, sites = run_pyro(S, lambda: m.bspline_redshift_prior(z_nsplines=4, z_tau=t, name=nm, z_cs_sig=sg, z_deg=d), _arr(S, v))
    full = [0] + v["z_cs" + sf]
    S.prove_eq("returned coefficients start at zero", S.elems(out)[0], 0)
    S.prove_true("length", len(S.elems(out)) == 4)
    for o, w in zip(S.elems(out)[1:], v["z_cs" + sf]):
        S.prove_eq("returned coefficients", o, w)
    S.prove_eq("penalty of the returned coefficients", s1(S, sites["z_smoothing_prior" + sf].value), penalty(full, t, d))
    loc, sc = normal_params(S, sites["z_cs" + sf])
    S.prove_eq("prior width", sc, sg)
    S.prove_eq("prior centre", loc, 0)
    if not S.sym:
        S.prove_true("sample length", tuple(sites["z_cs" + sf].value.shape) == (3,))
    else:
        S.prove_true("sample length", tuple(sites["z_cs" + sf].dist[3]) == (3,))
