"""C10: parametric mass and spin models"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "primary mass in (0, 250], mass ratio in (0, 2], 0 < mmin < mmax <= 200, indices in [-10, 10], peak in [0, 100], widths in (0, 50], fractions in [0, 1], spin magnitudes in [-1, 2], shape parameters in (0, 50], maximum magnitude in (0, 1.5], tilt cosines in [-2, 2]; scalars and length-2 arrays"
OUTSIDE = "in the smoothed joint density the two corners where a component mass sits exactly at the end of the turn-on (the turn-on itself is decided there by C06); larger arrays (elementwise code); the corner m1 = mmin, where the conditional mass-ratio range has zero width; a spin magnitude exactly at an end point of its range, where the beta density may be infinite"
ASSUMPTIONS = ["the one-dimensional densities are those of gwinferno.distributions (decided by C05 and C06)"]
P = "gwinferno.models.parametric.parametric"
D = "gwinferno.distributions"


def mods(S):
    return S.module(P), S.module(D)


def mass(S, lo=0):
    mn = S.real("mmin", 0, 200, lo_open=True)
    mx = S.real("mmax", 0, 200, lo_open=True)
    S.assume(S.lt(mn, mx))
    m1 = S.real("m1", lo, 250, lo_open=lo == 0)
    q = S.real("q", 0, 2, lo_open=True)
    S.assume(S.ne(m1, mn))
    if not S.sym:
        S.assume(S.gt(mx - mn, 1), S.gt(mn, 1), S.gt(S.abs(m1 - mn), 1e-3), S.gt(S.abs(m1 - mx), 1e-3), S.gt(S.abs(m1), 0.1), S.gt(S.abs(q), 1e-3))
        S.assume(S.gt(S.abs(q * m1 - mn), 1e-3))
    return m1, q, mn, mx


def index(S, name):
    a = S.real(name, -10, 10)
    if not S.sym:
        S.assume(S.gt(S.abs(a + 1), 1e-2), S.lt(S.abs(a), 5))
    return a


def outside(S, m1, q, mn, mx):
    return S.test_lt(m1, mn) or S.test_lt(mx, m1) or S.test_lt(1, q) or S.test_lt(q * m1, mn)


@harness()
def powerlaw(S):
    p, d = mods(S)
    m1, q, mn, mx = mass(S)
    al, be = index(S, "alpha"), index(S, "beta")
    v = p.powerlaw_primary_ratio_pdf(m1, q, al, be, mn, mx)
    S.prove_notnan("not NaN", v)
    if outside(S, m1, q, mn, mx):
        S.prove_zero("zero outside the mass and mass-ratio range", v)
    else:
        S.prove_eq("product", v, d.powerlaw_pdf(m1, al, mn, mx) * d.powerlaw_pdf(q, be, S.div(mn, m1), 1))


@harness()
def falloff(S):
    p, d = mods(S)
    m1, q, mn, mx = mass(S, 0)
    al, be = index(S, "alpha"), index(S, "beta")
    f = S.real("fall_off", 0, 20, lo_open=True)
    v = p.powerlaw_primary_ratio_falloff_pdf(m1, q, al, be, mn, mx, f)
    if S.test_lt(1, q) or S.test_lt(q * m1, mn):
        S.prove_zero("zero outside the mass-ratio range", v)
    else:
        S.prove_eq("product", v, d.powerlaw_logit_pdf(m1, al, mn, mx, f) * d.powerlaw_pdf(q, be, S.div(mn, m1), 1))


def peak(S, mn, mx):
    mu = S.real("mpp", 0, 100)
    sg = S.real("sigpp", 0, 50, lo_open=True)
    if not S.sym:
        S.assume(S.gt(sg, 1), S.lt(S.abs(mn - mu), 4 * sg), S.lt(S.abs(mx - mu), 4 * sg))
    return mu, sg


@harness()
def plpeak_primary(S):
    p, d = mods(S)
    m1, _, mn, mx = mass(S)
    al = index(S, "alpha")
    mu, sg = peak(S, mn, mx)
    lam = S.real("lam", 0, 1)
    v = p.plpeak_primary_pdf(m1, al, mn, mx, mu, sg, lam)
    S.prove_notnan("not NaN", v)
    if S.test_lt(m1, mn) or S.test_lt(mx, m1):
        S.prove_zero("zero outside", v)
        return
    pl, pk = d.powerlaw_pdf(m1, al, mn, mx), d.truncnorm_pdf(m1, mu, sg, mn, mx)
    S.prove_eq("mixture", v, (1 - lam) * pl + lam * pk)


@harness()
def plpeak_smoothed(S):
    p, d = mods(S)
    m1, q, mn, mx = mass(S)
    al = index(S, "alpha")
    mu, sg = peak(S, mn, mx)
    lam = S.real("lam", 0, 1)
    dl = S.real("delta", 0, 20, lo_open=True)
    if not S.sym:
        S.assume(S.gt(dl, 0.1), S.gt(S.abs(m1 - mn - dl), 1e-2), S.gt(S.abs(m1 - mn), dl / 20))
    v = p.plpeak_primary_pdf(m1, al, mn, mx, mu, sg, lam, delta=dl)
    S.prove_notnan("not NaN", v)
    if S.test_lt(m1, mn) or S.test_lt(mx, m1):
        S.prove_zero("zero outside", v)
        return
    pl, pk = d.powerlaw_pdf(m1, al, mn, mx), d.truncnorm_pdf(m1, mu, sg, mn, mx)
    S.prove_eq("mixture with turn-on", v, (1 - lam) * pl * d.smooth(dl, m1, mn) + lam * pk)


@harness()
def plpeak_smoothed_joint(S):
    """joint density with the turn-on, at a fixed peak and primary index (both general in plpeak_joint and plpeak_smoothed)"""
    p, d = mods(S)
    m1, q, mn, mx = mass(S)
    be = index(S, "beta")
    al, mu, sg, lam = S.choose("fixed", [(-2, 35, 5, 0.25), (-1, 30, 4, 0.5)])
    dl = S.real("delta", 0, 20, lo_open=True)
    S.assume(S.ne(m1 * q, mn + dl), S.ne(m1, mn + dl))
    if not S.sym:
        S.assume(S.gt(dl, 0.1), S.gt(S.abs(m1 - mn - dl), 1e-2), S.gt(S.abs(m1 * q - mn - dl), 1e-2))
        S.assume(S.gt(S.abs(m1 - mn), dl / 20), S.gt(S.abs(m1 * q - mn), dl / 20))
        S.assume(S.lt(mn, mu), S.lt(mu, mx))
    w = p.plpeak_primary_ratio_pdf(m1, q, al, be, mn, mx, mu, sg, lam, dl)
    S.prove_notnan("joint not NaN", w)
    if outside(S, m1, q, mn, mx):
        S.prove_zero("joint zero outside", w)
        return
    v = p.plpeak_primary_pdf(m1, al, mn, mx, mu, sg, lam, delta=dl)
    S.prove_eq("joint product", w, v * d.powerlaw_pdf(q, be, S.div(mn, m1), 1) * d.smooth(dl, q * m1, mn))


@harness()
def plpeak_joint(S):
    p, d = mods(S)
    m1, q, mn, mx = mass(S)
    al, be = index(S, "alpha"), index(S, "beta")
    mu, sg = peak(S, mn, mx)
    lam = S.real("lam", 0, 1)
    w = p.plpeak_primary_ratio_pdf(m1, q, al, be, mn, mx, mu, sg, lam)
    S.prove_notnan("not NaN", w)
    if outside(S, m1, q, mn, mx):
        S.prove_zero("zero outside", w)
    else:
        mix = (1 - lam) * d.powerlaw_pdf(m1, al, mn, mx) + lam * d.truncnorm_pdf(m1, mu, sg, mn, mx)
        S.prove_eq("product", w, mix * d.powerlaw_pdf(q, be, S.div(mn, m1), 1))


@harness()
def mass_arrays(S):
    """arrays: element i uses the i-th mass and mass ratio"""
    p, d = mods(S)
    k = S.choose("free", 2)
    m1f, qf = S.real("m1", 6, 40), S.real("q", "0.9", 1)
    ms = [m1f if k == i else S.num(20) for i in range(2)]
    qs = [qf if k == i else S.num("0.8") for i in range(2)]
    al, be = S.num("-2.3"), S.num("1.2")
    lam = S.real("lam", 0, 1)
    mn, mx = S.num(5), S.num(50)
    M, G = S.j(ms), S.j(qs)
    m0 = S.snapshot(M)
    a = p.powerlaw_primary_ratio_pdf(M, G, al, be, mn, mx)
    b = p.plpeak_primary_ratio_pdf(M, G, al, be, mn, mx, S.num(30), S.num(4), lam)
    S.prove_same("input untouched", M, m0)
    S.prove_true("shape", S.shape(a) == (2,) and S.shape(b) == (2,))
    for i in range(2):
        S.prove_eq("power law", S.at(a, i), p.powerlaw_primary_ratio_pdf(ms[i], qs[i], al, be, mn, mx))
        S.prove_eq("power law plus peak", S.at(b, i), p.plpeak_primary_ratio_pdf(ms[i], qs[i], al, be, mn, mx, S.num(30), S.num(4), lam))


def shape(S, nm, lo=0):
    a = S.real(nm, 0, 50, lo_open=True)
    if not S.sym:
        S.assume(S.gt(a, 0.2), S.lt(a, 10))
    return a


def mag(S, nm):
    x = S.real(nm, -1, 2)
    if not S.sym:
        S.assume(S.gt(S.abs(x), 1e-3))
    return x


def amax(S, nm, *xs):
    m = S.real(nm, 0, "1.5", lo_open=True)
    if not S.sym:
        S.assume(S.gt(m, 0.05), *[S.gt(S.abs(x - m), 1e-3) for x in xs])
    return m


@harness()
def spin_magnitude(S):
    p, d = mods(S)
    a1, a2 = mag(S, "a1"), mag(S, "a2")
    al, be = shape(S, "alpha"), shape(S, "beta")
    mx = amax(S, "amax", a1, a2)
    S.assume(*[S.ne(a, 0) for a in (a1, a2)], *[S.ne(a, mx) for a in (a1, a2)])
    f = lambda x: d.betadist(x, al, be, scale=mx)  # noqa
    S.prove_eq("single", p.beta_spin_magnitude(a1, al, be, mx), f(a1))
    v = p.iid_spin_magnitude(a1, a2, al, be, mx)
    S.prove_eq("product", v, f(a1) * f(a2))
    S.prove_eq("exchange symmetric", v, p.iid_spin_magnitude(a2, a1, al, be, amax=mx))
    if S.test_lt(a1, 0) or S.test_lt(mx, a1) or S.test_lt(a2, 0) or S.test_lt(mx, a2):
        S.prove_zero("zero outside", v)


@harness()
def spin_magnitude_default(S):
    p, d = mods(S)
    a1, a2 = mag(S, "a1"), mag(S, "a2")
    S.assume(S.ne(a1, 1), S.ne(a2, 1), S.ne(a1, 0), S.ne(a2, 0))
    al, be = shape(S, "alpha"), shape(S, "beta")
    S.prove_eq("unit maximum", p.iid_spin_magnitude(a1, a2, al, be), d.betadist(a1, al, be, scale=1) * d.betadist(a2, al, be, scale=1))
    S.prove_eq("unit maximum, single", p.beta_spin_magnitude(a1, al, be), d.betadist(a1, al, be, scale=1))


@harness()
def spin_magnitude_independent(S):
    p, d = mods(S)
    a1, a2 = mag(S, "a1"), mag(S, "a2")
    S.assume(S.ne(a1, 0), S.ne(a2, 0))
    sh = [shape(S, n) for n in ("alpha1", "beta1", "alpha2", "beta2")]
    m1, m2 = amax(S, "amax1", a1), amax(S, "amax2", a2)
    S.assume(S.ne(a1, m1), S.ne(a2, m2))
    v = p.independent_spin_magnitude_beta_dist(a1, a2, *sh, amax1=m1, amax2=m2)
    S.prove_eq("product of own densities", v, d.betadist(a1, sh[0], sh[1], scale=m1) * d.betadist(a2, sh[2], sh[3], scale=m2))
    if S.test_lt(a1, 0) or S.test_lt(m1, a1) or S.test_lt(a2, 0) or S.test_lt(m2, a2):
        S.prove_zero("zero outside", v)


def tilt(S, nm):
    return S.real(nm, -2, 2)


def width(S, nm):
    s = S.real(nm, 0, 50, lo_open=True)
    if not S.sym:
        S.assume(S.gt(s, 0.5), S.lt(s, 10))
    return s


def iso(S, c):
    return S.num(0) if S.test_lt(1, c) or S.test_lt(c, -1) else S.num("0.5")


@harness()
def tilts(S):
    p, d = mods(S)
    c1, c2 = tilt(S, "c1"), tilt(S, "c2")
    xi, sg = S.real("xi", 0, 1), width(S, "sigma")
    ali = lambda c: d.truncnorm_pdf(c, 1, sg, -1, 1)  # noqa
    one = lambda c: (1 - xi) * iso(S, c) + xi * ali(c)  # noqa
    S.prove_eq("single", p.mixture_isoalign_spin_tilt(c1, xi, sg), one(c1))
    v = p.iid_spin_tilt(c1, c2, xi, sg)
    S.prove_eq("per-component mixture", v, one(c1) * one(c2))
    S.prove_eq("exchange symmetric", v, p.iid_spin_tilt(c2, c1, xi, sg))
    w = p.default_spin_tilt(c1, c2, xi, sg)
    S.prove_eq("joint mixture", w, (1 - xi) * iso(S, c1) * iso(S, c2) + xi * ali(c1) * ali(c2))
    S.prove_eq("joint symmetric", w, p.default_spin_tilt(c2, c1, xi, sg))
    for n, u in (("per component", v), ("joint", w)):
        S.prove_notnan("not NaN " + n, u)
        S.prove_ge("non-negative " + n, u, 0)
        if S.test_lt(1, S.abs(c1)) or S.test_lt(1, S.abs(c2)):
            S.prove_zero("zero outside " + n, u)


@harness()
def tilts_independent(S):
    p, d = mods(S)
    c1, c2 = tilt(S, "c1"), tilt(S, "c2")
    x1, x2 = S.real("xi1", 0, 1), S.real("xi2", 0, 1)
    s1, s2 = width(S, "sigma1"), width(S, "sigma2")
    v = p.independent_spin_tilt(c1, c2, x1, x2, s1, s2)
    one = lambda c, x, s: (1 - x) * iso(S, c) + x * d.truncnorm_pdf(c, 1, s, -1, 1)  # noqa
    S.prove_eq("own fraction and width", v, one(c1, x1, s1) * one(c2, x2, s2))


@harness()
def spin_arrays(S):
    p, d = mods(S)
    k = S.choose("free", 2)
    c = S.real("c", -1, 1)
    a = S.real("a", "0.1", "0.9")
    cs = [c if i == k else S.num("0.3") for i in range(2)]
    as_ = [a if i == k else S.num("0.4") for i in range(2)]
    o = [S.num("0.2"), S.num("0.7")]
    xi, sg = S.num("0.4"), S.num("1.5")
    v = p.iid_spin_tilt(S.j(cs), S.j(o), xi, sg)
    w = p.default_spin_tilt(S.j(cs), S.j(o), xi, sg)
    b = p.iid_spin_magnitude(S.j(as_), S.j(o), S.num(2), S.num(3))
    for i in range(2):
        S.prove_eq("tilts, per component", S.at(v, i), p.iid_spin_tilt(cs[i], o[i], xi, sg))
        S.prove_eq("tilts, joint", S.at(w, i), p.default_spin_tilt(cs[i], o[i], xi, sg))
        S.prove_eq("magnitudes", S.at(b, i), p.iid_spin_magnitude(as_[i], o[i], S.num(2), S.num(3)))
