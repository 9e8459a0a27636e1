"""C31: precession prior conditioned on effective spin, joint prior"""
import inspect

import numpy as np

from .common import registry

HARNESSES, harness = registry()
BOUNDS = "any outcome of 2 random draws (1 in the density harness) including one round of redrawn spins, any positive kernel-density estimate, mass ratio in [0.05, 1], spin maximum in [0.1, 1], any effective spin up to 0.98 of its bound (in the density harness: as long as the largest precession is at least a tenth of the maximum spin), any precession value; the 50 reference nodes executed with 4; joint prior: 2 pairs and any positive marginal and conditional densities"
OUTSIDE = "more draws and more than one round of redraws (the loop repeats the same step); how close the kernel-density estimate comes to the true density (Monte-Carlo error); a draw of exactly zero spin; effective spins at the very bound"
ASSUMPTIONS = ["the precession of given spins is decided by C20", "numpy's random numbers are arbitrary values in (0, 1)", "scipy's gaussian_kde is an arbitrary positive function of its argument", "in the joint-prior harness the two factor densities are arbitrary positive functions of their arguments (decided by the other harnesses and C23)"]
M = "gwinferno.preprocess.priors"


class Draws:
    """the precession of given spins is decided by C20", "numpy's random numbers: fresh values in (0, 1), shared by repeated calls after rewind()"""

    def __init__(self, S, limit):
        self.S, self.limit, self.k, self.n = S, limit, 0, 0
        names = ("random", "random_sample", "rand", "uniform", "ranf", "sample", "default_rng", "RandomState", "seed")
        if S.sym:
            S.set_rng(lambda name, a, k: self.call(name.split(".")[-1], a, k))
        else:
            for nm in names:
                S.patch(np.random, nm, (lambda nm: lambda *a, **k: self.call(nm, a, k))(nm))

    def rewind(self):
        self.k = 0

    def one(self):
        if self.k >= self.limit:
            self.S.skip()
        self.k += 1
        return self.S.real(f"r{self.k - 1}", 0.001, 1, hi_open=True)

    def array(self, size):
        if size is None:
            return self.one()
        shape = (int(size),) if not isinstance(size, (tuple, list)) else tuple(int(v) for v in size)
        v = [self.one() for _ in range(int(np.prod(shape)))]
        return (self.S.n(v) if self.S.sym else np.array(v, dtype=float)).reshape(shape)

    def call(self, name, a, k):
        if name in ("default_rng", "RandomState"):
            d = self

            class Gen:
                def __getattr__(self, n):
                    if n.startswith("__"):
                        raise AttributeError(n)
                    return lambda *a, **k: d.call(n, a, k)

            return Gen()
        if name == "seed":
            return None
        if name == "uniform":
            lo = k.get("low", a[0] if a else 0)
            hi = k.get("high", a[1] if len(a) > 1 else 1)
            u = self.array(k.get("size", a[2] if len(a) > 2 else None))
            return lo + (hi - lo) * u
        if name == "rand":
            return self.array(a if a else None)
        if name in ("random", "random_sample", "ranf", "sample"):
            return self.array(k.get("size", a[0] if a else None))
        from symx.terms import Unsupported

        raise Unsupported("random call " + name)


def kde_stub(S, m):
    """gaussian_kde: an arbitrary positive function; records what it was trained on and where it was evaluated"""
    rec = {"data": [], "at": []}

    def value(x):
        if S.sym:
            from symx import terms as tm

            return tm.texp(tm.tuf("logkde", x))
        return 1.5 + np.sin(7 * float(x))

    class KDE:
        def __init__(self, dataset, bw_method=None, weights=None):
            rec["data"].append((S.elems(dataset), None if weights is None else S.elems(weights)))

        def evaluate(self, pts):
            p = S.elems(pts)
            rec["at"].append(p)
            v = [value(x) for x in p]
            return S.n(v) if S.sym else np.array(v, dtype=float)

        __call__ = pdf = evaluate

        def logpdf(self, pts):
            return np.log(self.evaluate(pts))

    if "gaussian_kde" in m.__dict__:
        S.patch(m, "gaussian_kde", KDE)
    else:
        import scipy.stats

        S.patch(scipy.stats, "gaussian_kde", KDE)
    return rec


def coarse(S):
    if S.sym:
        from symx import arr

        arr.Cfg.grid_threshold = 40


def cond(S):
    q, am = S.real("q", 0.05, 1), S.real("amax", 0.1, 1)
    u = S.real("u", -0.98, 0.98)
    return q, am, am * u


def with_largest(S):
    """conditioning values with the largest effective precession of spins up to am that have this effective spin:
    am while the secondary alone can supply the effective spin, else sqrt(am^2 - d^2) with d the excess;
    d = am 2t/(1+t^2), so that the root am (1-t^2)/(1+t^2) is rational in t"""
    q, am = S.real("q", 0.05, 1), S.real("amax", 0.1, 1)
    side = S.choose("sign", [1, -1])
    ex = S.choose("excess", 3)
    t = S.real("t", 0.001, 0.9) if ex == 1 else S.real("t", 0, 0.999)
    if ex == 2:
        X, mx = q * am, am
    elif ex == 0:
        X, mx = q * am * t, am
    else:
        X, mx = q * am + S.div(2 * t * am, 1 + t * t), S.div(am * (1 - t * t), 1 + t * t)
    return q, am, side * S.div(X, 1 + q), mx


@harness(weight=2)
def density(S):
    """proper density on [0, largest precession]"""
    coarse(S)
    m = S.module(M)
    dr = Draws(S, 3)
    rec = kde_stub(S, m)
    q, am, xe, mx = with_largest(S)
    f = m.chi_p_prior_given_chi_eff_q
    w = S.real("w", -1, 2)
    x = mx * w
    if not S.sym:
        S.assume(S.gt(S.abs(w), 1e-3), S.gt(S.abs(w - 1), 1e-3))
    v = S.elems(f(S.n([x]), xe, q, a_max=am, ndraws=1))
    S.prove_true("one value per precession", len(v) == 1)
    if S.test_lt(w, 0) or S.test_lt(1, w):
        S.prove_zero("zero outside the allowed range", v[0])
    elif S.test_lt(0, w) and S.test_lt(w, 1):
        S.prove_gt("positive inside the allowed range", v[0], 0)
    dr.rewind()
    g = [0 * mx] + [t for t in rec["at"][0]] + [mx]
    p = S.elems(f(S.n(g), xe, q, a_max=am, ndraws=1))
    S.prove_zero("zero at the lower end", p[0])
    S.prove_zero("zero at the upper end", p[-1])
    t = 0
    for i in range(1, len(g)):
        S.prove_gt("nodes increase", g[i], g[i - 1])
        t = t + (g[i] - g[i - 1]) * (p[i] + p[i - 1]) / 2
    S.prove_eq("integrates to one", t, 1)


def _trained(S, n, rounds):
    coarse(S)
    m = S.module(M)
    Draws(S, 3 * (n + rounds))
    rec = kde_stub(S, m)
    spins = []
    if "chip_from_q_component_spins" in m.__dict__:
        real = m.chip_from_q_component_spins
        sig = inspect.signature(real)

        def chip(*a, **k):
            b = sig.bind(*a, **k).arguments
            out = real(*a, **k)
            spins.append([S.elems(b[s]) for s in ("a1", "a2", "ct1", "ct2")] + [b["q"], S.elems(out)])
            return out

        S.patch(m, "chip_from_q_component_spins", chip)
    q, am, xe = cond(S)
    m.chi_p_prior_given_chi_eff_q(S.n([S.num(-1)]) if S.sym else -1.0, xe, q, a_max=am, ndraws=n)
    S.prove_true("one estimate", len(rec["data"]) == 1)
    data, wt = rec["data"][0]
    S.prove_true("one value per draw", len(data) == n and wt is not None and len(wt) == n)
    if len(spins) != 1:
        return
    a1, a2, c1, c2, qq, xp = spins[0]
    S.prove_eq("mass ratio", qq, q)
    for i in range(n):
        for a in (a1[i], a2[i]):
            S.prove_ge("magnitude not negative", a, 0)
            S.prove_le("magnitude up to the maximum", a, am)
        for c in (c1[i], c2[i]):
            S.prove_ge("cosine from -1", c, -1)
            S.prove_le("cosine up to 1", c, 1)
        S.prove_eq("the conditioned effective spin", (a1[i] * c1[i] + q * a2[i] * c2[i]), (1 + q) * xe)
        S.prove_gt("positive weight", wt[i], 0)
        S.prove_eq("weight inverse to the primary spin", wt[i] * a1[i], wt[0] * a1[0])
        S.prove_eq("precession of the same spins", data[i], xp[i])


@harness(weight=2)
def trained(S):
    _trained(S, 2, 0)


@harness(weight=3)
def redrawn(S):
    _trained(S, 1, 1)


@harness(tier="thorough", time=600)
def redrawn_two(S):
    _trained(S, 2, 2)


@harness()
def joint(S):
    """the joint prior is the product of the marginal and the conditional, pair by pair"""
    m = S.module(M)
    names = ("chi_p_prior_given_chi_eff_q", "chi_effective_prior_from_isotropic_spins")
    sig = {n: inspect.signature(getattr(m, n)) for n in names}

    def fun(tag, *v):
        if S.sym:
            from symx import terms as tm

            return tm.texp(tm.tuf("log" + tag, *[S.elems(x)[0] for x in v]))
        return 1.5 + np.sin(sum((i + 1) * float(x) for i, x in enumerate(v)))

    def condi(*a, **k):
        b = sig[names[0]].bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        t = [S.elems(b[s])[0] for s in ("chi_p", "chi_eff", "q", "a_max")]
        return fun("cond", *t, S.num(b["ndraws"]), S.num(b["bw_method"]) if not isinstance(b["bw_method"], str) else S.num(-1))

    def marg(*a, **k):
        b = sig[names[1]].bind(*a, **k)
        b.apply_defaults()
        b = b.arguments
        e, q = np.broadcast_arrays(np.atleast_1d(S.n(b["chi_eff"]) if S.sym else b["chi_eff"]), np.atleast_1d(S.n(b["q"]) if S.sym else b["q"]))
        am = S.elems(b["a_max"])[0]
        out = [fun("marg", u, v, am) for u, v in zip(e.reshape(-1), q.reshape(-1))]
        return (S.n(out) if S.sym else np.array(out)).reshape(e.shape)

    S.patch(m, names[0], condi)
    S.patch(m, names[1], marg)
    lay = S.choose("layout", 4)
    xp, xe, q = S.reals("xp", 2, 0, 1), S.reals("xe", 2, -1, 1), S.reals("q", 2, 0.05, 1)
    am = S.real("amax", 0.1, 1)
    kw = S.choose("options", [{}, {"ndraws": 77}, {"ndraws": 55, "bw_method": 2}])
    am_given = S.choose("maximum", 2)
    if am_given:
        kw = dict(kw, a_max=am)
    one = S.num(1)
    if lay == 0:
        a, pairs = (S.n(xp), S.n(xe), S.n(q)), [(xp[i], xe[i], q[i]) for i in range(2)]
    elif lay == 1:
        a, pairs = (S.n(xp), S.n(xe), q[0]), [(xp[i], xe[i], q[0]) for i in range(2)]
    elif lay == 2:
        a, pairs = (xp[0], xe[0], q[0]), [(xp[0], xe[0], q[0])]
    else:
        a, pairs = (S.n([xp]), S.n([xe]), S.n([q])), [(xp[i], xe[i], q[i]) for i in range(2)]
    out = m.joint_prior_from_isotropic_spins(*a, **kw)
    v = S.elems(out)
    S.prove_true("one value per pair", len(v) == len(pairs))
    A = am if am_given else one
    nd, bw = S.num(kw.get("ndraws", sig[names[0]].parameters["ndraws"].default)), S.num(kw.get("bw_method", -1))
    for t, (p, e, r) in zip(v, pairs):
        S.prove_eq("marginal times conditional", t, fun("marg", e, r, A) * fun("cond", p, e, r, A, nd, bw))
