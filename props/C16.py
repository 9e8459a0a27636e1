"""C16: posterior predictive draws"""
from .common import draw_stub, registry, run_pyro

HARNESSES, harness = registry()
BOUNDS = "2 events x 3 samples and 3 injections; masses in (0, 200], mass ratios in (0, 1], weights in [0, 100] (log weights in [-20, 20]); mass limits symbolic and default; every index the sampler may return"
OUTSIDE = "larger arrays; the case in which no sample of an event passes the limits (the draw is then undefined)"
ASSUMPTIONS = ["jax.random.choice(key, n, p=p) returns any index i < n with p[i] > 0"]
A = "gwinferno.pipeline.analysis"
NE, NS, NI = 2, 3, 3


def ssum(r):
    t = r[0]
    for v in r[1:]:
        t = t + v
    return t


class Setup:
    def __init__(self, S, log=False, default_limits=False, marginal=False):
        self.S, self.log = S, log
        self.draw = S.choose("draw", 3)
        ev = self.ev = S.choose("event", NE)
        side = self.side = S.choose("side", ["obs", "pred"])
        # one event (or the injections) symbolic, everything else fixed to values inside the limits
        m = S.reals("m", 3, 0, 200, lo_open=True)
        q = S.reals("q", 3, 0, 1, lo_open=True)
        w = S.reals("w", 3, -20, 20) if log else S.reals("w", 3, 0, 100)
        if not S.sym:
            S.assume(*[S.Or(S.eq(x, 0), S.gt(x, 1e-2)) for x in w])
        self.m, self.q, self.w = m, q, w
        fm = [[S.num(20 + 3 * i + j) for j in range(3)] for i in range(4)]
        fq = [[S.num(f"0.{5 + j}{i}") for j in range(3)] for i in range(4)]
        fw = [[S.num(1 + (i + j) % 3) for j in range(3)] for i in range(4)]
        lg = (lambda r: [S.log(v) for v in r]) if log else (lambda r: r)
        free = lambda i: side == "obs" and i == ev  # noqa
        self.M1 = [m if free(i) else fm[i] for i in range(NE)]
        self.MQ = [q if free(i) else fq[i] for i in range(NE)]
        self.W = [w if free(i) else lg(fw[i]) for i in range(NE)]
        self.IM1, self.IMQ, self.IW = (m, q, w) if side == "pred" else (fm[3], fq[3], lg(fw[3]))
        zs = self.Z = [[S.num(f"0.{1 + 3 * i + j}") for j in range(3)] for i in range(NE)]
        self.IZ = [S.num("0.81"), S.num("0.82"), S.num("0.83")]
        self.pedata = {"mass_1": S.j(self.M1), "mass_ratio": S.j(self.MQ), "redshift": S.j(zs)}
        self.injdata = {"mass_1": S.j(self.IM1), "mass_ratio": S.j(self.IMQ), "redshift": S.j(self.IZ)}
        if default_limits:
            self.lim = {}
            self.lo1, self.lo2, self.hi = S.num(5), S.num(3), S.num(100)
        else:
            self.lo1, self.lo2, self.hi = S.real("m1min", 1, 20), S.real("m2min", 1, 5), S.real("mmax", 50, 150)
            self.lim = dict(m1min=self.lo1, m2min=self.lo2, mmax=self.hi)
        self.nlin = [(S.exp(x) if log else x) for x in w]
        # at least one acceptable sample
        ok = [S.And(S.gt(v, 0), S.ge(a, self.lo1), S.le(a, self.hi), S.ge(a * b, self.lo2)) for v, a, b in zip(self.nlin, m, q)]
        S.assume(S.Or(*ok))
        if not S.sym:
            for a, b in zip(m, q):
                for d in (a - self.lo1, a - self.hi, a * b - self.lo2):
                    S.assume(S.gt(S.abs(d), 1e-4))

    def pick(self, k, n, p):
        S = self.S
        S.prove_true("as many probabilities as samples", p is not None and len(p) == n)
        i = (self.draw + k) % n  # consecutive draws return different indices
        S.assume(S.gt(p[i], 0))
        S.prove_eq("probabilities sum to one", ssum(p), 1)
        for v in p:
            S.prove_ge("probability non-negative", v, 0)
        return i

    def index(self, st, side, e):
        """index of the drawn sample, identified by its redshift (all different)"""
        z = st[f"redshift_{side}_event_{e}"].value
        row = self.Z[e] if side == "obs" else self.IZ
        hit = [j for j in range(3) if self.S.test_eq(z, row[j])]
        self.S.prove_true("draw comes from its own event or the injections", len(hit) == 1)
        return hit[0] if hit else 0

    def run(self, ppc=True, **kw):
        S = self.S
        self.calls = draw_stub(S, self.pick)
        m = S.module(A)
        return run_pyro(
            S,
            lambda: m.hierarchical_likelihood(
                S.j(self.W), S.j(self.IW), 10, NE, 1.0, reconstruct_rate=False, min_neff_cut=False, posterior_predictive_check=ppc,
                param_names=["mass_1", "mass_ratio", "redshift"], pedata=self.pedata, injdata=self.injdata, log=self.log, **self.lim, **kw,
            ),
            {},
        )[1]


def check(S, c, st):
    for e in range(NE):
        io, ip = c.index(st, "obs", e), c.index(st, "pred", e)
        for nm, pe, inj in (("mass_1", c.M1, c.IM1), ("mass_ratio", c.MQ, c.IMQ)):
            S.prove_eq("observed parameters from one sample", st[f"{nm}_obs_event_{e}"].value, pe[e][io])
            S.prove_eq("predicted parameters from one injection", st[f"{nm}_pred_event_{e}"].value, inj[ip])
    side, e = c.side, c.ev
    m1, q = st[f"mass_1_{side}_event_{e}"].value, st[f"mass_ratio_{side}_event_{e}"].value
    S.prove_ge("primary mass above its minimum", m1, c.lo1)
    S.prove_le("primary mass below the maximum", m1, c.hi)
    S.prove_ge("secondary mass above its minimum", m1 * q, c.lo2)
    S.prove_gt("non-zero weight", c.nlin[c.index(st, side, e)], 0)


@harness()
def draws(S):
    c = Setup(S)
    check(S, c, c.run())


@harness()
def draws_log(S):
    c = Setup(S, log=True)
    check(S, c, c.run())


@harness()
def draws_default_limits(S):
    c = Setup(S, default_limits=True)
    check(S, c, c.run())


@harness()
def probabilities(S):
    """within the limits the draw probability is proportional to the weight"""
    c = Setup(S)
    c.run()
    ok = [S.test_le(c.lo1, a) and S.test_le(a, c.hi) and S.test_le(c.lo2, a * b) for a, b in zip(c.m, c.q)]
    eff = [w if k else S.num(0) for w, k in zip(c.nlin, ok)]
    tot = ssum(eff)
    # every event and the injections have their own draw; the symbolic one is among them
    hits = []
    for n, p in c.calls:
        hits.append(S.And(*[S.eq(v * tot, w) for v, w in zip(p, eff)]))
    S.prove("probability proportional to weight within the limits", S.Or(*hits))


@harness()
def fractions(S):
    m = S.module(A)
    parts = [[S.reals(f"p{k}{e}_", 2, 0, 10, lo_open=True) for e in range(NE)] for k in range(2)]
    if not S.sym:
        S.assume(*[S.gt(x, 1e-2) for a in parts for r in a for x in r])
    W = [[parts[0][e][j] + parts[1][e][j] for j in range(2)] for e in range(NE)]
    draw = S.choose("draw", 2)

    def pick(k, n, p):
        return (draw + k) % n

    draw_stub(S, pick)
    m1 = [[S.num(30 + i + 2 * j) for j in range(2)] for i in range(NE)]
    one = [[S.num(1)] * 2] * NE
    pd = {"mass_1": S.j(m1), "mass_ratio": S.j(one)}
    ij = {"mass_1": S.j([S.num(30), S.num(31)]), "mass_ratio": S.j([S.num(1), S.num(1)])}
    _, st = run_pyro(
        S,
        lambda: m.hierarchical_likelihood(S.j(W), S.j([S.num(1), S.num(2)]), 10, NE, 1.0, reconstruct_rate=False, min_neff_cut=False, posterior_predictive_check=True,
                                          param_names=["mass_1"], pedata=pd, injdata=ij, marginal_qs=True, indv_weights=[S.j(parts[0]), S.j(parts[1])]),
        {},
    )
    for e in range(NE):
        hit = [j for j in range(2) if S.test_eq(st[f"mass_1_obs_event_{e}"].value, m1[e][j])]
        S.prove_true("drawn sample belongs to its event", len(hit) == 1)
        i = hit[0]
        for k in range(2):
            S.prove_eq("membership fraction of the drawn sample", st[f"cat_frac_subpop_{k + 1}_event_{e}"].value * W[e][i], parts[k][e][i])
        S.prove_eq("fractions sum to one", st[f"cat_frac_subpop_1_event_{e}"].value + st[f"cat_frac_subpop_2_event_{e}"].value, 1)


@harness()
def likelihood_unchanged(S):
    c = Setup(S, log=bool(S.choose("log", 2)))
    a = c.run()
    b = c.run(ppc=False)
    S.prove_eq("same log likelihood", a["log_likelihood"].value, b["log_likelihood"].value)
    S.prove_true("no draws when not requested", not any("_event_" in n for n in b))
    for n in b:
        if S.shape(b[n].value) == ():
            S.prove_eq("recorded " + n, a[n].value, b[n].value)
