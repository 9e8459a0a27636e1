"""C15: hierarchical likelihood"""
from .common import registry, run_pyro

HARNESSES, harness = registry()
BOUNDS = "1 to 2 events x 2 samples, 2 or 3 found injections, weights in [0, 1000] (log weights in [-20, 20] or minus infinity), total injections any number in [4, 10^6], observing time and surveyed volume positive, all flag combinations"
OUTSIDE = "larger arrays; rounding in the comparison with a cut (replays stay 1e-6 away from it); more than four categorical subpopulations"
ASSUMPTIONS = ["numpyro primitives are replaced by a recorder: sample returns an arbitrary value in the support, deterministic and factor record what they are given"]
A = "gwinferno.pipeline.analysis"
BIG = -(10**29)  # the rejection value is minus the largest float


def ssum(r):
    t = r[0]
    for v in r[1:]:
        t = t + v
    return t


class Case:
    """symbolic weights and the quantities they define"""

    def __init__(self, S, nobs, log=False, nf=2, pad=0):
        self.S, self.nobs, self.log = S, nobs, log
        if log:
            self.l = [S.reals(f"l{i}_", 2, -20, 20) for i in range(nobs)]
            self.li = S.reals("li", nf, -20, 20)
            self.w = [[S.exp(v) for v in r] for r in self.l]
            self.wi = [S.exp(v) for v in self.li]
            self.wi = self.wi + [S.num(k + 1) for k in range(pad)]
            self.pe, self.inj = S.j(self.l), S.j(self.li + [S.log(S.num(k + 1)) for k in range(pad)])
        else:
            self.w = [S.reals(f"w{i}_", 2, 0, 1000) for i in range(nobs)]
            self.wi = S.reals("wi", nf, 0, 1000) + [S.num(k + 1) for k in range(pad)]
            for r in self.w + [self.wi]:
                S.assume(S.gt(ssum(r), 0))
                if not S.sym:
                    S.assume(S.gt(ssum(r), 1e-3))
            self.pe, self.inj = S.j(self.w), S.j(self.wi)
        self.N = S.real("Ninj", nf + pad + 2, 10**6)
        self.T = S.real("Tobs", 0, 10, lo_open=True)
        self.V = S.real("V", 0, 10**12, lo_open=True)
        if not S.sym:
            S.assume(S.gt(self.T, 1e-2), S.gt(self.V, 1e6))
        s, s2 = ssum(self.wi), ssum([v * v for v in self.wi])
        self.mu = S.div(s, self.N)
        self.var_mu = S.div(s2, self.N * self.N) - S.div(s * s, self.N * self.N * self.N)
        self.neff = S.div(self.mu * self.mu, self.var_mu)
        self.bf = [S.div(ssum(r), S.num(2)) for r in self.w]
        self.neffs = [S.div(ssum(r) * ssum(r), ssum([v * v for v in r])) for r in self.w]
        self.vars = [S.div(S.num(1), n) - S.div(S.num(1), S.num(2)) for n in self.neffs]
        self.var_sel = S.div(S.num(1), self.neff) - S.div(S.num(1), self.N)
        self.sumlog = ssum([S.log(b) for b in self.bf])

    def run(self, **kw):
        S = self.S
        m = S.module(A)
        self.u = S.real("u", 0, 100, lo_open=True)
        kw.setdefault("surveyed_hypervolume", self.V)
        return run_pyro(S, lambda: m.hierarchical_likelihood(self.pe, self.inj, self.N, self.nobs, self.T, log=self.log, **kw), {"unscaled_rate": self.u})

    def margin(self, x, y):
        """keep float replays away from the cut"""
        if not self.S.sym:
            self.S.assume(self.S.gt(self.S.abs(x - y), 1e-3 * (1 + abs(y))))


def value(site):
    return site.value


def check_value(S, c, sites, extra=0):
    S.prove_eq("log likelihood", sites["log_likelihood"].value, c.sumlog - c.nobs * (S.log(c.mu) - extra))


@harness()
def no_cuts(S):
    c = Case(S, S.choose("nobs", [1, 2]), log=bool(S.choose("log", 2)), nf=S.choose("found", [2, 3]))
    rate, st = c.run(min_neff_cut=False, reconstruct_rate=False)
    S.prove_true("no rate without reconstruction", rate is None and "rate" not in st and "unscaled_rate" not in st)
    S.prove_true("one factor", [n for n, s in st.items() if s.kind == "factor"] == ["log_likelihood"])
    check_value(S, c, st)
    S.prove_eq("recorded log likelihood", st["log_l"].value, st["log_likelihood"].value)
    S.prove_eq("recorded efficiency", st["detection_efficiency"].value, c.mu)
    S.prove_eq("recorded injection effective size", S.exp(st["log_nEff_inj"].value), c.neff)
    S.prove_eq("recorded sum", st["sum_logBFs"].value, c.sumlog)
    S.prove_eq("recorded selection", st["selection_factor"].value, -c.nobs * S.log(c.mu))
    S.prove_eq("variance of the log likelihood", st["variance_log_likelihood"].value, c.nobs * c.nobs * c.var_sel + ssum(c.vars))
    S.prove_eq("variance of the efficiency", st["variance_log_detection_efficiency"].value, c.var_sel)
    for i in range(c.nobs):
        S.prove_eq("recorded evidence", S.exp(S.at(st["logBFs"].value, i)), c.bf[i])
        S.prove_eq("recorded effective size", S.exp(S.at(st["log_nEffs"].value, i)), c.neffs[i])
        S.prove_eq("recorded variance", S.at(st["variance_log_BFs"].value, i), c.vars[i])


@harness()
def rate(S):
    c = Case(S, S.choose("nobs", [1, 2]), log=bool(S.choose("log", 2)))
    kw = [dict(min_neff_cut=False), dict(), dict(marginalize_selection=True), dict(min_neff_cut=False, max_variance_cut=True)][S.choose("options", 4)]
    r, st = c.run(**kw)
    S.prove_eq("rate", r * c.mu * c.V * c.T, c.u * 10**9)
    S.prove_eq("recorded rate", st["rate"].value, r)
    S.prove_eq("recorded volume", st["surveyed_hypervolume"].value * 10**9, c.V * c.T)
    d = st["unscaled_rate"].dist
    if S.sym:
        S.prove_true("gamma rate", d[0] == "Gamma")
        S.prove_eq("gamma shape", d[1][0] if d[1] else d[2]["concentration"], c.nobs)
        S.prove_eq("gamma scale", d[1][1] if len(d[1]) > 1 else d[2].get("rate", 1), 1)
    else:
        S.prove_true("gamma rate", type(d).__name__ == "Gamma")
        S.prove_eq("gamma shape", d.concentration, c.nobs)
        S.prove_eq("gamma scale", d.rate, 1)


def cut_case(S, c, st, extra):
    ok_inj = S.test_le(S.num(4 * c.nobs), c.neff)
    ok_pe = all(S.test_lt(S.num(c.nobs), n) for n in c.neffs)
    if ok_inj and ok_pe:
        check_value(S, c, st, extra)
    else:
        S.prove_lt("rejected", st["log_likelihood"].value, BIG)
    S.prove_finite("finite", st["log_likelihood"].value)


@harness()
def neff_cut(S):
    c = Case(S, 1, log=bool(S.choose("log", 2)), nf=1, pad=S.choose("fixed found", [1, 5]))
    for n in c.neffs:
        c.margin(n, c.nobs)
    c.margin(c.neff, 4 * c.nobs)
    _, st = c.run(reconstruct_rate=False)
    cut_case(S, c, st, 0)


@harness()
def neff_cut_two(S):
    """two events: effective sizes are at most 2 of 2 samples, so the event cut always rejects; with 4 samples it can pass"""
    m = S.module(A)
    w = [S.reals(f"w{i}_", 1, 0, 1000) + [S.num(1 + i), S.num(2), S.num("0.5")] for i in range(2)]
    wi = [S.num(k) for k in (1, 2, 3, 2, 1, 2, 2, 3, 1, 2, 2, 1)]
    for r in w:
        S.assume(S.gt(ssum(r), 0))
        if not S.sym:
            S.assume(S.gt(ssum(r), 1e-3))
    N = S.num(100)
    _, st = run_pyro(S, lambda: m.hierarchical_likelihood(S.j(w), S.j(wi), 100, 2, S.num(1), reconstruct_rate=False), {})
    ok = True
    for r in w:
        n = S.div(ssum(r) * ssum(r), ssum([v * v for v in r]))
        if not S.sym:
            S.assume(S.gt(S.abs(n - 2), 1e-3))
        ok = S.test_lt(S.num(2), n) and ok
    v = st["log_likelihood"].value
    if ok:
        S.prove_eq("log likelihood", v, ssum([S.log(ssum(r) / 4) for r in w]) - 2 * S.log(S.div(ssum(wi), N)))
    else:
        S.prove_lt("rejected", v, BIG)


@harness()
def marginalised_selection(S):
    c = Case(S, 1, log=bool(S.choose("log", 2)), nf=1, pad=5 if S.choose("cut", 2) else 1)
    cut = len(c.wi) == 6
    if cut:
        c.margin(c.neffs[0], 1)
        c.margin(c.neff, 4)
    _, st = c.run(reconstruct_rate=False, marginalize_selection=True, min_neff_cut=cut)
    extra = S.div(S.num(3 + c.nobs), 2 * c.neff)
    if cut:
        cut_case(S, c, st, extra)
    else:
        check_value(S, c, st, extra)


@harness()
def marginalised_two(S):
    c = Case(S, 2)
    _, st = c.run(reconstruct_rate=False, marginalize_selection=True, min_neff_cut=False)
    check_value(S, c, st, S.div(S.num(3 + c.nobs), 2 * c.neff))


@harness()
def variance_cut(S):
    nobs = S.choose("nobs", [1, 2])
    c = Case(S, nobs, log=bool(S.choose("log", 2)))
    v = nobs * nobs * c.var_sel + ssum(c.vars)
    c.margin(v, 1)
    _, st = c.run(reconstruct_rate=False, min_neff_cut=False, max_variance_cut=True)
    if S.test_le(v, S.num(1)):
        check_value(S, c, st)
    else:
        S.prove_lt("rejected", st["log_likelihood"].value, BIG)


@harness()
def option_conflict(S):
    m = S.module(A)
    a, b, c = (bool(S.choose(n, 2)) for n in ("max_variance_cut", "marginalize_selection", "min_neff_cut"))
    w = S.j([[S.num(1), S.num(2)]])
    wi = S.j([S.num(1), S.num(2)])

    def run():
        run_pyro(S, lambda: m.hierarchical_likelihood(w, wi, 10, 1, 1.0, reconstruct_rate=False, max_variance_cut=a, marginalize_selection=b, min_neff_cut=c), {})

    if a and (b or c):
        S.raises("refused", run, ValueError)
    else:
        run()
        S.prove_true("accepted", True)


@harness()
def neff_tie(S):
    """one event whose weight sits on one sample: effective size 1 = number of events, so the cut (n_eff > N) is not met"""
    m = S.module(A)
    lg = bool(S.choose("log", 2))
    w = S.real("w", -20 if lg else 0.01, 20)
    z = -float("inf") if lg else S.num(0)
    at = S.choose("at", 3)
    pe = [z] * at + [w] + [z] * (2 - at)
    one = S.num(0) if lg else S.num(1)
    _, st = run_pyro(S, lambda: m.hierarchical_likelihood(S.j([pe]), S.j([one] * 6), 1000, 1, 1.0, reconstruct_rate=False, log=lg), {})
    S.prove_lt("rejected", st["log_likelihood"].value, BIG)
    _, st = run_pyro(S, lambda: m.hierarchical_likelihood(S.j([pe]), S.j([one] * 6), 1000, 1, 1.0, reconstruct_rate=False, log=lg, min_neff_cut=False), {})
    S.prove_lt("kept without the cut", BIG, st["log_likelihood"].value)
    if not lg:
        # two equal found injections out of four: effective size 4 = 4 N, which is enough
        _, st = run_pyro(S, lambda: m.hierarchical_likelihood(S.j([[w] * 3]), S.j([one] * 2), 4, 1, 1.0, reconstruct_rate=False), {})
        S.prove_lt("enough injections", BIG, st["log_likelihood"].value)


@harness()
def degenerate(S):
    """events or injections with no weight at all: rejected, never NaN or infinite"""
    m = S.module(A)
    lg = bool(S.choose("log", 2))
    kw = [dict(min_neff_cut=False), dict(), dict(marginalize_selection=True), dict(min_neff_cut=False, max_variance_cut=True), dict(min_neff_cut=False, marginalize_selection=True)][S.choose("options", 5)]
    which = S.choose("empty", 3)
    z = -float("inf") if lg else S.num(0)
    v = S.reals("v", 4, 0 if not lg else -20, 20, lo_open=not lg)
    if not S.sym and not lg:
        S.assume(*[S.gt(x, 1e-2) for x in v])
    pe = [[z, z] if which in (0, 2) else v[:2], v[2:]]
    inj = [z, z] if which in (1, 2) else [S.num(1), S.num(2)]
    _, st = run_pyro(S, lambda: m.hierarchical_likelihood(S.j(pe), S.j(inj), 10, 2, 1.0, reconstruct_rate=False, log=lg, **kw), {})
    S.prove_finite("finite", st["log_likelihood"].value)
    S.prove_lt("rejected", st["log_likelihood"].value, BIG)


@harness()
def categorical(S):
    m = S.module(A)
    K = S.choose("subpopulations", [2, 3, 4])
    lg = bool(S.choose("log", 2))
    w = [[S.reals(f"w{k}{i}_", 2, -10, 10) if lg else S.reals(f"w{k}{i}_", 2, 0, 100, lo_open=True) for i in range(2)] for k in range(K)]
    q = [S.choose("Q0", K), S.choose("Q1", K)]
    f = S.real("f", 0, 1, lo_open=True, hi_open=True)
    fr = {2: (f, 1 - f), 3: (f, (1 - f) / 4, 3 * (1 - f) / 4), 4: (f, (1 - f) / 4, (1 - f) / 2, (1 - f) / 4)}[K]
    if not S.sym and not lg:
        S.assume(*[S.gt(x, 1e-2) for a in w for r in a for x in r])

    def values(name, *a):
        import numpy as np

        return np.array(q) if not S.sym else S.module_jnp().array(q)

    wi = [S.num(1), S.num(2), S.num(1)]
    _, st = run_pyro(
        S,
        lambda: m.hierarchical_likelihood(S.j(w), S.j([S.log(x) for x in wi] if lg else wi), 10, 2, 1.0, reconstruct_rate=False, categorical=True, pop_frac=fr, min_neff_cut=False, log=lg),
        values,
    )
    ex = (lambda x: S.exp(x)) if lg else (lambda x: x)
    own = [ssum([ex(x) for x in w[q[i]][i]]) / 2 for i in range(2)]
    S.prove_eq("own subpopulation", st["log_likelihood"].value, S.log(own[0]) + S.log(own[1]) - 2 * S.log(S.num("0.4")))
    d = st["Qs"].dist
    if S.sym:
        S.prove_true("categorical", d[0] == "Categorical")
        pr = S.elems(d[2]["probs"] if "probs" in d[2] else d[1][0])
    else:
        while hasattr(d, "base_dist"):
            d = d.base_dist
        import numpy as np

        pr = list(np.asarray(d.probs).reshape(-1, K)[0])
    for a, b in zip(pr, fr):
        S.prove_eq("fractions", a, b)
    S.prove_true("one fraction per subpopulation", len(pr) == K)
