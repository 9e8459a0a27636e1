"""C18: configuration files -> hierarchical model"""
import os
import shutil
import tempfile

from .common import Q, registry, run_pyro, stub_volume, trap

HARNESSES, harness = registry()
BOUNDS = "configurations of up to four source parameters built from the documented keys (prior / value entries scalar or list, shared distributions, two-component mixtures); 1 or 2 events with 1 or 2 posterior samples and 1 found injection; every hyperparameter value, fixed value and sample; redshift grid of 4 nodes"
OUTSIDE = "the YAML syntax itself (yaml.safe_load), a sampled redshift maximum (the grid needs a fixed one), custom Python model files beyond loading them, config options of the sampler and of the data loader"
ASSUMPTIONS = [
    "numpyro primitives are replaced by a recorder: sample returns an arbitrary value, deterministic and factor record what they are given",
    "Normal, Uniform, Categorical and MixtureGeneral of numpyro have their textbook densities",
    "the comoving volume element is an arbitrary positive function of redshift in symbolic runs (decided by C27)",
]
A, P, D = "gwinferno.pipeline.analysis", "gwinferno.pipeline.parser", "gwinferno.numpyro_distributions"
PW = "gwinferno.numpyro_distributions.Powerlaw"
NO = dict(min_neff_cut=False, posterior_predictive_check=False)


def prior(name, **kw):
    return {"prior": f"numpyro.distributions.{name}", "prior_params": kw}


def redshift(S, lamb=None, zmax=2):
    return {"model": "gwinferno.numpyro_distributions.PowerlawRedshift", "hyper_params": {"lamb": lamb or prior("Normal", loc=0.0, scale=3.0), "maximum": {"value": zmax}}}


def read(S, models):
    r = S.module(P).ConfigReader()
    r.construct_model_and_prior_dicts(models)
    return r


class Data:
    def __init__(self, S, params, nobs=1, ns=1, box=None):
        self.S, self.nobs, self.ns = S, nobs, ns
        box = box or {}
        self.pe = {}
        self.inj = {}
        for p in params:
            lo, hi = box.get(p, (Q(1, 10), 1))
            self.pe[p] = [S.reals(f"{p}_{i}_", ns, lo, hi) for i in range(nobs)]
            self.inj[p] = S.reals(f"{p}_inj", 1, lo, hi)
        self.pe["prior"] = [S.reals(f"pi_{i}_", ns, Q(1, 10), 10) for i in range(nobs)]
        self.inj["prior"] = S.reals("pi_inj", 1, Q(1, 10), 10)

    def run(self, model, values):
        S = self.S
        pe = {k: S.j(v) for k, v in self.pe.items()}
        inj = {k: S.j(v) for k, v in self.inj.items()}
        v = dict(values)
        v.setdefault("unscaled_rate", S.num(3))
        return run_pyro(S, lambda: model(pe, inj, 7, self.nobs, S.num(2)), v)[1]

    def check(self, st, dists):
        """the recorded evidences and efficiency are those of the summed log densities minus the log sampling prior"""
        S = self.S
        if self.ns == 1:
            for i in range(self.nobs):
                S.prove_eq(f"event {i}", S.at(st["logBFs"].value, i), self.total(dists, {k: v[i][0] for k, v in self.pe.items()}))
        else:
            for i in range(self.nobs):
                ws = [S.exp(self.total(dists, {k: v[i][j] for k, v in self.pe.items()})) for j in range(self.ns)]
                S.prove_eq(f"event {i}", S.exp(S.at(st["logBFs"].value, i)) * self.ns, sum(ws[1:], ws[0]))
        S.prove_eq("injections", S.log(st["detection_efficiency"].value * 7), self.total(dists, {k: v[0] for k, v in self.inj.items()}))

    def total(self, dists, s):
        S = self.S
        t = -S.log(s["prior"])
        for k, d in dists.items():
            t = t + S.elems(d(s[k]))[0]
        return t


def lp(S, dist):
    return lambda x: dist.log_prob(S.j([x]))


def sampled(S, st, expect):
    """exactly the declared priors are sampled, each from its own distribution"""
    got = {n: s for n, s in st.items() if s.kind == "sample" and n != "unscaled_rate"}
    S.prove_true("exactly the declared priors are sampled", set(got) == set(expect))
    for n, (name, kw) in expect.items():
        d = got[n].dist
        if S.sym:
            S.prove_true(f"{n} prior", d[0] == name and not d[1] and set(d[2]) == set(kw))
            for k, v in kw.items():
                S.prove_true(f"{n} {k}", len(S.elems(d[2][k])) == len(v) if isinstance(v, list) else True)
                for a, b in zip(S.elems(d[2][k]), v if isinstance(v, list) else [v]):
                    S.prove_eq(f"{n} {k}", a, b)
        else:
            S.prove_true(f"{n} prior", type(d).__name__ == name)
            for k, v in kw.items():
                for a, b in zip(S.elems(getattr(d, k)), v if isinstance(v, list) else [v]):
                    S.prove_eq(f"{n} {k}", a, b)


def zdist(S, vol, lamb, zmax, norm):
    """log density of the redshift model at its maximum (a grid node)"""

    def f(z):
        return S.j([S.log(vol(zmax)) + (lamb - 1) * S.log(S.num(1) + zmax) - S.log(norm)])

    return f


def znorm(S, st, vol, lamb, zmax):
    from symx import arr

    n = arr.Cfg.grid if S.sym else 1000
    z = [S.num(1) / 10**9 + (zmax - S.num(1) / 10**9) * i / (n - 1) for i in range(n)]
    y = [vol(v) * S.exp((lamb - 1) * S.log(1 + v)) for v in z]
    norm = trap(y, z)
    V = st["surveyed_hypervolume"].value
    S.prove_eq("surveyed volume", V * 10**9, norm * 2)
    return V * 10**9 / 2


@harness()
def three_parameters(S):
    """masses and redshift, each hyperparameter sampled or fixed"""
    vol = stub_volume(S)
    d = S.module(D)
    fixed = S.choose("fixed minimum", 2)
    vmin, vmax = S.real("vmin", 2, 3), S.real("vmax", 50, 60)
    loc, scale = S.real("loc", -3, 3), S.real("scale", 1, 3)
    a1, b, lamb = S.real("alpha", 0, 3), S.real("beta", 0, 3), S.real("lamb", -3, 3)
    low, high = S.real("low", 1, 2), S.real("high", 3, 4)
    models = {
        "mass_1": {
            "model": PW,
            "hyper_params": {
                "alpha": prior("Normal", loc=loc, scale=scale),
                "minimum": {"value": vmin} if fixed else prior("Uniform", low=low, high=high),
                "maximum": {"value": vmax},
            },
        },
        "mass_ratio": {"model": PW, "hyper_params": {"alpha": prior("Normal", loc=scale, scale=scale), "minimum": {"value": S.num(1) / 20}, "maximum": {"value": S.num(1)}}},
        "redshift": redshift(S),
    }
    r = read(S, models)
    names = ["mass_1_alpha"] + ([] if fixed else ["mass_1_minimum"]) + ["mass_ratio_alpha", "redshift_lamb"]
    S.prove_true("sampled parameters", sorted(r.sampling_params) == sorted(names))
    S.prove_true("declared parameters", sorted(r.models) == ["mass_1", "mass_ratio", "redshift"])
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **NO)
    D_ = Data(S, ["mass_1", "mass_ratio"], nobs=2, box={"mass_1": (5, 40), "mass_ratio": (Q(1, 10), Q(9, 10))})
    D_.pe["redshift"] = [[S.num(2)]] * 2
    D_.inj["redshift"] = [S.num(2)]
    st = D_.run(model, {"mass_1_alpha": a1, "mass_1_minimum": vmin, "mass_ratio_alpha": b, "redshift_lamb": lamb})
    exp = {"mass_1_alpha": ("Normal", dict(loc=loc, scale=scale)), "mass_ratio_alpha": ("Normal", dict(loc=scale, scale=scale)), "redshift_lamb": ("Normal", dict(loc=0, scale=3))}
    if not fixed:
        exp["mass_1_minimum"] = ("Uniform", dict(low=low, high=high))
    sampled(S, st, exp)
    norm = znorm(S, st, vol, lamb, S.num(2))
    D_.check(
        st,
        {
            "mass_1": lp(S, d.Powerlaw(a1, minimum=vmin, maximum=vmax)),
            "mass_ratio": lp(S, d.Powerlaw(b, minimum=S.num(1) / 20, maximum=S.num(1))),
            "redshift": zdist(S, vol, lamb, S.num(2), norm),
        },
    )
    S.prove_true("one factor", [n for n, s in st.items() if s.kind == "factor"] == ["log_likelihood"])


def zpart(S, D_, models):
    models["redshift"] = redshift(S, lamb={"value": S.num(1)})
    D_.pe["redshift"] = [[S.num(2)] * D_.ns for _ in range(D_.nobs)]
    D_.inj["redshift"] = [S.num(2)]


def zexpect(S, st, vol):
    return zdist(S, vol, S.num(1), S.num(2), znorm(S, st, vol, S.num(1), S.num(2)))


@harness()
def shared(S):
    """a shared-distribution entry makes both parameters use the same model"""
    vol = stub_volume(S)
    d = S.module(D)
    al = S.real("alpha", 0, 3)
    n = S.choose("which", 2)
    own, other = [("a_1", "a_2"), ("a_2", "a_1")][n]
    first = S.choose("redshift first", 2)
    D_ = Data(S, ["a_1", "a_2"], ns=2)
    models = {}
    if first:
        zpart(S, D_, models)
    models[own] = {"model": PW, "hyper_params": {"alpha": prior("Normal", loc=0.0, scale=1.0), "minimum": {"value": S.num(1) / 20}, "maximum": {"value": S.num(2)}}, "iid": {"shared_parameter": other}}
    if not first:
        zpart(S, D_, models)
    r = read(S, models)
    S.prove_true("both parameters modelled", sorted(r.models) == ["a_1", "a_2", "redshift"])
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **NO)
    st = D_.run(model, {f"{own}_alpha": al})
    sampled(S, st, {f"{own}_alpha": ("Normal", dict(loc=0, scale=1))})
    pl = d.Powerlaw(al, minimum=S.num(1) / 20, maximum=S.num(2))
    D_.check(st, {"a_1": lp(S, pl), "a_2": lp(S, pl), "redshift": zexpect(S, st, vol)})


@harness()
def independent(S):
    """parameters with the same family keep their own hyperparameters"""
    vol = stub_volume(S)
    d = S.module(D)
    a1, a2 = S.real("alpha1", 0, 3), S.real("alpha2", 0, 3)
    D_ = Data(S, ["a_1", "a_2"])
    models = {}
    for p in ("a_1", "a_2"):
        models[p] = {"model": PW, "hyper_params": {"alpha": prior("Normal", loc=0.0, scale=1.0), "minimum": {"value": S.num(1) / 20}, "maximum": {"value": S.num(2 if p == "a_1" else 3)}}}
    zpart(S, D_, models)
    r = read(S, models)
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **NO)
    st = D_.run(model, {"a_1_alpha": a1, "a_2_alpha": a2})
    sampled(S, st, {"a_1_alpha": ("Normal", dict(loc=0, scale=1)), "a_2_alpha": ("Normal", dict(loc=0, scale=1))})
    D_.check(
        st,
        {
            "a_1": lp(S, d.Powerlaw(a1, minimum=S.num(1) / 20, maximum=S.num(2))),
            "a_2": lp(S, d.Powerlaw(a2, minimum=S.num(1) / 20, maximum=S.num(3))),
            "redshift": zexpect(S, st, vol),
        },
    )


@harness()
def mixture(S):
    """each mixture component uses its own hyperparameters, optionally shared with a second parameter"""
    vol = stub_volume(S)
    d = S.module(D)
    iid = S.choose("shared", 2)
    al, be = S.real("alpha", 0, 3), S.real("beta", 0, 3)
    w = S.real("w", 0, 1, lo_open=True, hi_open=True)
    if not S.sym:
        S.assume(S.gt(w, 1e-3), S.lt(w, 0.999))
    ps = ["a_1", "a_2"] if iid else ["a_1"]
    D_ = Data(S, ps)
    if iid:
        al, be = S.num(1), S.num(2)
    other = S.choose("components of different types", 2)
    comp = {
        "component_1": {"model": PW, "hyper_params": {"alpha": prior("Normal", loc=0.0, scale=1.0), "minimum": {"value": S.num(1) / 20}, "maximum": {"value": S.num(2)}}},
        "component_2": {"model": PW, "hyper_params": {"maximum": {"value": S.num(3)}, "alpha": prior("Uniform", low=0.0, high=3.0), "minimum": {"value": S.num(1) / 30}}},
    }
    if other:
        comp["component_2"] = {"model": "numpyro.distributions.Uniform", "hyper_params": {"high": {"value": S.num(3)}, "low": {"value": S.num(-2)}}}
    models = {
        "a_1": {
            "model": "numpyro.distributions.MixtureGeneral",
            "mixture_dist": {"model": "numpyro.distributions.Categorical", "hyper_params": {"probs": prior("Dirichlet", concentration=[1.0, 2.0])}},
            **comp,
        }
    }
    if iid:
        models["a_1"]["iid"] = {"shared_parameter": "a_2"}
    zpart(S, D_, models)
    r = read(S, models)
    S.prove_true("declared parameters", sorted(r.models) == sorted(ps + ["redshift"]))
    names = ["a_1_mixture_dist_probs", "a_1_component_1_alpha", "a_1_component_2_alpha"][: 2 if other else 3]
    S.prove_true("sampled parameters", sorted(r.sampling_params) == sorted(names))
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **NO)
    st = D_.run(model, dict(zip(names, [S.j([w, 1 - w]), al, be])))
    pri = {names[0]: ("Dirichlet", dict(concentration=[1, 2])), names[1]: ("Normal", dict(loc=0, scale=1))}
    if not other:
        pri[names[2]] = ("Uniform", dict(low=0, high=3))
    sampled(S, st, pri)
    c1 = d.Powerlaw(al, minimum=S.num(1) / 20, maximum=S.num(2))
    c2 = d.Powerlaw(be, minimum=S.num(1) / 30, maximum=S.num(3))

    def mix(x):
        p2 = S.num("0.2") if other else S.exp(S.elems(c2.log_prob(S.j([x])))[0])
        v = w * S.exp(S.elems(c1.log_prob(S.j([x])))[0]) + (1 - w) * p2
        return S.j([S.log(v)])

    D_.check(st, {**{p: mix for p in ps}, "redshift": zexpect(S, st, vol)})


@harness()
def lists(S):
    """list entries become arrays, scalars stay scalars, nothing is sampled for fixed values"""
    v = S.reals("v", 3, -5, 5)
    x = S.real("x", -5, 5)
    l = S.reals("l", 2, -5, 5)
    r = S.module(P).ConfigReader()
    r.add_prior("p_fixed", {"value": list(v)})
    r.add_prior("p_scalar", {"value": x})
    r.add_prior("p_prior", {"prior": "numpyro.distributions.Normal", "prior_params": {"loc": list(l), "scale": S.num(2)}})
    S.prove_true("sampled", r.sampling_params == ["p_prior"] and sorted(r.priors) == ["p_fixed", "p_prior", "p_scalar"])
    S.prove_true("array", S.shape(r.priors["p_fixed"]) == (3,))
    for a, b in zip(S.elems(r.priors["p_fixed"]), v):
        S.prove_eq("fixed list", a, b)
    S.prove_eq("fixed scalar", r.priors["p_scalar"], x)
    pr = r.priors["p_prior"]
    S.prove_true("prior arrays", S.shape(pr.params["loc"]) == (2,) and sorted(pr.params) == ["loc", "scale"])
    for a, b in zip(S.elems(pr.params["loc"]), l):
        S.prove_eq("prior list", a, b)
    S.prove_eq("prior scalar", pr.params["scale"], 2)
    q = S.module(P).ConfigReader()
    S.prove_true("readers are independent", not q.priors and not q.models and not q.sampling_params)


@harness()
def repeated(S):
    """evaluating a model again uses the new hyperparameters and data only"""
    vol = stub_volume(S)
    d = S.module(D)
    a1, a2 = S.real("first", 0, 3), S.real("second", 0, 3)
    D_ = Data(S, ["a_1", "a_2"])
    models = {"a_1": {"model": PW, "hyper_params": {"alpha": prior("Normal", loc=0.0, scale=1.0), "minimum": {"value": S.num(1) / 20}, "maximum": {"value": S.num(2)}}, "iid": {"shared_parameter": "a_2"}}}
    zpart(S, D_, models)
    r = read(S, models)
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **NO)
    other = Data(S, [])
    for k in ("a_1", "a_2", "redshift"):
        other.pe[k], other.inj[k] = [[S.num(2 if k == "redshift" else Q(1, 2))]], [S.num(2 if k == "redshift" else Q(1, 2))]
    other.run(model, {"a_1_alpha": a1})
    st = D_.run(model, {"a_1_alpha": a2})
    pl = d.Powerlaw(a2, minimum=S.num(1) / 20, maximum=S.num(2))
    D_.check(st, {"a_1": lp(S, pl), "a_2": lp(S, pl), "redshift": zexpect(S, st, vol)})


@harness()
def options(S):
    """likelihood options of the configuration reach the likelihood"""
    stub_volume(S)
    o = S.choose("options", 5)
    kw = [
        dict(),
        dict(min_neff_cut=False),
        dict(min_neff_cut=False, max_variance_cut=True),
        dict(marginalize_selection=True),
        dict(posterior_predictive_check=False),
    ][o]
    D_ = Data(S, ["mass_1", "mass_ratio"], box={"mass_1": (5, 40), "mass_ratio": (Q(1, 2), Q(9, 10))})
    models = {
        "mass_1": {"model": PW, "hyper_params": {"alpha": {"value": S.num(1)}, "minimum": {"value": S.num(2)}, "maximum": {"value": S.num(59)}}},
        "mass_ratio": {"model": PW, "hyper_params": {"alpha": {"value": S.num(1)}, "minimum": {"value": S.num(1) / 20}, "maximum": {"value": S.num(1)}}},
    }
    zpart(S, D_, models)
    r = read(S, models)
    S.prove_true("nothing sampled", not r.sampling_params)
    from .common import draw_stub

    draw_stub(S, lambda k, n, p: 0)
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **kw)
    st = D_.run(model, {})
    ll = st["log_likelihood"].value
    if kw.get("min_neff_cut", True):
        S.prove_lt("one injection is too few: rejected", ll, -(10**29))
    elif kw.get("max_variance_cut"):
        # one injection out of 7: variance of the log likelihood is 6/7 - 1/7 <= 1
        S.prove_eq("variance cut not triggered", ll, st["log_l"].value)
        S.prove_true("variance cut evaluated", "variance_less_1" in st)
    else:
        S.prove_eq("no cut", ll, S.at(st["logBFs"].value, 0) - S.log(st["detection_efficiency"].value))
        S.prove_true("no variance cut", "variance_less_1" not in st)
    if kw.get("posterior_predictive_check", True):
        for p in ("mass_1", "mass_ratio", "redshift"):
            S.prove_eq(f"observed {p}", st[f"{p}_obs_event_0"].value, D_.pe[p][0][0])
            S.prove_eq(f"predicted {p}", st[f"{p}_pred_event_0"].value, D_.inj[p][0])
    else:
        S.prove_true("no draws", not any("_event_" in n for n in st))


YML = """
label: run1
outdir: out
models:
  mass_1:
    model: gwinferno.numpyro_distributions.Powerlaw
    hyper_params:
      alpha:
        prior: numpyro.distributions.Normal
        prior_params: {loc: 0.5, scale: 3.0}
      minimum: {value: 2.5}
      maximum: {value: 60.0}
    iid: {shared_parameter: mass_2}
  redshift:
    model: gwinferno.numpyro_distributions.PowerlawRedshift
    hyper_params:
      lamb: {value: 1.0}
      maximum: {value: 2.0}
sampler: {kernel: NUTS}
data: {x: 1}
likelihood: {min_neff_cut: false, posterior_predictive_check: false}
"""


@harness()
def file(S):
    """a configuration file read from disk, evaluated on arbitrary samples"""
    vol = stub_volume(S)
    d = S.module(D)
    al = S.real("alpha", 0, 3)
    tmp = tempfile.mkdtemp(prefix="c18_")
    try:
        with open(os.path.join(tmp, "c.yml"), "w") as f:
            f.write(YML)
        r = S.module(P).ConfigReader()
        r.parse(os.path.join(tmp, "c.yml"))
        with open(os.path.join(tmp, "d.yml"), "w") as f:
            f.write("models: {python_file: some/model.py}\n")
        r2 = S.module(P).ConfigReader()
        r2.parse(os.path.join(tmp, "d.yml"))
    finally:
        shutil.rmtree(tmp)
    S.prove_true("labels", r.label == "run1" and r.outdir == "out" and r.sampler_conf == {"kernel": "NUTS"} and r.data_conf == {"x": 1})
    S.prove_true("likelihood options", r.likelihood_kwargs == NO)
    S.prove_true("defaults", r2.label == "label" and r2.outdir == "./" and r2.sampler_conf == {} and r2.data_conf == {} and r2.likelihood_kwargs == {})
    S.prove_true("python file", r2.models == {"file_path": "some/model.py"} and not r2.priors)
    model = S.module(A).construct_hierarchical_model(r.models, r.priors, **r.likelihood_kwargs)
    D_ = Data(S, ["mass_1", "mass_2"], box={"mass_1": (5, 40), "mass_2": (5, 40)})
    D_.pe["redshift"], D_.inj["redshift"] = [[S.num(2)]], [S.num(2)]
    st = D_.run(model, {"mass_1_alpha": al})
    half = S.num(1) / 2
    sampled(S, st, {"mass_1_alpha": ("Normal", dict(loc=half, scale=3))})
    pl = d.Powerlaw(al, minimum=half * 5, maximum=S.num(60))
    D_.check(st, {"mass_1": lp(S, pl), "mass_2": lp(S, pl), "redshift": zexpect(S, st, vol)})
