"""C30: component spins -> effective spins"""
import numpy as np

from .common import Q, registry, subset_stub

HARNESSES, harness = registry()
BOUNDS = "posterior arrays of 1 or 2 events x 1 or 2 samples and injection arrays of 1 to 3 entries, every mass ratio, spin magnitude, tilt and prior value; the effective-spin densities are arbitrary positive functions of their arguments"
OUTSIDE = "the effective-spin densities themselves (C22 to C24, C31); larger arrays"
ASSUMPTIONS = ["xarray stores, selects and concatenates by label (executed as is)", "the sampling prior of the component spins is uniform in magnitude up to one and isotropic, as the effective-spin densities assume"]
M = "gwinferno.preprocess.data_collection"
PR = "gwinferno.preprocess.priors"
COLS = ["mass_1", "mass_2", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2", "prior"]


def stub_priors(S):
    """densities keyed by all their arguments; record the maximum spin they are asked for"""
    amax = []
    from math import exp, sin

    def dens(name, *x):
        if S.sym:
            from symx import terms as tm

            t = tm.tuf(name + "0", x[0])
            for i, v in enumerate(x[1:]):
                t = t + tm.tuf(f"{name}{i + 1}", v) * (i + 2)
            return tm.texp(t)
        return exp(sum((i + 1) * sin(3 * float(v) + i) for i, v in enumerate(x)))

    def chieff(chi_eff, q, a_max=1.0):
        amax.append(a_max)
        c, qq = np.broadcast_arrays(obj(chi_eff), obj(q))
        c, qq = np.atleast_1d(c), np.atleast_1d(qq)
        return wrap([dens("eff", a, b) for a, b in zip(c.ravel(), qq.ravel())], c.shape)

    def joint(chi_p, chi_eff, q, a_max=1.0, **k):
        amax.append(a_max)
        p, c, qq = np.broadcast_arrays(obj(chi_p), obj(chi_eff), obj(q))
        p, c, qq = np.atleast_1d(p), np.atleast_1d(c), np.atleast_1d(qq)
        return wrap([dens("joint", a, b, d) for a, b, d in zip(p.ravel(), c.ravel(), qq.ravel())], c.shape)

    def obj(x):
        if S.sym:
            from symx import arr

            return arr.to_obj(arr.coerce(x)).view(np.ndarray)
        return np.asarray(x, dtype=float)

    def wrap(vals, shape):
        if S.sym:
            return S.n(vals).reshape(shape)
        return np.array(vals).reshape(shape)

    for m in (S.module(M), S.module(PR)):
        for nm, fn in (("chi_effective_prior_from_isotropic_spins", chieff), ("joint_prior_from_isotropic_spins", joint)):
            if hasattr(m, nm):
                S.patch(m, nm, fn)
    return dens, amax


def sample(S, tag, free):
    box = dict(mass_ratio=(Q(1, 10), 1), a_1=(0, 1), a_2=(0, 1), cos_tilt_1=(-1, 1), cos_tilt_2=(-1, 1), prior=(Q(1, 100), 10), mass_1=(5, 50), mass_2=(5, 50), redshift=(0, 2))
    const = dict(mass_ratio=Q(1, 2), a_1=Q(1, 3), a_2=Q(2, 5), cos_tilt_1=Q(1, 4), cos_tilt_2=Q(-1, 2), prior=Q(3, 7), mass_1=Q(30), mass_2=Q(15), redshift=Q(1, 5))
    return {p: (S.real(f"{tag}_{p}", *box[p]) if free else S.num(const[p] * Q(10 + len(tag), 12))) for p in COLS}


def block(S, rows):
    """rows[event][sample] -> array (event, param, sample)"""
    a = np.empty((len(rows), len(COLS), len(rows[0])), dtype=object if S.sym else float)
    for i, r in enumerate(rows):
        for k, s in enumerate(r):
            for j, p in enumerate(COLS):
                a[i, j, k] = s[p]
    return a


def chieff(S, s):
    q = s["mass_ratio"]
    return S.div(s["a_1"] * s["cos_tilt_1"] + q * s["a_2"] * s["cos_tilt_2"], 1 + q)


def chip(S, s):
    q = s["mass_ratio"]
    p1 = s["a_1"] * S.sqrt(1 - s["cos_tilt_1"] * s["cos_tilt_1"])
    p2 = S.div(4 * q + 3, 4 + 3 * q) * q * s["a_2"] * S.sqrt(1 - s["cos_tilt_2"] * s["cos_tilt_2"])
    return S.max(p1, p2)


def check(S, g, s, dens, chi_p, old):
    S.prove_eq("effective spin", g["chi_eff"], chieff(S, s))
    for p in COLS[:-1]:
        S.prove_eq(f"{p} unchanged", g[p], s[p])
    if chi_p:
        S.prove_eq("effective precession", g["chi_p"], chip(S, s))
        # the density is asked for at the reported values
        S.prove_eq("prior", g["prior"], s["prior"] * old * dens("joint", g["chi_p"], g["chi_eff"], s["mass_ratio"]))
    else:
        S.prove_eq("prior", g["prior"], s["prior"] * old * dens("eff", g["chi_eff"], s["mass_ratio"]))


def params(S, chi_p, comp):
    return ["mass_1", "mass_ratio", "redshift", "chi_eff"] + (["chi_p"] if chi_p else []) + (["a_1", "a_2", "cos_tilt_1", "cos_tilt_2"] if comp else [])


@harness()
def posterior(S):
    dens, amax = stub_priors(S)
    chi_p = bool(S.choose("precession", 2))
    comp = bool(S.choose("component spins requested", 2))
    ne, ns = S.choose("layout", [(1, 1), (1, 2), (2, 1), (2, 2), (2, 3)])
    fe, fs = S.choose("free", [(0, 0), (ne - 1, ns - 1)]) if ne * ns > 1 else (0, 0)
    rows = [[sample(S, f"e{'x' * i}s{'y' * k * 2}", (i, k) == (fe, fs)) for k in range(ns)] for i in range(ne)]
    import xarray as xr

    ev = [f"GW{i}" for i in range(ne)]
    d = xr.DataArray(block(S, rows), dims=["event", "param", "samples"], coords={"event": ev, "param": COLS, "samples": np.arange(ns)})
    before = d.values.copy()
    out = S.module(M).convert_component_spins_to_chieff(d, params(S, chi_p, comp))
    S.prove_true("columns", sorted(out.param.values) == sorted(COLS + ["chi_eff"] + (["chi_p"] if chi_p else [])))
    S.prove_true("layout", out.sizes["event"] == ne and out.sizes["samples"] == ns and list(out.event.values) == ev)
    S.prove_true("unit maximum spin", all(float(a) == 1 for a in amax))
    for i in range(ne):
        for k in range(ns):
            g = {p: out.sel(event=ev[i], param=p, samples=k).values.item() for p in out.param.values}
            check(S, g, rows[i][k], dens, chi_p, 4 if comp else 1)
    for x, y in zip(before.ravel(), d.values.ravel()):
        S.prove_eq("input unchanged", x, y)


@harness()
def injections(S):
    dens, amax = stub_priors(S)
    chi_p = bool(S.choose("precession", 2))
    n = S.choose("injections", [1, 2, 3])
    fi = S.choose("free", n)
    rows = [sample(S, "i" + "x" * k, k == fi) for k in range(n)]
    import xarray as xr

    d = xr.DataArray(block(S, [rows])[0], dims=["param", "injection"], coords={"param": COLS, "injection": np.arange(n)}, attrs={"total_generated": 7, "analysis_time": 2})
    out = S.module(M).convert_component_spins_to_chieff(d, params(S, chi_p, False), injections=True)
    S.prove_true("columns", sorted(out.param.values) == sorted(COLS + ["chi_eff"] + (["chi_p"] if chi_p else [])))
    S.prove_true("layout", out.sizes["injection"] == n)
    S.prove_true("attributes kept", dict(out.attrs) == {"total_generated": 7, "analysis_time": 2})
    S.prove_true("unit maximum spin", all(float(a) == 1 for a in amax))
    for k in range(n):
        g = {p: out.sel(param=p, injection=k).values.item() for p in out.param.values}
        check(S, g, rows[k], dens, chi_p, 4)


@harness()
def dataset_posterior(S):
    """loading posterior samples with effective spins: requested columns only, whole prior"""
    from .C26 import MAP, PARAMS, grid_prior, stub_cosmo
    from .common import record

    f = stub_cosmo(S)
    dens, amax = stub_priors(S)
    chi_p = bool(S.choose("precession", 2))
    m2 = bool(S.choose("secondary mass", 2))
    lst = ["mass_1", "mass_2" if m2 else "mass_ratio", "redshift", "chi_eff"] + (["chi_p"] if chi_p else [])
    s = sample(S, "e", True)
    s["redshift"] = S.num(Q(1, 5))
    m = S.module(M)
    S.patch(m, "unprocessed_catalog_dict_from_metadata", lambda meta: {"GW1": {"posterior": record(S, {MAP[p]: [s[p]] for p in PARAMS}), "redshift_prior": "comoving", "catalog": "GWTC-3"}})
    subset_stub(S, lambda k, n, size: list(range(size)))
    out = m.load_posterior_dataset(maximum_mass=S.num(100), catalog_metadata={"GW1": {}}, param_names=list(lst))["posteriors"]
    S.prove_true("columns", sorted(out.param.values) == sorted(lst + ["prior"]))
    g = {p: out.sel(event="GW1", param=p, samples=0).values.item() for p in out.param.values}
    z = s["redshift"]
    w = grid_prior(S, f, None, "comoving")(z) * (1 + z) * (1 + z)
    if not m2:
        w = w * s["mass_1"]
    w = w * (dens("joint", chip(S, s), chieff(S, s), s["mass_ratio"]) if chi_p else dens("eff", chieff(S, s), s["mass_ratio"]))
    S.prove_eq("effective spin", g["chi_eff"], chieff(S, s))
    S.prove_eq("mass", g["mass_1"], s["mass_1"])
    S.prove_eq("prior", g["prior"], w)


@harness()
def dataset_injections(S):
    """loading injections with effective spins: requested columns, prior density and attributes"""
    from .C25 import attr, un, with_file

    dens, amax = stub_priors(S)
    o4a = S.choose("o4a", 2)
    m2 = bool(S.choose("secondary mass", 2))
    lst = ["mass_1", "mass_2" if m2 else "mass_ratio", "redshift", "chi_eff"]
    m1, ms, z = S.real("m1", 10, 80), S.real("m2", 2, 10), S.real("z", 0, 2)
    sx = {f"spin{i}{c}": S.num(Q(v, 10)) for i, vs in ((1, (1, -2, 2)), (2, (2, 4, -4))) for c, v in zip("xyz", vs)}
    s = {"mass_ratio": S.div(ms, m1), "a_1": S.num(Q(3, 10)), "a_2": S.num(Q(6, 10)), "cos_tilt_1": S.num(Q(2, 3)), "cos_tilt_2": S.num(Q(-2, 3))}
    cols = {"mass1_source": [m1], "mass2_source": [ms], "redshift": [z], **{k: [v] for k, v in sx.items()}}
    pdf = S.real("pdf", Q(1, 100), 10)
    f = lambda p: S.module(M).load_injection_dataset(p, list(lst), through_o4a=bool(o4a), through_o3=not o4a)  # noqa
    if o4a:
        from .C25 import LN

        cols.update({"semianalytic_observed_phase_maximized_snr_net": [S.num(12)], "weights": [S.div(S.num(1), pdf)], LN: [S.num(0)]})
        out = with_file(S, None, {"analysis_time": attr(S, S.num(10)), "total_generated": attr(S, S.num(100))}, None, f, struct=cols)
    else:
        cols.update({"ifar": [S.num(2)], "sampling_pdf": [pdf]})
        out = with_file(S, cols, {"analysis_time": attr(S, S.num(10))}, {"total_generated": attr(S, S.num(100))}, f)
    S.prove_true("columns", sorted(out.param.values) == sorted(lst + ["prior"]))
    S.prove_eq("total generated", S.elems(un(out.attrs["total_generated"]))[0], 100)
    a = out["injections"]
    g = {p: a.sel(param=p, injection=0).values.item() for p in a.param.values}
    ce = chieff(S, s)
    S.prove_eq("effective spin", g["chi_eff"], ce)
    jac = (2 * S.pi) * (2 * S.pi) * (Q(9, 100) * Q(36, 100) if S.sym else 0.09 * 0.36)
    w = pdf * jac * 4 * dens("eff", ce, s["mass_ratio"])
    if not m2:
        w = w * m1
    S.prove_eq("prior", g["prior"], w)
