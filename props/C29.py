"""C29: dataset and set-up helpers"""
import os
import shutil
import tempfile

import numpy as np

from .common import Q, registry, stub_volume

HARNESSES, harness = registry()
BOUNDS = "1 to 3 events of 2 posterior samples and 2 injections of 2 parameters with all values free, every exclusion list over the events (with repeated and unknown names); models of 4 and 5 basis functions with one free posterior sample and one free injection per parameter; exports of up to 2 draws, 3 dimensions, 2 subpopulations and 2 grid nodes"
OUTSIDE = "the netCDF container (an object holding the same datasets stands in for it during symbolic execution; replays write and read a file); exclusion of every event; larger data"
ASSUMPTIONS = ["arviz reads back the datasets that were written", "xarray selects and stores by label (executed as is)", "the package's own models are the reference for the wiring (decided by C03, C10, C12, C17)"]
U = "gwinferno.pipeline.utils"
B = "gwinferno.models.bsplines.single"
NAMES = ["GW150914", "GW151012", "GW151226"]


class Data:
    pass


def raw(x):
    return np.asarray(getattr(x, "values", x))


@harness()
def loading(S):
    """every parameter of the events that are not excluded, all injections and constants"""
    import xarray as xr

    n = S.choose("events", [1, 2, 3])
    lists = [None, [], ["GW170817"]] + [[e] for e in NAMES[:n]]
    if n > 1:
        lists += [[NAMES[0], NAMES[1]], [NAMES[1], NAMES[1]], [NAMES[1], "GW170817"]]
    if n > 2:
        lists += [[NAMES[2], NAMES[0]]]
    ign = S.choose("excluded", lists)
    kept = [i for i in range(n) if not ign or NAMES[i] not in ign]
    if not kept:
        S.skip()
    par = S.choose("parameter order", [["mass_1", "prior"], ["prior", "mass_1"]])
    tot, tm_ = S.real("total", 1, 10**6), S.real("time", Q(1, 10), 10)
    v = {p: [S.reals(f"{p}_{e}_", 2, 1, 100) for e in range(n)] for p in par}
    w = {p: S.reals(f"inj_{p}_", 3, 1, 100) for p in par}
    dt = object if S.sym else float
    pe, inj = np.empty((n, 2, 2), dtype=dt), np.empty((2, 3), dtype=dt)
    for k, p in enumerate(par):
        for e in range(n):
            pe[e, k] = v[p][e]
        inj[k] = w[p]
    pds = xr.DataArray(pe, dims=["event", "param", "samples"], coords={"event": NAMES[:n], "param": par, "samples": [0, 1]}).to_dataset(name="posteriors")
    ids = xr.DataArray(inj, dims=["param", "injection"], coords={"param": par, "injection": [0, 1, 2]}).to_dataset(name="injections")
    ids.attrs = {"total_generated": tot, "analysis_time": tm_}
    u = S.module(U)
    if S.sym:
        d = Data()
        d.pe_data, d.inj_data = pds, ids
        S.patch(u.az, "from_netcdf", lambda f, *a, **k: d)
        out = u.load_pe_and_injections_as_dict("catalogue.h5", ignore=ign)
    else:
        t = tempfile.mkdtemp()
        try:
            f = os.path.join(t, "catalogue.h5")
            S.module("gwinferno.preprocess.data_collection").save_posterior_samples_and_injection_datasets_as_idata(f, pds, ids)
            out = u.load_pe_and_injections_as_dict(f, ignore=ign)
        finally:
            shutil.rmtree(t)
    P, J, C, names = out
    S.prove_true("parameter names", sorted(map(str, names)) == sorted(par) and len(names) == 2)
    S.prove_true("posterior parameters", sorted(map(str, P)) == sorted(par))
    S.prove_true("injection parameters", sorted(map(str, J)) == sorted(par))
    for p in par:
        S.prove_true("one row per remaining event", tuple(S.shape(P[p])) == (len(kept), 2))
        for r, e in enumerate(kept):
            for k in range(2):
                S.prove_eq(f"{p} of the remaining event", S.at(P[p], r, k), v[p][e][k])
        S.prove_eq(f"{p} of the injections", J[p], S.j(w[p]))
    S.prove_eq("number of observations", C["nObs"], len(kept))
    S.prove_eq("number of generated injections", C["total_inj"], tot)
    S.prove_eq("observing time", C["obs_time"], tm_)


def samples(S, box, free):
    """posterior (1 x 2) and injection (2) samples of every parameter; different in every parameter, free for one of them"""
    pe, inj = {}, {}
    for i, (p, (lo, hi)) in enumerate(box.items()):
        f = [lo + (hi - lo) * Q(3 * i + j + 1, 20) for j in range(4)]
        f = [S.num(x) for x in f]
        if p == free:
            f[1], f[2] = S.real("pe " + p, lo, hi), S.real("injected " + p, lo, hi)
        pe[p], inj[p] = f[:2], f[2:]
    return pe, inj


def dicts(S, pe, inj):
    return {k: S.j(v).reshape(1, 2) for k, v in pe.items()}, {k: S.j(v) for k, v in inj.items()}


def both(S, what, model, ref, args, shape=True):
    """the model's density over the posterior and injection samples is the product of the reference densities"""
    for flag in (True, False):
        got = model(*args, pe_samples=flag)
        if flag and shape:
            S.prove_true("posterior layout", tuple(S.shape(got)) == (1, 2))
        exp = None
        for m, c in ref:
            e = S.elems(m(c, pe_samples=flag))
            exp = e if exp is None else [a * b for a, b in zip(exp, e)]
        g = S.elems(got)
        S.prove_true("one value per sample", len(g) == len(exp))
        for k, (a, b) in enumerate(zip(g, exp)):
            S.prove_eq(f"{what} of the {'posterior' if flag else 'injection'} samples", a, b)


def fixed(S, n, k):
    """coefficients that no other basis count, order or parameter shares"""
    return S.j([S.num(Q((7 * k + 5 * i * i + 3 * i) % 11 - 5, 7)) for i in range(n)])


@harness()
def mass_models(S):
    mn, mx, nm, nq = S.choose("range and sizes", [(5, 80, 4, 5), (3, 100, 5, 4)])
    box = {"mass_1": (mn, mx), "mass_ratio": (Q(mn, mx), 1), "redshift": (0, 1)}
    pe, inj = samples(S, box, S.choose("free", ["mass_1", "mass_ratio"]))
    P, J = dicts(S, pe, inj)
    M = S.module(U).setup_bspline_mass_models(P, J, nm, nq, mn, mx)
    b = S.module(B)
    it = S.module("gwinferno.interpolation")
    cm, cq = fixed(S, nm, 1), fixed(S, nq, 2)
    ref = [(b.BSplineMass(nm, P["mass_1"], J["mass_1"], mmin=mn, mmax=mx, basis=it.LogXLogYBSpline), cm), (b.BSplineRatio(nq, P["mass_ratio"], J["mass_ratio"], qmin=mn / mx, basis=it.LogYBSpline), cq)]
    both(S, "joint mass density", M, ref, (cm, cq))


SPIN = {"a_1": (0, 1), "a_2": (0, 1), "cos_tilt_1": (-1, 1), "cos_tilt_2": (-1, 1)}


@harness()
def spin_models(S):
    iid = S.choose("identical", [False, True])
    free = S.choose("free", list(SPIN))
    P, J = dicts(S, *samples(S, SPIN, free))
    b = S.module(B)
    u = S.module(U)
    n = dict(a1=4, ct1=5, a2=5, ct2=4)
    if iid:
        n["a2"], n["ct2"] = n["a1"], n["ct1"]
        mag, tilt = u.setup_bspline_spin_models(P, J, n["a1"], n["ct1"], IID=True)
    else:
        mag, tilt = u.setup_bspline_spin_models(P, J, n["a1"], n["ct1"], a2_nsplines=n["a2"], ct2_nsplines=n["ct2"])
    c = {k: fixed(S, v, i + 1 if not iid else i % 2) for i, (k, v) in enumerate(n.items())}
    for what, model, cls, p, s in (("spin magnitude density", mag, b.BSplineSpinMagnitude, "a", "a_"), ("tilt density", tilt, b.BSplineSpinTilt, "ct", "cos_tilt_")):
        ref = [(cls(n[p + i], P[s + i], J[s + i], normalize=True), c[p + i]) for i in "12"]
        both(S, what, model, ref, (c[p + "1"],) if iid else (c[p + "1"], c[p + "2"]))


@harness()
def redshift_model(S):
    stub_volume(S)
    n = S.choose("size", [4, 5])
    pe, inj = [S.num("0.02"), S.num("0.7"), S.num("1.9")], [S.num("0.03"), S.num("0.4"), S.num("1.8")]
    (pe if S.choose("free", ["posterior", "injection"]) == "posterior" else inj)[1] = S.real("z", Q(1, 10), Q(3, 2))
    P = {"mass_1": S.j([S.num(7), S.num(9), S.num(8)]).reshape(1, 3), "redshift": S.j(pe).reshape(1, 3)}
    J = {"mass_1": S.j([S.num(6), S.num(5), S.num(11)]), "redshift": S.j(inj)}
    u = S.module(U)
    M = u.setup_powerlaw_spline_redshift_model(P, J, n)
    R = S.module("gwinferno.models.spline_perturbation").PowerlawSplineRedshiftModel(n, P["redshift"], J["redshift"])
    la, c = S.num(Q(3, 2)), fixed(S, n, 1)
    for z in (P["redshift"], J["redshift"]):
        S.prove_eq("redshift density", M(z, la, c), R(z, la, c))


@harness()
def export_posterior(S):
    n = S.choose("draws", [1, 2])
    a, b, c = S.reals("rate", n, 0, 10), [S.reals(f"cs{i}_", 3, -5, 5) for i in range(n)], [[S.reals(f"m{i}{j}_", 2, -5, 5) for j in range(2)] for i in range(n)]
    d = {"rate": S.n(a), "mass_cs": S.n(b), "matrix": S.n(c), "one": S.n([[x] for x in a])}
    before = dict(d)
    snap = {k: S.snapshot(v) for k, v in d.items()}
    out = S.module(U).posterior_dict_to_xarray(d)
    S.prove_true("the caller's dictionary is unchanged", list(d) == list(before) and all(d[k] is before[k] for k in before))
    for k in before:
        S.prove_same(f"the caller's {k} is unchanged", snap[k], before[k])
    S.prove_true("every variable under its own name", sorted(map(str, out.data_vars)) == sorted(before))
    for k, v in before.items():
        S.prove_true("first dimension is the draw", out[k].dims[0] == "draw" and tuple(out[k].shape) == tuple(S.shape(v)))
        S.prove_true("other dimensions belong to the variable", len(set(out[k].dims)) == len(out[k].dims) and not any(set(out[k].dims[1:]) & set(out[j].dims) for j in before if j != k))
        S.prove_eq(f"values of {k}", S.n(raw(out[k])), S.n(v))


@harness()
def export_curves(S):
    n = S.choose("draws", [1, 2])
    subs = S.choose("subpopulations", [None, ["low"], ["low", "high"]])
    order = S.choose("redshift position", ["first", "last"])
    keys = S.choose("curves", [["mass_1", "a_1"], ["mass_ratio", "cos_tilt_2"], ["rho", "x_redshift"]])
    keys = ["redshift"] + keys if order == "first" else keys + ["redshift"]
    grid = {k: S.reals(f"grid {k} ", 2 + i, 0, 10) for i, k in enumerate(keys)}

    def curve(k, s=""):
        return [S.reals(f"{k}{s}_{i}_", len(grid[k]), 0, 5) for i in range(n)]

    val = {}
    for k in keys:
        if subs is None or k == "redshift":
            val[k] = curve(k)
        else:
            val[k] = [curve(k, s) for s in subs]
    d = {k: S.n(v) if subs is None or k == "redshift" else [S.n(x) for x in v] for k, v in val.items()}
    g = {k: S.n(v) for k, v in grid.items()}
    bd, bg = dict(d), dict(g)
    out = S.module(U).pdf_dict_to_xarray(d, g, n, **({} if subs is None else {"subpop_names": subs}))
    S.prove_true("the caller's curves are unchanged", list(d) == list(bd) and all(d[k] is bd[k] for k in bd))
    S.prove_true("the caller's grids are unchanged", list(g) == list(bg) and all(g[k] is bg[k] for k in bg))
    exp = {}
    for k in keys:
        if subs is None or k == "redshift":
            exp[f"{k}_pdfs"] = (k, val[k])
        else:
            for s, v in zip(subs, val[k]):
                exp[f"{s}_{k}_pdfs"] = (k, v)
    S.prove_true("every curve under its own name", sorted(map(str, out.data_vars)) == sorted(exp))
    for nm, (k, v) in exp.items():
        if nm in out:
            S.prove_true("dimensions", tuple(out[nm].dims) == ("draw", k))
            S.prove_eq(f"values of {nm}", S.n(raw(out[nm])), S.n(v))
    for k in keys:
        S.prove_eq(f"grid of {k}", S.n(raw(out.coords[k])), S.n(grid[k]))
    S.prove_true("draws are numbered", [int(x) for x in raw(out.coords["draw"])] == list(range(n)))
