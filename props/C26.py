"""C26: posterior catalogues"""
import itertools
import json
import os
import shutil
import tempfile

import numpy as np

from .common import Q, record, registry, subset_stub, trap

HARNESSES, harness = registry()
BOUNDS = "1 or 2 events with 1 to 3 posterior samples, all sample values, mass limits, parameter lists and prior types, every possible down-sampling; redshift grid of 4 nodes; the cosmological functions are arbitrary positive functions of redshift"
OUTSIDE = "the HDF5 container; more than 10000 samples per event (the hard-coded cap); catalogues in which no sample of an event survives the mass limit"
ASSUMPTIONS = ["xarray stores, selects and concatenates by label (executed as is)", "h5py returns what was written", "numpy's choice without replacement returns distinct positions"]
M = "gwinferno.preprocess.data_collection"
MAP = dict(mass_1="mass_1_source", mass_2="mass_2_source", mass_ratio="mass_ratio", redshift="redshift", a_1="a_1", a_2="a_2", cos_tilt_1="cos_tilt_1", cos_tilt_2="cos_tilt_2")
PARAMS = list(MAP)


def vals(x):
    return np.asarray(x.values)


def stub_cosmo(S):
    """distances and volume element: arbitrary positive functions in symbolic runs"""
    c = S.module("gwinferno.cosmology")
    if not S.sym:
        k = c.PLANCK_2015_LVK_Cosmology
        e = lambda f: lambda z: S.elems(f(S.j([z])))[0]  # noqa
        return {"DL": e(k.z2DL), "z": e(k.DL2z), "dD": e(k.dDcdz), "dV": e(k.dVcdz)}
    from symx import arr, terms as tm

    def fn(name):
        return lambda z, ho=c.PLANCK_2015_LVK_Cosmology.Ho: tm.texp(tm.tuf(f"ln{name}{ho}", z))

    out = {}
    for nm, meth in (("DL", "z2DL"), ("z", "DL2z"), ("dD", "dDcdz"), ("dV", "dVcdz"), ("Dc", "z2Dc")):
        f = fn(nm)
        out[nm] = f
        S.patch(c.Cosmology, meth, (lambda f: lambda self, z, *a, **k: S.j(arr.map1(lambda v: f(v, self.Ho), arr.to_obj(arr.coerce(z)))))(f))
    return out


def event(S, e, n, free=PARAMS):
    cols = {}
    box = dict(mass_1=(1, 200), mass_2=(1, 50), mass_ratio=(Q(1, 20), 1), redshift=(0, 2), a_1=(0, 1), a_2=(0, 1), cos_tilt_1=(-1, 1), cos_tilt_2=(-1, 1))
    for k, p in enumerate(PARAMS):
        if p in free:
            cols[MAP[p]] = S.reals(f"{e}_{p}_", n, *box[p])
        else:
            cols[MAP[p]] = [S.num(Q(3 * k + i + 1, 40)) for i in range(n)]
    return cols


def picker(S):
    def pick(k, n, size):
        ps = list(itertools.permutations(range(n), size))
        i = S.choose(f"draw {k}", len(ps)) if len(ps) > 1 else 0
        picks.append(ps[i])
        return list(ps[i])

    picks = []
    return pick, picks


@harness()
def processing(S):
    """over-mass samples are removed, the rest keep their parameters together, all events have the same count"""
    ns = S.choose("samples", [(1, 1), (2, 1), (2, 2), (3, 1)])
    mmax = S.real("mmax", 50, 150)
    names = ["GW1", "GW2"]
    ev = {e: event(S, e, n, ["mass_1", "mass_2"] if n < 3 else ["mass_1"]) for e, n in zip(names, ns)}
    pick, picks = picker(S)
    calls = subset_stub(S, pick)
    cat = {e: {"posterior": record(S, ev[e]), "redshift_prior": ["euclidean", "comoving"][i], "catalog": "GWTC-3"} for i, e in enumerate(names)}
    keep = {e: [i for i in range(len(ev[e]["redshift"])) if S.test_le(ev[e]["mass_1_source"][i], mmax)] for e in names}
    if not all(keep.values()):
        S.skip()
    out = S.module(M).processed_catalog_dataset_from_dict(cat, mmax=mmax)
    m = min(len(v) for v in keep.values())
    S.prove_true("events", list(out.data_vars) == names)
    S.prove_true("parameters", list(out.param.values) == PARAMS)
    S.prove_true("common number of samples", out.sizes["samples"] == m)
    S.prove_true("samples are numbered", list(out.samples.values) == list(range(m)))
    S.prove_true("drawn without replacement", all(not c[2] for c in calls))
    for i, e in enumerate(names):
        S.prove_true("attributes", out[e].attrs["redshift_prior"] == ["euclidean", "comoving"][i] and out[e].attrs["catalog"] == "GWTC-3")
        a = vals(out[e].transpose("param", "samples"))
        S.prove_true("shape", a.shape == (len(PARAMS), m))
        used = []
        for k in range(m):
            src = marker(S, a[PARAMS.index("redshift"), k], ev[e]["redshift"])
            S.prove_true("a surviving sample of this event", src in keep[e])
            used.append(src)
            if src is None:
                continue
            for p in PARAMS:
                S.prove_eq(f"{p} of the same sample", a[PARAMS.index(p), k], ev[e][MAP[p]][src])
        S.prove_true("no sample twice", len(set(used)) == len(used))


def marker(S, v, col):
    for i, c in enumerate(col):
        if abs(float(v) - float(c)) < 1e-6:
            return i
    return None


@harness()
def gwtc1(S):
    """GWTC-1 files: detector-frame masses and luminosity distance become source-frame masses and redshift"""
    f = stub_cosmo(S)
    n = S.choose("samples", [1, 2])
    mmax = S.num(100) if n == 1 else S.real("mmax", 50, 150)
    cols = {"luminosity_distance_Mpc": S.reals("DL", n, 100, 3000), "m1_detector_frame_Msun": S.reals("m1", n, 10, 300), "m2_detector_frame_Msun": S.reals("m2", n, 5, 20)}
    for k, p in enumerate(["spin1", "spin2", "costilt1", "costilt2"]):
        cols[p] = [S.num(Q(4 * k + i + 1, 20)) for i in range(n)]
    z = [f["z"](v) for v in cols["luminosity_distance_Mpc"]]
    m1 = [S.div(cols["m1_detector_frame_Msun"][i], 1 + z[i]) for i in range(n)]
    keep = [i for i in range(n) if S.test_le(m1[i], mmax)]
    if not keep:
        S.skip()
    pick, picks = picker(S)
    subset_stub(S, pick)
    out = S.module(M).processed_catalog_dataset_from_dict({"GW0": {"posterior": record(S, cols), "redshift_prior": "euclidean", "catalog": "GWTC-1"}}, mmax=mmax)
    a = vals(out["GW0"].transpose("param", "samples"))
    S.prove_true("shape", a.shape == (len(PARAMS), len(keep)) and list(out.param.values) == PARAMS)
    if a.shape != (len(PARAMS), len(keep)):
        return
    for k in range(len(keep)):
        i = marker(S, a[PARAMS.index("a_1"), k], cols["spin1"])
        S.prove_true("a surviving sample", i in keep)
        if i is None:
            continue
        g = dict(zip(PARAMS, a[:, k]))
        S.prove_eq("redshift", g["redshift"], z[i])
        S.prove_eq("primary mass", g["mass_1"], m1[i])
        S.prove_eq("secondary mass", g["mass_2"] * (1 + z[i]), cols["m2_detector_frame_Msun"][i])
        S.prove_eq("mass ratio", g["mass_ratio"] * cols["m1_detector_frame_Msun"][i], cols["m2_detector_frame_Msun"][i])
        S.prove_eq("spins", S.n([g["a_1"], g["a_2"], g["cos_tilt_1"], g["cos_tilt_2"]]), S.n([cols[p][i] for p in ("spin1", "spin2", "costilt1", "costilt2")]))


@harness()
def redshift_prior(S):
    f = stub_cosmo(S)
    z = S.real("z", 0, 3)
    m = S.module(M)
    S.prove_eq("comoving", S.elems(m.dl_2_prior_on_z(S.j([z])))[0] * (1 + z), f["dV"](z))
    d = f["DL"](z)
    S.prove_eq("euclidean", S.elems(m.dl_2_prior_on_z(S.j([z]), euclidean=True))[0], d * d * (S.div(d, 1 + z) + (1 + z) * f["dD"](z)))


LISTS = [
    ["mass_1", "mass_ratio", "redshift"],
    ["mass_1", "mass_2", "redshift"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["mass_1", "mass_ratio"],
    ["redshift"],
    ["a_1", "a_2"],
]


def catalog(S, ev, types):
    import xarray as xr

    n = len(next(iter(ev.values()))["redshift"])
    dv = {}
    for e, t in zip(ev, types):
        a = np.empty((len(PARAMS), n), dtype=object if S.sym else float)
        for i, p in enumerate(PARAMS):
            for k in range(n):
                a[i, k] = ev[e][MAP[p]][k]
        dv[e] = xr.DataArray(a, dims=["param", "samples"], coords={"param": PARAMS, "samples": np.arange(n)}, attrs={"redshift_prior": t, "catalog": "GWTC-3"})
    return xr.Dataset(data_vars=dv, coords={"param": PARAMS, "samples": np.arange(n)})


def grid_prior(S, f, zmax, kind):
    """the declared redshift prior, normalised over the model's grid, at a node or between two nodes"""
    from symx import arr

    n = arr.Cfg.grid if S.sym else 1000
    top = S.num("1.919") if zmax is None else zmax * (Q(101, 100) if S.sym else 1.01)
    zs = [top * i / (n - 1) for i in range(n)]

    def one(z):
        if kind == "comoving":
            return S.div(f["dV"](z), 1 + z)
        d = f["DL"](z)
        return d * d * (S.div(d, 1 + z) + (1 + z) * f["dD"](z))

    if S.sym:
        y = [one(v) for v in zs]
    else:
        m = S.module(M)
        y = S.elems(m.dl_2_prior_on_z(S.j(zs), euclidean=kind == "euclidean"))
    norm = trap(y, zs)

    def at(z):
        for i in range(1, n):
            if S.test_le(z, zs[i]) or i == n - 1:
                return S.div(y[i - 1] + S.div((y[i] - y[i - 1]) * (z - zs[i - 1]), zs[i] - zs[i - 1]), norm)

    return at


@harness()
def prior(S):
    """the attached sampling prior, event by event"""
    f = stub_cosmo(S)
    lst = LISTS[S.choose("parameters", len(LISTS))]
    types = S.choose("types", [("euclidean", "comoving"), ("comoving", "euclidean")])
    names = ["GW1", "GW2"]
    # one free redshift; the others sit below the default range so that the grid is fixed
    ev = {e: event(S, e, 2, ["mass_1"]) for e in names}
    z = S.real("z", 0, Q(19, 10))
    ev["GW1"]["redshift"][0] = z
    ds = catalog(S, ev, types)
    out = S.module(M).append_prior_to_processed_catalog(ds, list(lst))
    S.prove_true("columns", list(out.param.values) == PARAMS + ["prior"])
    S.prove_true("events", list(out.event.values) == names)
    at = [grid_prior(S, f, None, t) for t in types]
    for i, e in enumerate(names):
        for k in range(2):
            row = out.sel(event=e).transpose("param", "samples")
            g = dict(zip(list(row.param.values), vals(row)[:, k]))
            for p in PARAMS:
                S.prove_eq(f"{p} kept", g[p], ev[e][MAP[p]][k])
            zk = ev[e]["redshift"][k]
            w = S.num(1)
            if "redshift" in lst:
                w = w * at[i](zk)
            if "mass_1" in lst:
                w = w * (1 + zk) * (1 + zk)
            if "mass_ratio" in lst:
                w = w * ev[e]["mass_1_source"][k]
            if "a_1" in lst:
                w = w / 4
            S.prove_eq("sampling prior", g["prior"], w)


@harness()
def prior_far(S):
    """samples beyond the default redshift range extend the grid for all events"""
    f = stub_cosmo(S)
    types = ("comoving", "euclidean")
    ev = {e: event(S, e, 1, []) for e in ("GW1", "GW2")}
    z = S.real("z", 2, 5)
    far = S.choose("far event", 2)
    ev[["GW1", "GW2"][far]]["redshift"][0] = z
    out = S.module(M).append_prior_to_processed_catalog(catalog(S, ev, types), ["redshift"])
    for i, e in enumerate(("GW1", "GW2")):
        at = grid_prior(S, f, z, types[i])
        S.prove_eq("sampling prior", S.elems(vals(out.sel(event=e, param="prior")))[0], at(ev[e]["redshift"][0]))


@harness()
def unknown(S):
    stub_cosmo(S)
    ev = {e: event(S, e, 1, []) for e in ("GW1", "GW2")}
    bad = S.choose("which", 2)
    types = ["comoving", "euclidean"]
    types[bad] = "uniform"
    S.raises("unknown redshift prior", lambda: S.module(M).append_prior_to_processed_catalog(catalog(S, ev, types), ["redshift"]), AssertionError)


@harness()
def load(S):
    """files to dataset: each event from its own file, group and prior type, with the requested columns"""
    f = stub_cosmo(S)
    lst = LISTS[S.choose("parameters", 3)]
    bykey = S.choose("key file", 2)
    pick, picks = picker(S)
    subset_stub(S, pick)
    ev = {"GW1": event(S, "GW1", 1, ["mass_1", "mass_2", "mass_ratio"]), "GW2": event(S, "GW2", 1, ["mass_1", "mass_2", "mass_ratio"])}
    mmax = S.num(200)
    types = {"GW1": "comoving", "GW2": "euclidean"}
    meta = {}
    tmp = tempfile.mkdtemp(prefix="c26_")
    try:
        files = {}
        for e in ev:
            path = os.path.join(tmp, e + ".h5")
            meta[e] = {"file_path": path, "waveform": "wf_" + e, "redshift_prior": types[e], "catalog": "GWTC-3"}
            other = {k: [S.num(Q(1, 3))] for k in ev[e]}
            files[path] = {"wf_" + e: {"posterior_samples": record(S, ev[e])}, "wf_other": {"posterior_samples": record(S, other)}}
        if S.sym:
            from .C25 import Node

            class H5:
                @staticmethod
                def File(p, *a, **k):
                    return Node(files[p], {})

            S.patch(S.module(M), "h5py", H5)
        else:
            import h5py

            for p, d in files.items():
                with h5py.File(p, "w") as h:
                    for wf, g in d.items():
                        h.create_group(wf).create_dataset("posterior_samples", data=g["posterior_samples"])
        kw = {"catalog_metadata": meta}
        if bykey:
            kp = os.path.join(tmp, "key.json")
            with open(kp, "w") as h:
                json.dump(meta, h)
            kw = {"key_file": kp}
        out = S.module(M).load_posterior_dataset(maximum_mass=mmax, param_names=list(lst), **kw)
    finally:
        shutil.rmtree(tmp)
    a = out["posteriors"]
    S.prove_true("columns", sorted(a.param.values) == sorted(lst + ["prior"]))
    S.prove_true("events", list(a.event.values) == ["GW1", "GW2"] and a.sizes["samples"] == 1)
    for e in ev:
        for p in lst:
            S.prove_eq(f"{p}", S.elems(vals(a.sel(event=e, param=p)))[0], ev[e][MAP[p]][0])
        zk = ev[e]["redshift"][0]
        w = grid_prior(S, f, None, types[e])(zk) * (1 + zk) * (1 + zk)
        if "mass_ratio" in lst:
            w = w * ev[e]["mass_1_source"][0]
        if "a_1" in lst:
            w = w / 4
        S.prove_eq("sampling prior", S.elems(vals(a.sel(event=e, param="prior")))[0], w)
