"""C25: injection files"""
import os
import shutil
import tempfile

import numpy as np

from .common import Q, registry

HARNESSES, harness = registry()
BOUNDS = "files with 2 or 3 injections, one or two search pipelines, every false-alarm rate, signal-to-noise ratio, mass, redshift, spin vector, sampling density and weight, every threshold, every requested parameter list and spelling of the optional fields"
OUTSIDE = "the HDF5 container (in symbolic runs the file is an in-memory stand-in with the same interface; replays use a real file); injections with a spin of exactly zero, whose tilt is undefined; resampling beyond 3 injections"
ASSUMPTIONS = ["xarray stores and selects by label (executed as is)", "h5py returns what was written"]
M = "gwinferno.preprocess.selection"
DC = "gwinferno.preprocess.data_collection"
YEAR = Q(36525, 100) * 24 * 3600


class Node:
    """in-memory stand-in of an h5py group"""

    def __init__(self, data, attrs):
        self.d, self.attrs = data, attrs

    def __getitem__(self, k):
        if "/" in k:
            a, b = k.split("/", 1)
            return self.d[a][b]
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()

    def items(self):
        return self.d.items()

    def get(self, k, default=None):
        return self.d.get(k, default)

    def __len__(self):
        return len(self.d)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class H5:
    def __init__(self, node):
        self.node = node

    def File(self, *a, **k):
        return self.node


def fwrite(g, data):
    for k, v in data.items():
        g.create_dataset(k, data=np.array(v))


def with_file(S, data, attrs, group_attrs, fn, struct=None):
    """run fn(path) on a file holding `data` (group 'injections') or `struct` (structured dataset 'events')"""
    ms = [S.module(M), S.module(DC)]
    if S.sym:
        if struct is not None:
            n = len(next(iter(struct.values())))
            rec = np.empty(n, dtype=[(k, object) for k in struct])
            for k, v in struct.items():
                for i in range(n):
                    rec[k][i] = v[i]
            node = Node({"events": rec}, attrs)
        else:
            g = Node({k: (np.array(v) if isinstance(v[0], bytes) else S.n(v)) for k, v in data.items()}, group_attrs)
            node = Node({"injections": g}, attrs)
        for m in ms:
            if "h5py" in m.__dict__:
                S.patch(m, "h5py", H5(node))
        return fn("file.h5")
    import h5py

    tmp = tempfile.mkdtemp(prefix="c25_")
    try:
        p = os.path.join(tmp, "file.h5")
        with h5py.File(p, "w") as f:
            for k, v in attrs.items():
                f.attrs[k] = v
            if struct is not None:
                n = len(next(iter(struct.values())))
                rec = np.empty(n, dtype=[(k, float) for k in struct])
                for k, v in struct.items():
                    rec[k] = v
                f.create_dataset("events", data=rec)
            else:
                g = f.create_group("injections")
                for k, v in group_attrs.items():
                    g.attrs[k] = v
                fwrite(g, data)
        return fn(p)
    finally:
        shutil.rmtree(tmp)


def attr(S, v):
    return Att(v) if S.sym else float(v)


class Att:
    """attribute value: a numpy scalar allows [()] as well as arithmetic"""

    def __init__(self, t):
        self.t = t

    def __getitem__(self, k):
        return self.t

    def __truediv__(self, o):
        return self.t / o

    def __mul__(self, o):
        return self.t * o

    __rmul__ = __mul__

    def __rtruediv__(self, o):
        return o / self.t

    def __float__(self):
        return float(self.t)


def un(v):
    return v.t if isinstance(v, Att) else v


def col(S, out, name):
    return S.elems(np.asarray(out.sel(param=name).values) if not S.sym else out.sel(param=name).values)


def spins(S, n, names=("x", "y", "z")):
    """spin vectors: the first injection's are free"""
    d = {}
    for ii in (1, 2):
        v = {c: S.reals(f"s{ii}{c}", 1, Q(-1, 2), Q(1, 2)) + [S.num(Q(k + ii, 7)) for i in range(1, n)] for k, c in enumerate("xyz")}
        for i in range(1):
            S.assume(S.gt(sum((v[c][i] * v[c][i] for c in names), S.num(0)), Q(1, 100) if S.sym else 0.01))
        for c in names:
            d[f"spin{ii}{c}"] = v[c]
    return d


def check_columns(S, out, keep, cols, total, time):
    if S.sym:
        S.prove_true("exactly the found injections", out.sizes["injection"] == len(keep))
    else:
        S.prove_true("exactly the found injections", out.sizes["injection"] == len(keep))
    if out.sizes["injection"] != len(keep):
        return
    S.prove_true("injections are numbered", list(out.injection.values) == list(range(len(keep))))
    for name, v in cols.items():
        got = col(S, out, name)
        for g, i in zip(got, keep):
            S.prove_eq(name, g, v[i])
    S.prove_eq("total generated", S.elems(un(out.attrs["total_generated"]))[0], total)
    S.prove_eq("analysis time in years", S.elems(un(out.attrs["analysis_time"]))[0] * (YEAR if S.sym else float(YEAR)), time)


PARAMS = [
    ["mass_1", "mass_ratio", "redshift"],
    ["mass_1", "mass_2", "redshift"],
    ["mass_1", "mass_ratio", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["mass_1", "mass_2", "redshift", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
    ["mass_1", "mass_ratio", "redshift", "chi_eff"],
    ["mass_1", "mass_2", "mass_ratio", "redshift"],
    ["mass_ratio", "redshift", "mass_1", "mass_2", "a_1", "a_2", "cos_tilt_1", "cos_tilt_2"],
]


def expected(S, params, d, prior, n, names=("x", "y", "z")):
    q = [S.div(d["mass2_source"][i], d["mass1_source"][i]) for i in range(n)]
    cols = dict(mass_1=d["mass1_source"], mass_2=d["mass2_source"], mass_ratio=q, redshift=d["redshift"])
    pr = list(prior)
    if "mass_ratio" in params:
        pr = [p * d["mass1_source"][i] for i, p in enumerate(pr)]
    if "a_1" in params or "chi_eff" in params:
        for ii in (1, 2):
            a2 = [sum((d[f"spin{ii}{c}"][i] * d[f"spin{ii}{c}"][i] for c in names), S.num(0)) for i in range(n)]
            a = [S.sqrt(v) for v in a2]
            cols[f"a_{ii}"] = a
            cols[f"cos_tilt_{ii}"] = [S.div(d[f"spin{ii}z"][i], a[i]) for i in range(n)]
            pr = [p * 2 * S.pi * v for p, v in zip(pr, a2)]
    cols["prior"] = pr
    return cols


def base(S, n):
    d = dict(mass1_source=S.reals("m1_", n, 10, 80), mass2_source=S.reals("m2_", n, 2, 10), redshift=S.reals("z", n, 0, 2))
    return d


def margin(S, x, y):
    if not S.sym:
        S.assume(S.gt(S.abs(x - y), 1e-9) if x != y else S.eq(0, 0))


@harness()
def o3_selection(S):
    """which injections are found (O3 files)"""
    n = S.choose("injections", [1, 2])
    npipe = S.choose("pipelines", [1, 2]) if n == 1 else 1
    d = base(S, n)
    if n == 2:
        d["redshift"] = [S.num(Q(1, 2)), S.num(1)]
    ifar = S.real("ifar", Q(1, 100), 100)
    snr = S.real("snr", 1, 20)
    pipes = [S.reals(f"p{k}_", n, 0, 1000) for k in range(npipe)]
    data = dict(d)
    for k, v in enumerate(pipes):
        data[["ifar_gstlal", "pycbc_IFAR"][k]] = v
    tag = S.choose("observing run", 4)
    if tag:
        data["name"] = [[b"o1", b"o2", b"o3"][tag - 1]] * n
        data["optimal_snr_net"] = S.reals("snr_", n, 0, 50)
    data["sampling_pdf"] = S.reals("pdf", n, 0, 1)
    total, time = S.real("total", 1, 10**8), S.real("time", 1, 10**8)
    key = S.choose("time key", ["analysis_time", "total_analysis_time", "analysis_time_s"]) if tag == 0 else "analysis_time_s"
    cut = None
    if tag == 0 and n == 1 and S.choose("additional", 2):
        data["extra"] = S.reals("x", n, 0, 10)
        cut = S.real("cut", 0, 10)
    params = PARAMS[0]
    out = with_file(
        S,
        data,
        {key: attr(S, time)},
        {"total_generated": attr(S, total)},
        lambda p: S.module(M).get_o3_cumulative_injection_dict(p, params, ifar=ifar, snr=snr, **({} if cut is None else {"additional_cuts": {"extra": cut}})),
    )
    keep = []
    for i in range(n):
        f = any(S.test_lt(ifar, v[i]) for v in pipes)
        if not f and tag in (1, 2):
            f = S.test_lt(snr, data["optimal_snr_net"][i])
        if not f and cut is not None:
            f = S.test_le(cut, data["extra"][i])
        if f:
            keep.append(i)
    check_columns(S, out, keep, expected(S, params, d, data["sampling_pdf"], n), total, time)


@harness()
def o3_density(S):
    """parameters and sampling density of the kept injections (O3 files), whichever spin components the file has"""
    params = PARAMS[S.choose("params", len(PARAMS))]
    comps = [("x", "y", "z"), ("z",), ("x", "z")][S.choose("components", 3)]
    n = 2
    d = base(S, n)
    d.update(spins(S, n, comps))
    drop = S.choose("found", 3)  # which of the two is missed
    data = dict(d, ifar=[S.num(0 if drop == i else 2) for i in range(n)], sampling_pdf=S.reals("pdf", n, 0, 1))
    out = with_file(S, data, {"analysis_time_s": attr(S, S.num(10))}, {"total_generated": attr(S, S.num(100))}, lambda p: S.module(M).get_o3_cumulative_injection_dict(p, params, ifar=1))
    keep = [i for i in range(n) if i != drop]
    check_columns(S, out, keep, expected(S, params, d, data["sampling_pdf"], n, comps), 100, 10)


LN = "lnpdraw_mass1_source_mass2_source_redshift_spin1x_spin1y_spin1z_spin2x_spin2y_spin2z"


def o4(S, d, n, extra, params, time=10, total=100, key="total_analysis_time", **kw):
    return with_file(S, None, {key: attr(S, S.num(time) if isinstance(time, int) else time), "total_generated": attr(S, S.num(total) if isinstance(total, int) else total)}, None, lambda p: S.module(M).get_o4a_cumulative_injection_dict(p, params, **kw), struct={**d, **extra})


@harness()
def o4_selection(S):
    n = S.choose("injections", [1, 2])
    npipe = S.choose("pipelines", [0, 1, 2]) if n == 1 else 1
    d = base(S, n)
    if n == 2:
        d["redshift"] = [S.num(Q(1, 2)), S.num(1)]
    ifar = S.real("ifar", Q(1, 100), 100)
    snr = S.real("snr", 1, 20)
    fars = [S.reals(f"far{k}_", n, 0, 1000) for k in range(npipe)]
    ext = {"semianalytic_observed_phase_maximized_snr_net": S.reals("snr_", n, 0, 50)}
    for k, v in enumerate(fars):
        ext[["pycbc_far", "gstlal_far"][k]] = v
    ext[LN] = S.reals("ln", n, -10, 0)
    ext["weights"] = S.reals("w", n, Q(1, 10), 2)
    total, time = S.real("total", 1, 10**8), S.real("time", 1, 10**8)
    key = S.choose("time key", ["analysis_time", "total_analysis_time", "analysis_time_s"]) if n == 1 and npipe == 1 else "analysis_time"
    if not S.sym:
        for v in fars:
            for i in range(n):
                if v[i] != 1 / ifar:  # rounding of the threshold
                    S.assume(S.gt(S.abs(v[i] * ifar - 1), 1e-6))
    params = PARAMS[0]
    out = o4(S, d, n, ext, params, time, total, key, ifar=ifar, snr=snr)
    keep = []
    for i in range(n):
        f = S.test_le(snr, ext["semianalytic_observed_phase_maximized_snr_net"][i])
        for v in fars:
            f = f or S.test_le(v[i] * ifar, S.num(1))
        if f:
            keep.append(i)
    pr = [S.div(S.exp(ext[LN][i]), ext["weights"][i]) for i in range(n)]
    check_columns(S, out, keep, expected(S, params, d, pr, n), total, time)


@harness()
def o4_density(S):
    params = PARAMS[S.choose("params", len(PARAMS))]
    n = 2
    d = base(S, n)
    d.update(spins(S, n))
    drop = S.choose("found", 3)
    ext = {"semianalytic_observed_phase_maximized_snr_net": [S.num(0 if drop == i else 12) for i in range(n)], "pycbc_far": [S.num(50)] * n, LN: S.reals("ln", n, -10, 0), "weights": S.reals("w", n, Q(1, 10), 2)}
    out = o4(S, d, n, ext, params)
    pr = [S.div(S.exp(ext[LN][i]), ext["weights"][i]) for i in range(n)]
    check_columns(S, out, [i for i in range(n) if i != drop], expected(S, params, d, pr, n), 100, 10)


@harness()
def no_time(S):
    """a file without an analysis time is refused"""
    d = base(S, 1)
    if S.choose("kind", 2):
        ext = {"semianalytic_observed_phase_maximized_snr_net": [S.num(12)], LN: [S.num(0)], "weights": [S.num(1)]}
        S.raises("refused", lambda: o4(S, d, 1, ext, PARAMS[0], key="other"))
    else:
        data = dict(d, ifar=[S.num(2)], sampling_pdf=[S.num(1)])
        S.raises("refused", lambda: with_file(S, data, {"other": attr(S, S.num(1))}, {"total_generated": attr(S, S.num(100))}, lambda p: S.module(M).get_o3_cumulative_injection_dict(p, PARAMS[0])))


@harness()
def dataset(S):
    """the dataset holds the requested columns plus the sampling density, and the attributes"""
    params = PARAMS[S.choose("params", 4)]
    o4a = S.choose("o4a", 2)
    n = 2
    d = base(S, n)
    d.update(spins(S, n))
    ifar, snr = S.num(2), S.num(9)
    if o4a:
        ext = {"semianalytic_observed_phase_maximized_snr_net": [S.num(9), S.num(8)], "pycbc_far": [S.num(1), S.num(Q(1, 2))], LN: S.reals("ln", n, -10, 0), "weights": S.reals("w", n, Q(1, 10), 2)}
        pr = [S.div(S.exp(ext[LN][i]), ext["weights"][i]) for i in range(n)]
        keep = [0, 1]
    else:
        data = dict(d, ifar=[S.num(Q(3, 2)), S.num(3)], name=[b"o3", b"o3"], optimal_snr_net=[S.num(50), S.num(50)], sampling_pdf=S.reals("pdf", n, 0, 1))
        pr = data["sampling_pdf"]
        keep = [1]
    f = lambda p: S.module(DC).load_injection_dataset(p, list(params), through_o4a=bool(o4a), through_o3=not o4a, ifar_threshold=ifar, snr_threshold=snr)  # noqa
    if o4a:
        out = with_file(S, None, {"analysis_time": attr(S, S.num(10)), "total_generated": attr(S, S.num(100))}, None, f, struct={**d, **ext})
    else:
        out = with_file(S, data, {"analysis_time": attr(S, S.num(10))}, {"total_generated": attr(S, S.num(100))}, f)
    S.prove_true("columns", sorted(out.param.values) == sorted(params + ["prior"]))
    exp = expected(S, params, d, pr, n)
    check_columns(S, _View(out), keep, {k: exp[k] for k in params + ["prior"]}, 100, 10)


class _View:
    def __init__(self, ds):
        self.a, self.attrs, self.sizes, self.injection = ds["injections"], ds.attrs, ds.sizes, ds.injection

    def sel(self, **k):
        return self.a.sel(**k)


@harness()
def resample(S):
    """resampled injections are injections of the set, drawn by weight, with the model density over the efficiency as new sampling density"""
    m = S.module(M)
    x, pr = S.reals("x", 2, Q(1, 10), 3), S.reals("pr", 2, Q(1, 10), 3)
    nd = S.real("Ndraw", 4, 1000)
    calls = []
    pick = [S.choose("first", 2), S.choose("second", 2)]

    def draw(name, a, k):
        n = int(k.get("a", a[1] if len(a) > 1 else 0))
        shape = k.get("shape", a[2] if len(a) > 2 else ())
        calls.append((name, n, tuple(int(v) for v in shape), k.get("p", a[4] if len(a) > 4 else None)))
        return np.array([pick[i] for i in range(calls[-1][2][0])])

    if S.sym:
        S.set_rng(draw)
    else:
        import jax

        S.patch(jax.random, "choice", lambda *a, **k: draw("choice", a, k))
    w = [S.div(x[i] * x[i], pr[i]) for i in range(2)]
    tot, t2 = w[0] + w[1], w[0] * w[0] + w[1] * w[1]
    if not S.sym:
        S.assume(S.gt(S.abs(tot * tot / t2 - 2), 1e-6))
    import jax

    out, N, neff = m.resample_injections(jax.random.PRNGKey(0), lambda d: d[0] * d[0], S.j([x, pr]), nd, {"x": 0, "prior": 1})
    S.prove_true("one draw", len(calls) == 1 and calls[0][1] == 2)
    for i in range(2):
        S.prove_eq("drawn by weight", S.at(calls[0][3], i), S.div(w[i], tot))
    S.prove_true("number of draws", calls[0][2] == (N,) and S.shape(out) == (2, N))
    S.prove_le("no more than the effective number", S.num(N) * t2, tot * tot)
    S.prove_gt("as many as the effective number", S.num(N + 1) * t2, tot * tot)
    for k in range(N):
        S.prove_eq("parameters of the drawn injection", S.at(out, 0, k), x[pick[k]])
        S.prove_eq("new density", S.at(out, 1, k) * tot, x[pick[k]] * x[pick[k]] * nd)
    mu = S.div(tot, nd)
    S.prove_eq("effective number", neff * (S.div(t2, nd * nd) - S.div(mu * mu, nd)), mu * mu)


@harness()
def neither(S):
    S.raises("no file kind", lambda: S.module(DC).load_injection_dataset("file", PARAMS[0], through_o3=False), AssertionError)
