"""shared helpers of the harnesses"""
from fractions import Fraction as Q  # noqa


def registry():
    HS = {}

    def harness(name=None, tier=None, weight=1, thorough=None, **opts):
        def d(fn):
            HS[name or fn.__name__] = {"fn": fn, "tier": tier, "weight": weight, "opts": opts, "thorough": thorough or {}}
            return fn

        return d

    return HS, harness


def s1(S, x):
    return S.elems(x)[0]


def trap(y, x):
    t = 0
    for i in range(1, len(x)):
        t = t + (x[i] - x[i - 1]) * (y[i] + y[i - 1]) / 2
    return t


class Site:
    def __init__(self, kind, value, dist=None):
        self.kind, self.value, self.dist = kind, value, dist


class _Rec:
    """recorder that stands in for numpyro during symbolic execution"""

    def __init__(self, values):
        self.sites = {}
        self.values = values
        self.dups = []

    def _put(self, name, s):
        if name in self.sites:
            self.dups.append(name)
        self.sites[name] = s

    def sample(self, name, fn, obs=None, rng_key=None, sample_shape=(), **k):
        if callable(self.values):
            v = self.values(name, fn, sample_shape)
        else:
            v = self.values[name]
        self._put(name, Site("sample", v, (fn.name, fn.args, fn.kw, tuple(sample_shape))))
        return v

    def deterministic(self, name, value):
        self._put(name, Site("deterministic", value))
        return value

    def factor(self, name, value):
        self._put(name, Site("factor", value))

    def plate(self, name, size, *a, **k):
        import contextlib

        import numpy as np

        @contextlib.contextmanager
        def cm():
            yield np.arange(int(size))

        return cm()


def run_pyro(S, fn, values):
    """run fn under a numpyro recorder; sample sites take their value from `values`.  returns (result, {name: Site})"""
    if S.sym:
        r = _Rec(values)
        S.set_pyro(r)
        out = fn()
        S.prove_true("site names are unique", not r.dups)
        return out, r.sites
    import jax.numpy as jnp
    import numpy as np
    from numpyro import handlers

    def sub(site):
        if site["type"] != "sample" or site.get("is_observed"):
            return None
        n = site["name"]
        if callable(values):
            return jnp.asarray(np.asarray(values(n, site["fn"], site["kwargs"].get("sample_shape", ()))))
        if n in values:
            return jnp.asarray(np.asarray(values[n]))
        return None

    with handlers.seed(rng_seed=0), handlers.trace() as tr, handlers.substitute(substitute_fn=sub):
        out = fn()
    sites = {}
    for n, s in tr.items():
        if s["type"] == "sample" and type(s["fn"]).__name__ == "Unit":
            sites[n] = Site("factor", s["fn"].log_factor)
        elif s["type"] == "sample":
            d = s["fn"]
            sites[n] = Site("sample", s["value"], d)
        elif s["type"] == "deterministic":
            sites[n] = Site("deterministic", s["value"])
    return out, sites


def normal_params(S, site):
    """(loc, scale) of a Normal sample site"""
    if S.sym:
        name, a, k, _ = site.dist
        if name != "Normal":
            return None
        p = dict(zip(("loc", "scale"), a))
        p.update(k)
        return p.get("loc", 0), p.get("scale", 1)
    d = site.dist
    while hasattr(d, "base_dist"):
        d = d.base_dist
    import numpy as np

    return np.asarray(d.loc).ravel()[0], np.asarray(d.scale).ravel()[0]


def draw_stub(S, pick):
    """replace the index draw (jax.random.choice / categorical, numpy.random.choice) by pick(k, n, p) -> index"""
    calls = []

    def one(name, args, kw):
        import numpy as np

        name = name.split(".")[-1]
        if name == "choice":
            n = kw.get("a", args[1] if len(args) > 1 else None)
            p = kw.get("p", args[4] if len(args) > 4 else None)
            pe = S.elems(p) if p is not None else None
            n = int(n) if isinstance(n, (int, np.integer)) else S.shape(n)[0]
        elif name == "categorical":
            ex = [S.exp(v) for v in S.elems(kw.get("logits", args[1] if len(args) > 1 else None))]
            t = ex[0]
            for v in ex[1:]:
                t = t + v
            pe = [S.div(v, t) for v in ex]
            n = len(pe)
        else:
            from symx.terms import Unsupported

            raise Unsupported("random call " + name)
        k = len(calls)
        calls.append((n, pe))
        i = pick(k, n, pe)
        return i if S.sym else np.int32(i)

    if S.sym:
        S.set_rng(one)
    else:
        import jax

        for nm in ("choice", "categorical"):
            S.patch(jax.random, nm, (lambda nm: lambda *a, **k: one(nm, a, k))(nm))
    return calls


def stub_volume(S):
    """symbolic runs: the comoving-volume element is an arbitrary positive function of redshift (decided by C27)"""
    c = S.module("gwinferno.cosmology")
    if not S.sym:
        return lambda z: S.elems(c.PLANCK_2015_LVK_Cosmology.dVcdz(S.j([z])))[0]
    from symx import arr, terms as tm

    def one(z, ho=c.PLANCK_2015_LVK_Cosmology.Ho):
        return tm.texp(tm.tuf(f"logdV{ho}", z))

    def dvcdz(self, z, Dc=None, **k):
        return S.j(arr.map1(lambda v: one(v, self.Ho), arr.to_obj(arr.coerce(z))))

    S.patch(c.Cosmology, "dVcdz", dvcdz)
    return one


def own_grid(S, obj, name, lo, hi, n=1000):
    """the model's own grid: its attribute, or an even grid over the range"""
    g = getattr(obj, name, None)
    if g is not None:
        return S.elems(g)
    from symx import arr

    m = arr.Cfg.grid if S.sym else n
    return [lo + (hi - lo) * i / (m - 1) for i in range(m)]


def subset_stub(S, pick):
    """replace numpy's random selections: pick(call number, n, size) -> list of distinct positions.
    A selection with replacement returns the first position every time (one of the possible outcomes)."""
    calls = []

    def one(name, a, k):
        import numpy as np

        name = name.split(".")[-1]
        if name in ("default_rng", "RandomState"):
            return Gen()
        if name in ("seed",):
            return None
        x = k.get("a", k.get("x", a[0] if a else None))
        pool = list(range(int(x))) if isinstance(x, (int, np.integer)) else list(S.elems(x))
        if name == "choice":
            size = k.get("size", a[1] if len(a) > 1 else None)
            size = int(size if not isinstance(size, tuple) else size[0])
            repl = k.get("replace", a[2] if len(a) > 2 else True)
        elif name == "permutation":
            size, repl = len(pool), False
        else:
            from symx.terms import Unsupported

            raise Unsupported("random call " + name)
        kk = len(calls)
        calls.append((len(pool), size, bool(repl)))
        idx = [0] * size if repl else pick(kk, len(pool), size)
        return np.array([pool[i] for i in idx])

    class Gen:
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: one(name, a, k)

    if S.sym:
        S.set_rng(one)
    else:
        import numpy as np

        for nm in ("choice", "permutation", "default_rng", "RandomState", "seed"):
            S.patch(np.random, nm, (lambda nm: lambda *a, **k: one(nm, a, k))(nm))
    return calls


def record(S, cols):
    """structured array as h5py returns it"""
    import numpy as np

    n = len(next(iter(cols.values())))
    rec = np.empty(n, dtype=[(k, object if S.sym else float) for k in cols])
    for k, v in cols.items():
        for i in range(n):
            rec[k][i] = v[i]
    return rec


def check_support(S, d, lo, hi):
    """the declared support of a distribution is the interval [lo, hi]"""
    s = d.support
    S.prove_eq("support starts at the minimum", S.elems(s.lower_bound)[0], lo)
    S.prove_eq("support ends at the maximum", S.elems(s.upper_bound)[0], hi)
