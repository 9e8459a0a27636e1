"""Loads gwinferno modules from /repo's current source with numpy / jax / numpyro replaced by dispatching shims.

Outside a symbolic session every shim function forwards to the real library; inside it runs the exact symbolic
version.  The source text executed is the file in the working tree, unmodified.
"""
import builtins
import importlib
import importlib.util
import os
import sys
import types

import numpy as real_np

from . import arr
from . import scal as sc
from . import terms as tm
from .arr import JArr, NArr, NATIVE, LINALG, coerce, exact, wrap
from .terms import T, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


def real(name):
    return importlib.import_module(name)


# ------------------------------------------------------------------ generic dispatching namespaces
def _has_sym(x, depth=0):
    if isinstance(x, (T, arr.XArr)):
        return True
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(_has_sym(y, depth + 1) for y in x)
    return False


class Namespace(types.ModuleType):
    def __init__(self, name, realname, jax_sem, table=None, fallback_np=True):
        super().__init__(name)
        self.__dict__["_r"] = realname
        self.__dict__["_J"] = jax_sem
        self.__dict__["_table"] = table if table is not None else NATIVE
        self.__dict__["_fb"] = fallback_np
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        c = self._cache.get(name)
        if c is not None:
            return c
        v = self._make(name)
        self._cache[name] = v
        return v

    def _real(self):
        return real(self._r)

    def _make(self, name):
        tab = self._table
        J = self._J
        if name == "ndarray":
            return _AnyArrJ if J else _AnyArrN
        if name == "asarray" and not J:
            fn = arr._asarray_np
        else:
            fn = tab.get(name)
        ns = self
        if fn is None:
            rv = getattr(self._real(), name)
            if not callable(rv) or isinstance(rv, type) and not name.startswith("float"):
                return rv
            if not self._fb:

                def unsupported(*a, **k):
                    if exact() and any(map(_has_sym, list(a) + list(k.values()))):
                        raise Unsupported(f"{ns._r}.{name}")
                    return rv(*a, **k)

                return unsupported
            npf = getattr(real_np, name, None)

            def struct(*a, **k):
                if not exact():
                    return rv(*a, **k)
                if npf is None:
                    return _jaxpr_call(rv, a, k)
                try:
                    a2 = [_plain(x) for x in a]
                    k2 = {q: _plain(x) for q, x in k.items()}
                    r = npf(*a2, **k2)
                except (TypeError,) as e:
                    if J:
                        return _jaxpr_call(rv, a, k)
                    raise Unsupported(f"{ns._r}.{name}: {e}")
                return wrap(r, J)

            struct.__name__ = name
            return struct

        def disp(*a, **k):
            if not exact():
                return getattr(ns._real(), name)(*a, **k)
            r = fn(*a, **k)
            if J and name in ("array", "asarray") and not isinstance(r, real_np.ndarray):
                return r
            return wrap(r, J)

        disp.__name__ = name
        if isinstance(getattr(real_np, name, None), real_np.ufunc):
            disp.reduce = lambda a, axis=0, **k: wrap(arr.reduce_(name, coerce(a), axis, k.get("keepdims", False)), J) if exact() else getattr(self._real(), name).reduce(a, axis=axis, **k)
            disp.outer = lambda a, b, **k: wrap(arr.apply_ufunc(name, "outer", (a, b), {}), J) if exact() else getattr(self._real(), name).outer(a, b)
            disp.accumulate = lambda a, axis=0, **k: wrap(arr.accumulate_(name, coerce(a), axis), J) if exact() else getattr(self._real(), name).accumulate(a, axis=axis)
        return disp


def _plain(x):
    if isinstance(x, (T, arr.XArr)):
        return coerce(x)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (T, arr.XArr, list, tuple)) for y in x):
        return type(x)(_plain(y) for y in x)
    if isinstance(x, real_np.ndarray) and x.dtype.kind == "f":
        return coerce(x)
    if type(x).__module__.startswith("jax"):
        return coerce(real_np.asarray(x))
    return x


def _jaxpr_call(fn, a, k):
    from . import jaxint

    return jaxint.call(fn, a, k)


class _MetaJ(type):
    def __instancecheck__(cls, x):
        import jax

        return isinstance(x, (JArr, jax.Array)) or isinstance(x, T)


class _AnyArrJ(metaclass=_MetaJ):
    pass


class _MetaN(type):
    def __instancecheck__(cls, x):
        return isinstance(x, real_np.ndarray) and not isinstance(x, JArr)


class _AnyArrN(metaclass=_MetaN):
    pass


# ------------------------------------------------------------------ namespaces
np_ns = Namespace("numpy", "numpy", False)
jnp_ns = Namespace("jax.numpy", "jax.numpy", True)
np_ns.linalg = Namespace("numpy.linalg", "numpy.linalg", False, LINALG, False)
jnp_ns.linalg = Namespace("jax.numpy.linalg", "jax.numpy.linalg", True, LINALG, False)
jsp_special = Namespace("jax.scipy.special", "jax.scipy.special", True, NATIVE, False)
sp_special = Namespace("scipy.special", "scipy.special", False, NATIVE, False)
jsp_integrate = Namespace("jax.scipy.integrate", "jax.scipy.integrate", True, NATIVE, False)
sp_integrate = Namespace("scipy.integrate", "scipy.integrate", False, NATIVE, False)


def _cumtrap(y, x=None, dx=1.0, axis=-1, initial=None):
    y = arr.to_obj(coerce(y))
    d = dx if x is None else arr.ndiff(coerce(x))
    w = arr.elementwise("multiply", arr.elementwise("multiply", arr.elementwise("add", y[..., 1:], y[..., :-1]), tm.Q(1, 2)), d)
    c = arr.accumulate_("add", coerce(w), -1)
    if initial is not None:
        c = real_np.concatenate([real_np.full(c.shape[:-1] + (1,), sc.norm(initial), dtype=object), c], axis=-1)
    return c


sp_integrate._cache.update({})
sp_integrate.__dict__["_table"] = dict(NATIVE, cumulative_trapezoid=_cumtrap, cumtrapz=_cumtrap)

math_table = {k: NATIVE[k] for k in ("exp", "log", "sqrt", "sin", "cos", "tan", "tanh", "erf", "erfc", "log1p", "expm1", "fabs", "lgamma", "log10", "log2", "isnan", "isinf", "isfinite")}
math_table.update(acos=NATIVE["arccos"], asin=NATIVE["arcsin"], atan=NATIVE["arctan"], atan2=NATIVE["arctan2"], pow=NATIVE["power"], floor=NATIVE["floor"], ceil=NATIVE["ceil"])


class MathNS(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        import math

        rv = getattr(math, name)
        fn = math_table.get(name)
        if fn is None or not callable(rv):
            return rv

        def f(*a):
            if exact() and any(map(_has_sym, a)):
                return wrap(fn(*a), True)
            return rv(*a)

        return f


math_ns = MathNS("math")


class Env:
    """per-session hooks used by stand-ins (random numbers, numpyro sites)"""

    rng = None
    pyro = None


# ---- numpy.random / jax.random
class RandomNS(types.ModuleType):
    def __init__(self, name, realname, jaxy):
        super().__init__(name)
        self.__dict__["_r"] = realname
        self.__dict__["_jx"] = jaxy

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        ns = self

        def f(*a, **k):
            if not exact() or (ns._jx and name in ("PRNGKey", "key", "split", "fold_in")):
                return getattr(real(ns._r), name)(*a, **k)
            if Env.rng is None:
                raise Unsupported(f"random number generation ({name}) without a stand-in")
            return Env.rng(("jax." if ns._jx else "np.") + name, a, k)

        rv = getattr(real(ns._r), name)
        return f if callable(rv) and not isinstance(rv, type) else rv


np_ns.random = RandomNS("numpy.random", "numpy.random", False)
jax_random = RandomNS("jax.random", "jax.random", True)


# ---- jax top level
class JaxNS(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(real("jax"), name)


jax_ns = JaxNS("jax")


def jit(fn=None, **k):
    if fn is None:
        return lambda f: jit(f, **k)
    import functools

    cell = []

    @functools.wraps(fn)
    def g(*a, **kw):
        if exact():
            return fn(*[jarg(x) for x in a], **{q: jarg(v) for q, v in kw.items()})
        if not cell:
            cell.append(real("jax").jit(fn, **k))
        return cell[0](*a, **kw)

    return g


def jarg(x):
    """arguments of a jitted function become jax arrays"""
    if isinstance(x, NArr):
        return x.view(real_np.ndarray).copy().view(JArr)
    return x


def _tree_slice(x, ax, i):
    if isinstance(ax, (list, tuple)):
        return type(ax)(_tree_slice(y, z, i) for y, z in zip(x, ax))
    if ax is None:
        return x
    if isinstance(x, dict):
        return {k: _tree_slice(v, ax, i) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return type(x)(_tree_slice(v, ax, i) for v in x)
    a = as_arr(x)
    return a[(slice(None),) * (ax % a.ndim) + (i,)]


def as_arr(x):
    return x if isinstance(x, arr.XArr) else arr.as_j(x)


def _tree_len(x, ax):
    if isinstance(ax, (list, tuple)):
        for y, z in zip(x, ax):
            n = _tree_len(y, z)
            if n is not None:
                return n
        return None
    if ax is None:
        return None
    if isinstance(x, dict):
        for v in x.values():
            return _tree_len(v, ax)
    if isinstance(x, (list, tuple)):
        for v in x:
            n = _tree_len(v, ax)
            if n is not None:
                return n
        return None
    return coerce(x).shape[ax]


def _stack_tree(rs, ax=0):
    if isinstance(rs[0], dict):
        return {k: _stack_tree([r[k] for r in rs], ax) for k in rs[0]}
    if isinstance(rs[0], (list, tuple)):
        return type(rs[0])(_stack_tree([r[i] for r in rs], ax) for i in range(len(rs[0])))
    ps = [coerce(r) for r in rs]
    if any(p.dtype == object for p in ps):
        ps = [arr.to_obj(p) for p in ps]
    return wrap(real_np.stack(ps, axis=ax), True)


def vmap(fn, in_axes=0, out_axes=0, **k):
    def g(*a):
        if not exact():
            return real("jax").vmap(fn, in_axes=in_axes, out_axes=out_axes, **k)(*a)
        ax = in_axes if isinstance(in_axes, (tuple, list)) else (in_axes,) * len(a)
        n = _tree_len(list(a), list(ax))
        return _stack_tree([fn(*[_tree_slice(x, y, i) for x, y in zip(a, ax)]) for i in range(n)], out_axes)

    return g


def fori_loop(lo, hi, body, init, **k):
    if not exact():
        return real("jax.lax").fori_loop(lo, hi, body, init, **k)
    v = _tree_j(init)
    for i in range(int(lo), int(hi)):
        v = _tree_j(body(i, v))
    return v


def _tree_j(x):
    if isinstance(x, (tuple, list)):
        return type(x)(_tree_j(y) for y in x)
    if isinstance(x, dict):
        return {k: _tree_j(v) for k, v in x.items()}
    return jarg(x)


def scan(f, init, xs=None, length=None, reverse=False, **k):
    if not exact():
        return real("jax.lax").scan(f, init, xs, length=length, reverse=reverse, **k)
    n = length if xs is None else _tree_len(xs, 0)
    ys = []
    c = init
    for i in (reversed(range(n)) if reverse else range(n)):
        c, y = f(c, None if xs is None else _tree_slice(xs, 0, i))
        ys.append(y)
    if reverse:
        ys = ys[::-1]
    return c, (None if not ys or ys[0] is None else _stack_tree(ys))


def cond(pred, tf, ff, *ops, **k):
    if not exact():
        return real("jax.lax").cond(pred, tf, ff, *ops, **k)
    return tf(*ops) if bool(pred) else ff(*ops)


def while_loop(c, b, init):
    if not exact():
        return real("jax.lax").while_loop(c, b, init)
    v = init
    n = 0
    while bool(c(v)):
        v = b(v)
        n += 1
        if n > 200:
            raise Unsupported("while_loop bound")
    return v


def switch(i, branches, *ops, **k):
    if not exact():
        return real("jax.lax").switch(i, branches, *ops, **k)
    j = min(max(int(i), 0), len(branches) - 1)
    return branches[j](*ops)


def lmap(f, xs, **k):
    if not exact():
        return real("jax.lax").map(f, xs, **k)
    return _stack_tree([f(_tree_slice(xs, 0, i)) for i in range(_tree_len(xs, 0))])


def dynamic_slice(x, starts, sizes):
    if not exact():
        return real("jax.lax").dynamic_slice(x, starts, sizes)
    return as_arr(x)[tuple(slice(int(s), int(s) + n) for s, n in zip(starts, sizes))]


class LaxNS(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        rv = getattr(real("jax.lax"), name)
        nn = {"div": "divide", "pow": "power", "sub": "subtract", "mul": "multiply", "max": "maximum", "min": "minimum", "lt": "less", "gt": "greater",
              "le": "less_equal", "ge": "greater_equal", "eq": "equal", "ne": "not_equal", "neg": "negative", "integer_pow": "power",
              "acos": "arccos", "asin": "arcsin", "lgamma": "gammaln", "logistic": "expit"}.get(name, name)
        fn = NATIVE.get(nn)
        if name == "rsqrt":
            fn = lambda a: arr.map1(lambda v: sc.s_inv(sc.s_sqrt(v)), coerce(a))  # noqa
        if name == "select":
            fn = arr.where
        if name == "broadcast_shapes":
            return real_np.broadcast_shapes
        if name == "stop_gradient":
            return lambda x: x
        if fn is None:

            def g(*a, **k):
                if exact() and any(map(_has_sym, a)):
                    return _jaxpr_call(rv, a, k)
                return rv(*a, **k)

            return g if callable(rv) and not isinstance(rv, type) else rv

        def f(*a, **k):
            if not exact():
                return rv(*a, **k)
            return wrap(fn(*a, **k), True)

        return f


lax_ns = LaxNS("jax.lax")
lax_ns.fori_loop = fori_loop
lax_ns.scan = scan
lax_ns.cond = cond
lax_ns.while_loop = while_loop
lax_ns.switch = switch
lax_ns.map = lmap
lax_ns.dynamic_slice = dynamic_slice
jsp_ns = types.ModuleType("jax.scipy")
jsp_ns.special = jsp_special
jsp_ns.integrate = jsp_integrate
jax_ns.numpy = jnp_ns
jax_ns.lax = lax_ns
jax_ns.random = jax_random
jax_ns.scipy = jsp_ns
jax_ns.jit = jit
jax_ns.vmap = vmap
jax_ns.nn = Namespace("jax.nn", "jax.nn", True, NATIVE, False)


def _jsp_getattr(name):
    return getattr(real("jax.scipy"), name)


jsp_ns.__getattr__ = _jsp_getattr


def checkpoint(f, **k):
    return f


class _TQ(types.ModuleType):
    @staticmethod
    def trange(*a, **k):
        return range(*[int(x) for x in a])

    @staticmethod
    def tqdm(it, *a, **k):
        return it


# ---- numpyro
class PyroNS(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(real("numpyro"), name)


pyro_ns = PyroNS("numpyro")


def _pyro(name):
    def f(*a, **k):
        if not exact():
            return getattr(real("numpyro"), name)(*a, **k)
        if Env.pyro is None:
            raise Unsupported(f"numpyro.{name} without a recorder")
        return getattr(Env.pyro, name)(*a, **k)

    f.__name__ = name
    return f


for _n in ("sample", "deterministic", "factor", "plate"):
    setattr(pyro_ns, _n, _pyro(_n))


class SymDist:
    """stand-in for a numpyro distribution built during symbolic execution: name and parameters"""

    def __init__(self, name, args, kw):
        self.name = name
        self.args = args
        self.kw = kw
        self.wrappers = []

    def expand(self, shape):
        self.wrappers.append(("expand", tuple(shape)))
        return self

    def to_event(self, n=None):
        self.wrappers.append(("to_event", n))
        return self

    def mask(self, m):
        self.wrappers.append(("mask", m))
        return self

    def log_prob(self, x):
        if self.name == "Normal":
            p = dict(zip(("loc", "scale"), self.args))
            p.update(self.kw)
            loc, scale = p.get("loc", 0), p.get("scale", 1)
            z = jnp_ns.divide(jnp_ns.subtract(x, loc), scale)
            return -0.5 * z * z - jnp_ns.log(scale) - sc.s_mul(tm.Q(1, 2), sc.s_log(tm.PI * 2))
        if self.name == "Uniform":
            p = dict(zip(("low", "high"), self.args))
            p.update(self.kw)
            lo, hi = p.get("low", 0), p.get("high", 1)
            inside = jnp_ns.logical_and(jnp_ns.greater_equal(x, lo), jnp_ns.less_equal(x, hi))
            return jnp_ns.where(inside, -jnp_ns.log(jnp_ns.subtract(hi, lo)), -float("inf"))
        if self.name in ("MixtureGeneral",):
            mix = self.args[0] if self.args else self.kw["mixing_distribution"]
            comps = self.args[1] if len(self.args) > 1 else self.kw["component_distributions"]
            w = mix.probs()
            t = 0
            for i, c in enumerate(comps):
                t = t + w[i] * jnp_ns.exp(c.log_prob(x))
            return jnp_ns.log(t)
        raise Unsupported(f"log_prob of stand-in {self.name}")

    def probs(self):
        if self.name not in ("Categorical", "CategoricalProbs"):
            raise Unsupported(f"mixing distribution {self.name}")
        p = self.args[0] if self.args else self.kw.get("probs")
        if p is None:
            raise Unsupported("categorical by logits")
        p = coerce(p)
        t = p.ravel()[0]
        for v in p.ravel()[1:]:
            t = sc.s_add(t, v)
        return [sc.s_div(v, t) for v in p.ravel()]

    def __repr__(self):
        return f"SymDist({self.name}, {self.args}, {self.kw}, {self.wrappers})"


class DistNS(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        rv = getattr(real("numpyro.distributions"), name)
        if isinstance(rv, type) and name not in ("Distribution", "Independent", "ExpandedDistribution", "TransformedDistribution", "MaskedDistribution"):
            if name not in self.__dict__.setdefault("_c", {}):
                Meta = type("Meta", (type(rv),), {"__call__": lambda cls, *a, **k: (SymDist(name, a, k) if exact() else rv(*a, **k))})
                self._c[name] = Meta(name, (rv,), {})
            return self._c[name]
        if callable(rv) and not isinstance(rv, type) and name[:1].isupper():  # factory functions such as Categorical
            return lambda *a, **k: (SymDist(name, a, k) if exact() else rv(*a, **k))
        return rv


dist_ns = DistNS("numpyro.distributions")


def promote_shapes(*args, shape=()):
    if not exact():
        return real("numpyro.distributions.util").promote_shapes(*args, shape=shape)
    if len(args) < 2 and not shape:
        return args
    shapes = [coerce(a).shape for a in args]
    n = len(real_np.broadcast_shapes(shape, *shapes))
    out = []
    for a, s in zip(args, shapes):
        out.append(wrap(coerce(a).reshape((1,) * (n - len(s)) + s), True) if s and len(s) < n else a)
    return out


class DistUtil(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name == "promote_shapes":
            return promote_shapes
        if name == "is_prng_key":
            r = real("numpyro.distributions.util").is_prng_key
            return lambda k: True if exact() else r(k)
        return getattr(real("numpyro.distributions.util"), name)


dist_util = DistUtil("numpyro.distributions.util")
dist_ns.util = dist_util
pyro_ns.distributions = dist_ns

SHIMS = {
    "numpy": np_ns,
    "numpy.linalg": np_ns.linalg,
    "numpy.random": np_ns.random,
    "jax": jax_ns,
    "jax.numpy": jnp_ns,
    "jax.numpy.linalg": jnp_ns.linalg,
    "jax.lax": lax_ns,
    "jax.random": jax_random,
    "jax.scipy": jsp_ns,
    "jax.nn": jax_ns.nn,
    "jax.scipy.special": jsp_special,
    "jax.scipy.integrate": jsp_integrate,
    "scipy.special": sp_special,
    "scipy.integrate": sp_integrate,
    "math": math_ns,
    "tqdm": _TQ("tqdm"),
    "numpyro": pyro_ns,
    "numpyro.distributions": dist_ns,
    "numpyro.distributions.util": dist_util,
}


# ------------------------------------------------------------------ shadow modules
SHADOW = {}
_real_import = builtins.__import__


class ShadowPackage(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__") and name != "__version__":
            raise AttributeError(name)
        full = f"{self.__name__}.{name}"
        if _find(full):
            return load(full)
        init = os.path.join(self.__path__[0], "__init__.py")
        if not self.__dict__.get("_inited") and os.path.exists(init):
            self.__dict__["_inited"] = True
            _exec(self, init)
            if name in self.__dict__:
                return self.__dict__[name]
        raise AttributeError(f"module {self.__name__!r} has no attribute {name!r}")


def _find(full):
    p = os.path.join(REPO, *full.split("."))
    if os.path.isdir(p):
        return p, True
    if os.path.exists(p + ".py"):
        return p + ".py", False
    return None


def _exec(mod, path):
    with open(path) as f:
        src = f.read()
    code = compile(src, path, "exec")
    bd = dict(builtins.__dict__)
    bd["__import__"] = _shadow_import
    bd["float"] = _float
    mod.__dict__["__builtins__"] = bd
    exec(code, mod.__dict__)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or isinstance(x, T)

    def __call__(cls, *a):
        if a and exact() and isinstance(a[0], (T, arr.XArr)):
            x = coerce(a[0])
            if x.size != 1:
                raise TypeError("only length-1 arrays can be converted to Python scalars")
            return sc.norm(x.ravel()[0])
        return float(*a)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class _float(float, metaclass=_FloatMeta):
    pass


def _shadow_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        base = globals["__package__"].split(".")
        if level > 1:
            base = base[: -(level - 1)]
        name = ".".join(base + ([name] if name else []))
    if name == "gwinferno" or name.startswith("gwinferno."):
        m = load(name)
        if fromlist:
            return m
        return load("gwinferno")
    if name in SHIMS:
        if fromlist or "." not in name:
            return SHIMS[name]
        top = name.split(".")[0]
        if top in SHIMS:
            return SHIMS[top]
        return _real_import(name, globals, locals, fromlist, 0)
    if name == "importlib":
        m = types.ModuleType("importlib")
        m.__getattr__ = lambda n: getattr(importlib, n)
        m.import_module = lambda n, package=None: load(n) if n.startswith("gwinferno") else (SHIMS.get(n) or importlib.import_module(n, package))
        return m
    return _real_import(name, globals, locals, fromlist, 0)


def load(full):
    m = SHADOW.get(full)
    if m is not None:
        return m
    hit = _find(full)
    if hit is None:
        raise ModuleNotFoundError(f"No module named {full!r}", name=full)
    path, pkg = hit
    saved = sc.EngineRef.cur
    saved_hooks = tm.HOOKS
    sc.EngineRef.cur = None
    tm.HOOKS = tm.Hooks()
    try:
        if pkg:
            m = ShadowPackage(full)
            m.__path__ = [path]
            m.__package__ = full
            m.__file__ = os.path.join(path, "__init__.py")
            SHADOW[full] = m
        else:
            m = types.ModuleType(full)
            m.__package__ = full.rsplit(".", 1)[0]
            m.__file__ = path
            SHADOW[full] = m
            try:
                _exec(m, path)
            except BaseException:
                del SHADOW[full]
                raise
        if "." in full:
            parent, leaf = full.rsplit(".", 1)
            load(parent).__dict__[leaf] = m
    finally:
        sc.EngineRef.cur = saved
        tm.HOOKS = saved_hooks
    return m


# ------------------------------------------------------------------ which functions of /repo were executed
class Coverage:
    def __init__(self):
        self.seen = set()

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(mon.PROFILER_ID, "verif")
        mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, self._cb)
        mon.set_events(mon.PROFILER_ID, mon.events.PY_START)

    def _cb(self, code, off):
        if code.co_filename.startswith(REPO + "/"):
            self.seen.add(f"{os.path.relpath(code.co_filename, REPO)}::{code.co_qualname}")
        return sys.monitoring.DISABLE

    def stop(self):
        mon = sys.monitoring
        mon.set_events(mon.PROFILER_ID, 0)
        mon.free_tool_id(mon.PROFILER_ID)
