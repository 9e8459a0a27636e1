"""Array layer: object-dtype ndarrays of exact scalars with numpy (NArr) or jax (JArr) semantics."""
import math
import operator
from fractions import Fraction as Q

import numpy as np

from . import scal as sc
from . import terms as tm
from .scal import EngineRef, norm, NAN, INF
from .terms import T, T0, T1, Unsupported, tconst


def exact():
    return EngineRef.cur is not None


class Cfg:
    grid = 4  # number of nodes of an abstracted large grid
    grid_threshold = 60  # grids with at least this many nodes are abstracted


_norm_u = np.frompyfunc(norm, 1, 1)


class XArr(np.ndarray):
    __array_priority__ = 2000

    def __array_finalize__(self, obj):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        J = any(isinstance(i, JArr) for i in inputs)
        outs = out if isinstance(out, tuple) else ((out,) if out is not None else None)
        res = apply_ufunc(ufunc.__name__, method, inputs, kw)
        if where is not True:
            w = coerce(where).astype(bool)
            base = coerce(outs[0]) if outs else np.full(np.shape(res), T0, dtype=object)
            res = np.where(w, coerce(res), base)
        if outs is not None:
            o = outs[0]
            if isinstance(o, JArr):
                raise TypeError("JAX arrays are immutable")
            r = coerce(res)
            if o.dtype != object and r.dtype == object:
                raise TypeError(f"Cannot cast ufunc '{ufunc.__name__}' output from dtype('float64') to {o.dtype!r} with casting rule 'same_kind'")
            o.view(np.ndarray)[...] = r
            return o
        return wrap(res, J)

    # python-level conveniences -------------------------------------------------
    def __getitem__(self, k):
        k = fix_index(k)
        r = self.view(np.ndarray)[k]
        if isinstance(r, np.ndarray):
            return r.view(type(self))
        return r

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __contains__(self, x):
        return any(bool(sc.s_eq(x, y)) for y in self.view(np.ndarray).ravel())

    def astype(self, dtype, *a, **k):
        return wrap(_astype(coerce(self), dtype), isinstance(self, JArr))

    def item(self, *a):
        r = self.view(np.ndarray).item(*a)
        return r

    def tolist(self):
        return self.view(np.ndarray).tolist()

    def copy(self, *a, **k):
        return self.view(np.ndarray).copy().view(type(self))

    def __bool__(self):
        if self.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous.")
        return bool(self.view(np.ndarray).ravel()[0])

    def __float__(self):
        return float(self.view(np.ndarray).ravel()[0])

    def __int__(self):
        return int(self.view(np.ndarray).ravel()[0])

    def __index__(self):
        return operator.index(self.view(np.ndarray).item())

    def __matmul__(self, o):
        return NATIVE["matmul"](self, o)

    def __rmatmul__(self, o):
        return NATIVE["matmul"](o, self)

    @property
    def T(self):
        return self.view(np.ndarray).T.view(type(self))

    @property
    def real(self):
        return self

    def __reduce__(self):
        raise Unsupported("pickling symbolic arrays")

    def __hash__(self):
        return id(self)


def _method(name):
    def m(self, *a, **k):
        k.pop("out", None)
        return wrap(NATIVE[name](self, *a, **k), isinstance(self, JArr))

    m.__name__ = name
    return m


def _smethod(name):
    def m(self, *a, **k):
        r = getattr(self.view(np.ndarray), name)(*a, **k)
        return r.view(type(self)) if isinstance(r, np.ndarray) else r

    m.__name__ = name
    return m


class NArr(XArr):
    def __setitem__(self, k, v):
        k = fix_index(k)
        a = self.view(np.ndarray)
        if isinstance(v, JArr) and v.ndim and not isinstance(a[k], np.ndarray):
            raise ValueError("setting an array element with a sequence.")
        v = coerce(v)
        if a.dtype != object:
            if v.dtype == object:
                if a.dtype.kind in "iu":
                    v = _astype(v, int)
                elif a.dtype.kind == "b":
                    v = _astype(v, bool)
        else:
            v = to_obj(v)
        if v.ndim == 0:
            v = v.item() if v.dtype == object else v[()]
        a[k] = v


class JArr(XArr):
    def __setitem__(self, k, v):
        raise TypeError("JAX arrays are immutable and do not support in-place item assignment. Instead of ``x[idx] = y``, use ``x = x.at[idx].set(y)``")

    @property
    def at(self):
        return _At(self)

    def block_until_ready(self):
        return self

    @property
    def aval(self):
        return self


def _inplace(op):
    def f(self, o):
        return op(self, o)

    return f


for _n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "and", "or", "xor"):
    _o = getattr(operator, {"and": "and_", "or": "or_"}.get(_n, _n))
    setattr(JArr, f"__i{_n}__", _inplace(_o))


class _At:
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        return _AtIdx(self.a, fix_index(k))


class _AtIdx:
    def __init__(self, a, k):
        self.a = a
        self.k = k

    def _base(self, v):
        a = coerce(self.a).copy()
        v = coerce(v)
        if v.dtype == object and a.dtype != object:
            a = to_obj(a)  # jax would cast to the int dtype; promote conservatively only for bool/int
        if a.dtype == object:
            v = to_obj(v)
        return a, v

    def set(self, v, **k):
        a, v = self._base(v)
        if v.ndim == 0:
            v = v.item() if v.dtype == object else v[()]
        try:
            a[self.k] = v
        except IndexError:
            if not self._oob(a):
                raise
        return a.view(JArr)

    def _oob(self, a):
        return isinstance(self.k, (int, np.integer)) and not (-len(a) <= self.k < len(a))

    def _op(self, fn, v):
        a, v = self._base(v)
        a = to_obj(a) if a.dtype == object or v.dtype == object else a
        idx = np.arange(a.size).reshape(a.shape)[self.k]
        idx = np.asarray(idx)
        vb = np.broadcast_to(v, idx.shape)
        flat = a.reshape(-1).copy()
        for i, x in zip(idx.ravel(), vb.ravel()):
            flat[i] = fn(flat[i], x)
        return flat.reshape(a.shape).view(JArr)

    def add(self, v, **k):
        return self._op(operator.add, v)

    def subtract(self, v, **k):
        return self._op(operator.sub, v)

    def multiply(self, v, **k):
        return self._op(operator.mul, v)

    mul = multiply

    def divide(self, v, **k):
        return self._op(sc.s_div, v)

    def power(self, v, **k):
        return self._op(sc.s_pow, v)

    def min(self, v, **k):
        return self._op(sc.s_min, v)

    def max(self, v, **k):
        return self._op(sc.s_max, v)

    def apply(self, fn, **k):
        return self.set(fn(self.get()))

    def get(self, **k):
        return self.a[self.k]


def fix_index(k):
    def one(i):
        if isinstance(i, T):
            return operator.index(i)
        if isinstance(i, XArr):
            a = i.view(np.ndarray)
            if a.dtype == object:
                if a.size and all(isinstance(x, (bool, np.bool_)) for x in a.ravel()):
                    return a.astype(bool)
                raise IndexError("arrays used as indices must be of integer (or boolean) type")
            return a
        if isinstance(i, slice):
            return slice(*[None if z is None else operator.index(z) for z in (i.start, i.stop, i.step)])
        if type(i).__module__.startswith("jax"):
            return np.asarray(i)
        return i

    if isinstance(k, tuple):
        return tuple(one(i) for i in k)
    return one(k)


# ------------------------------------------------------------------ coercion
def to_obj(a):
    a = np.asarray(a) if not isinstance(a, np.ndarray) else a.view(np.ndarray)
    if a.dtype == object:
        return a
    r = _norm_u(a)
    if not isinstance(r, np.ndarray):
        z = np.empty((), dtype=object)
        z[()] = r
        return z
    return r


def box(x):
    z = np.empty((), dtype=object)
    z[()] = x
    return z


def coerce(x):
    """plain ndarray: object (exact scalars) or int/bool/str"""
    if isinstance(x, XArr):
        return x.view(np.ndarray)
    if isinstance(x, T):
        return box(x)
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "f":
            return to_obj(x)
        if x.dtype == object:
            if all(isinstance(e, (T, float, int, bool, np.generic, Q)) for e in x.ravel()):
                if all(isinstance(e, (bool, np.bool_)) for e in x.ravel()) and x.size:
                    return x.astype(bool)
                r = _norm_u(x)
                return r if isinstance(r, np.ndarray) else box(r)
            return x
        return x
    if isinstance(x, (bool, np.bool_, int, np.integer)):
        return np.asarray(x)
    if isinstance(x, (float, np.floating, Q)):
        return box(norm(x))
    if isinstance(x, (complex, np.complexfloating)):
        return box(norm(x))
    if isinstance(x, (list, tuple)):
        if not len(x):
            return np.zeros((0,), dtype=object)
        parts = [coerce(e) for e in x]
        if any(p.dtype.kind in "US" for p in parts):
            return np.array(x)
        if any(p.dtype == object for p in parts):
            parts = [to_obj(p) for p in parts]
        shp = parts[0].shape
        if any(p.shape != shp for p in parts):
            raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return np.stack(parts)
    if isinstance(x, range):
        return np.array(x)
    if hasattr(x, "__array__"):
        return coerce(np.asarray(x))
    if isinstance(x, (str, bytes)):
        return np.asarray(x)
    if hasattr(x, "__iter__") and hasattr(x, "__len__"):
        return coerce(list(x))
    raise TypeError(f"Cannot interpret value of type {type(x)} as an array")


def wrap(r, J):
    cls = JArr if J else NArr
    if isinstance(r, XArr):
        if type(r) is cls:
            return r
        return r.view(np.ndarray).view(cls)
    if isinstance(r, np.ndarray):
        if r.dtype.kind == "f":
            r = to_obj(r)
        elif r.dtype == object and r.size and not all(isinstance(e, (T, float)) for e in r.ravel()):
            if all(isinstance(e, (T, float, int, bool, np.generic, Q)) for e in r.ravel()):
                if all(isinstance(e, (bool, np.bool_)) for e in r.ravel()):
                    r = r.astype(bool)
                else:
                    q = _norm_u(r)
                    r = q if isinstance(q, np.ndarray) else box(q)
        if r.ndim == 0:
            return r.item() if r.dtype == object else r[()]
        return r.view(cls)
    if isinstance(r, (tuple, list)):
        return type(r)(wrap(x, J) for x in r)
    if isinstance(r, (float, np.floating)):
        return norm(r)
    return r


def _astype(a, dtype):
    if dtype in (bool, np.bool_):
        if a.dtype == object:
            return np.array([sc.s_truth(x) for x in a.ravel()], dtype=bool).reshape(a.shape)
        return a.astype(bool)
    dt = np.dtype(dtype) if not isinstance(dtype, np.dtype) else dtype
    if dt.kind in "iu":
        if a.dtype == object:
            return np.array([int(x) for x in a.ravel()], dtype=int).reshape(a.shape)
        return a.astype(int)
    if dt.kind == "b":
        return _astype(a, bool)
    if dt.kind == "f":
        return to_obj(a).copy()
    if dt.kind == "O":
        return a
    return a.astype(dt)


# ------------------------------------------------------------------ ufuncs
BIN = {
    "add": sc.s_add, "subtract": sc.s_sub, "multiply": sc.s_mul, "divide": sc.s_div, "true_divide": sc.s_div,
    "power": sc.s_pow, "float_power": sc.s_pow, "maximum": sc.s_max, "minimum": sc.s_min, "arctan2": sc.s_atan2,
    "remainder": sc.s_mod, "mod": sc.s_mod, "floor_divide": lambda a, b: sc.s_floor(sc.s_div(a, b)),
    "logaddexp": lambda a, b: sc.s_log(sc.s_add(sc.s_exp(a), sc.s_exp(b))),
    "hypot": lambda a, b: sc.s_sqrt(sc.s_add(sc.s_mul(a, a), sc.s_mul(b, b))),
    "fmax": lambda a, b: b if sc.s_isnan(a) else (a if sc.s_isnan(b) else sc.s_max(a, b)),
    "fmin": lambda a, b: b if sc.s_isnan(a) else (a if sc.s_isnan(b) else sc.s_min(a, b)),
    "xlogy": sc.s_xlogy, "heaviside": lambda a, b: T1 if sc.s_gt(a, 0) else (b if sc.s_eq(a, 0) else T0),
}
CMP = {"less": sc.s_lt, "less_equal": sc.s_le, "greater": sc.s_gt, "greater_equal": sc.s_ge, "equal": sc.s_eq, "not_equal": sc.s_ne}
UN = {
    "exp": sc.s_exp, "log": sc.s_log, "sqrt": sc.s_sqrt, "sin": sc.s_sin, "cos": sc.s_cos, "tan": sc.s_tan,
    "arccos": sc.s_acos, "arcsin": sc.s_asin, "arctan": sc.s_atan, "arctanh": sc.s_atanh, "sinh": sc.s_sinh, "cosh": sc.s_cosh, "tanh": sc.s_tanh,
    "acos": sc.s_acos, "asin": sc.s_asin, "atan": sc.s_atan, "atanh": sc.s_atanh,
    "log1p": sc.s_log1p, "expm1": sc.s_expm1, "absolute": sc.s_abs, "fabs": sc.s_abs, "abs": sc.s_abs, "negative": sc.s_neg, "positive": norm,
    "sign": sc.s_sign, "floor": sc.s_floor, "ceil": sc.s_ceil, "square": lambda a: sc.s_mul(a, a), "reciprocal": sc.s_inv,
    "log2": lambda a: sc.s_div(sc.s_log(a), sc.s_log(2)), "log10": lambda a: sc.s_div(sc.s_log(a), sc.s_log(10)),
    "exp2": lambda a: sc.s_pow(2, a), "conjugate": norm, "rint": lambda a: sc.s_floor(sc.s_add(a, Q(1, 2))),
    "erf": sc.s_erf, "erfc": sc.s_erfc, "ndtr": sc.s_ndtr, "gammaln": sc.s_lgamma, "expit": sc.s_logistic, "sigmoid": sc.s_logistic,
    "logit": lambda a: sc.s_sub(sc.s_log(a), sc.s_log(sc.s_sub(1, a))), "spence": sc.s_spence, "lgamma": sc.s_lgamma,
    "deg2rad": lambda a: sc.s_mul(a, tm.PI * Q(1, 180)), "radians": lambda a: sc.s_mul(a, tm.PI * Q(1, 180)),
    "trunc": lambda a: sc.s_floor(a) if sc.s_ge(a, 0) else sc.s_ceil(a),
}
UNB = {"isnan": sc.s_isnan, "isinf": sc.s_isinf, "isfinite": sc.s_isfinite, "signbit": lambda a: sc.s_lt(a, 0), "isposinf": lambda a: sc.s_isinf(a) and a > 0,
       "isneginf": lambda a: sc.s_isinf(a) and a < 0}
LOGIC = {"logical_and", "logical_or", "logical_xor", "logical_not"}
BITS = {"bitwise_and", "bitwise_or", "bitwise_xor", "invert", "left_shift", "right_shift"}
INTOK = {"add", "subtract", "multiply", "maximum", "minimum", "remainder", "mod", "floor_divide", "absolute", "fabs", "abs", "negative", "positive", "sign", "square"}


def map1(f, a, out_bool=False):
    a = to_obj(a)
    r = np.empty(a.shape, dtype=bool if out_bool else object)
    fl = r.reshape(-1) if r.ndim else None
    if r.ndim == 0:
        r[()] = f(a.item())
        return r
    for i, x in enumerate(a.ravel()):
        fl[i] = f(x)
    return r


def map2(f, a, b, out_bool=False):
    a, b = np.broadcast_arrays(to_obj(a), to_obj(b))
    r = np.empty(a.shape, dtype=bool if out_bool else object)
    if r.ndim == 0:
        r[()] = f(a.item(), b.item())
        return r
    fl = r.reshape(-1)
    for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
        fl[i] = f(x, y)
    return r


def elementwise(name, *inputs):
    ins = [coerce(i) for i in inputs]
    isint = all(i.dtype.kind in "iub" for i in ins)
    if any(i.dtype.kind in "USO" and i.dtype != object for i in ins):
        return getattr(np, name)(*ins)
    if name in LOGIC:
        ins = [_astype(i, bool) for i in ins]
        return getattr(np, name)(*ins)
    if name in BITS:
        ins2 = []
        for i in ins:
            if i.dtype == object:
                if any(isinstance(e, T) for e in i.ravel()):
                    raise TypeError(f"ufunc '{name}' not supported for the input types")
                i = i.astype(bool)
            ins2.append(i)
        return getattr(np, name)(*ins2)
    if isint and (name in INTOK or name in CMP):
        return getattr(np, name)(*ins)
    if isint and name == "power" and (ins[1] >= 0).all():
        return np.power(*ins)
    if name in BIN:
        return map2(BIN[name], *ins)
    if name in CMP:
        return map2(CMP[name], *ins, out_bool=True)
    if name in UN:
        return map1(UN[name], *ins)
    if name in UNB:
        return map1(UNB[name], *ins, out_bool=True)
    if name == "clip":
        return NATIVE["clip"](*inputs)
    raise Unsupported(f"ufunc {name}")


def apply_ufunc(name, method, inputs, kw):
    if method == "__call__":
        if name == "matmul":
            return NATIVE["matmul"](*inputs)
        return elementwise(name, *inputs)
    if method == "reduce":
        axis = kw.get("axis", 0)
        keep = kw.get("keepdims", False)
        return reduce_(name, coerce(inputs[0]), axis, keep)
    if method == "accumulate":
        return accumulate_(name, coerce(inputs[0]), kw.get("axis", 0))
    if method == "outer":
        a, b = coerce(inputs[0]), coerce(inputs[1])
        return elementwise(name, a.reshape(a.shape + (1,) * b.ndim), b)
    if method == "at":
        raise Unsupported("ufunc.at")
    raise Unsupported(f"ufunc method {method}")


def reduce_(name, a, axis=None, keepdims=False):
    if name in ("add", "multiply", "maximum", "minimum") and a.dtype.kind in "iub" or name in LOGIC | BITS:
        if name in LOGIC:
            a = _astype(a, bool)
        return getattr(np, name).reduce(a, axis=axis, keepdims=keepdims)
    a = to_obj(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, (tuple, list)):
        axes = tuple(ax % a.ndim for ax in axis)
    else:
        axes = (axis % a.ndim,) if a.ndim else ()
    rest = [i for i in range(a.ndim) if i not in axes]
    b = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1]) if axes else a.reshape(a.shape + (1,))
    f = BIN[name]
    out = np.empty(b.shape[:-1], dtype=object)
    ident = {"add": T0, "multiply": T1}.get(name)
    for idx in np.ndindex(*b.shape[:-1]):
        row = b[idx]
        if len(row) == 0:
            if ident is None:
                raise ValueError("zero-size array to reduction operation which has no identity")
            out[idx] = ident
            continue
        acc = norm(row[0])
        for x in row[1:]:
            acc = f(acc, x)
        out[idx] = acc
    if keepdims:
        out = out.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
    return out


def accumulate_(name, a, axis=0):
    if a.dtype.kind in "iu":
        return getattr(np, name).accumulate(a, axis=axis)
    a = to_obj(a)
    f = BIN[name]
    out = np.moveaxis(a, axis, 0).copy()
    for i in range(1, len(out)):
        r = map2(f, out[i - 1], out[i])
        out[i] = r.item() if r.ndim == 0 else r
    return np.moveaxis(out, 0, axis)


# ------------------------------------------------------------------ native functions
NATIVE = {}


def native(*names):
    def d(f):
        for n in names or (f.__name__,):
            NATIVE[n] = f
        return f

    return d


for _n in list(BIN) + list(CMP) + list(UN) + list(UNB) + list(LOGIC) + list(BITS):
    NATIVE[_n] = (lambda n: lambda *a, **k: _kw_ufunc(n, a, k))(_n)


def _kw_ufunc(n, a, k):
    out = k.pop("out", None)
    where = k.pop("where", None)
    k.pop("dtype", None)
    r = elementwise(n, *a)
    if where is not None:
        w = coerce(where).astype(bool)
        base = coerce(out) if out is not None else np.full(np.shape(r), T0, dtype=object)
        r = np.where(w, r, base)
    if out is not None:
        out.view(np.ndarray)[...] = r
        return out
    return r


@native("array", "asarray", "ascontiguousarray", "asanyarray")
def array(x, dtype=None, copy=None, ndmin=0, **k):
    a = coerce(x)
    if dtype is not None:
        a = _astype(a, dtype)
    a = np.array(a)  # copy
    while a.ndim < ndmin:
        a = a[None]
    return a


def _asarray_np(x, dtype=None, **k):
    if isinstance(x, NArr) and (dtype is None or np.dtype(dtype).kind == "f" and x.dtype == object):
        return x
    return array(x, dtype)


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(operator.index(i) for i in s)
    if isinstance(s, np.ndarray) and s.ndim:
        return tuple(operator.index(i) for i in s)
    return (operator.index(s),)


def _full(shape, v, dtype=None):
    if dtype is not None and np.dtype(dtype).kind in "iub":
        return np.full(_shape(shape), v, dtype=dtype)
    if dtype is not None and np.dtype(dtype).kind in "USO":
        return np.full(_shape(shape), v, dtype=dtype)
    r = np.empty(_shape(shape), dtype=object)
    v = coerce(v)
    if dtype is None and v.dtype.kind == "b":
        return np.full(_shape(shape), v)
    v = to_obj(v)
    r[...] = v if v.ndim else v.item()
    return r


native("zeros", "empty")(lambda shape, dtype=None, **k: _full(shape, 0 if dtype is None else 0, dtype or float))
native("ones")(lambda shape, dtype=None, **k: _full(shape, 1, dtype or float))
native("full")(lambda shape, fill_value, dtype=None, **k: _full(shape, fill_value, dtype))


def _like(x, v, dtype, shape=None):
    a = coerce(x)
    if dtype is None:
        dtype = a.dtype if a.dtype.kind in "iub" else float
    return _full(a.shape if shape is None else shape, v, dtype)


native("zeros_like", "empty_like")(lambda x, dtype=None, shape=None, **k: _like(x, 0, dtype, shape))
native("ones_like")(lambda x, dtype=None, shape=None, **k: _like(x, 1, dtype, shape))
native("full_like")(lambda x, fill_value, dtype=None, shape=None, **k: _full(coerce(x).shape if shape is None else shape, fill_value, dtype))


@native("eye", "identity")
def eye(n, m=None, k=0, dtype=None, **kw):
    e = np.eye(operator.index(n), m, k, dtype=int)
    return to_obj(e) if dtype is None or np.dtype(dtype).kind == "f" else e.astype(dtype)


@native("arange")
def arange(*a, step=None, dtype=None, **kw):
    a = [norm(x) for x in a]
    if len(a) == 1:
        lo, hi, st = T0, a[0], T1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], T1
    else:
        lo, hi, st = a
    if step is not None:
        st = norm(step)
    lo, hi, st = [tm.HOOKS.subst(x) for x in (lo, hi, st)]
    if all(x.is_const() and x.const().denominator == 1 for x in (lo, hi, st)):
        r = np.arange(int(lo.const()), int(hi.const()), int(st.const()))
        return r if dtype is None else _astype(r, dtype)
    ratio = tm.HOOKS.subst(sc.s_div(sc.s_sub(hi, lo), st))
    if ratio.is_const():
        n = max(int(sc.s_ceil(ratio).const()), 0)
    else:  # one path per length
        if not bool(sc.s_gt(st, 0)):
            raise Unsupported("arange with a step that may be negative")
        n = 0
        if bool(sc.s_gt(ratio, Cfg.grid_threshold)):
            n = Cfg.grid_threshold
        else:
            while n < Cfg.grid_threshold and not bool(sc.s_le(ratio, n)):
                n += 1
    if n >= Cfg.grid_threshold:
        n = Cfg.grid
        st = sc.s_div(sc.s_sub(hi, lo), n)
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = sc.s_add(lo, sc.s_mul(st, i))
    return r


@native("linspace")
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    num = operator.index(num)
    if num >= Cfg.grid_threshold:
        num = Cfg.grid
    a, b = np.broadcast_arrays(to_obj(coerce(start)), to_obj(coerce(stop)))
    div = (num - 1) if endpoint else num
    out = np.empty((num,) + a.shape, dtype=object)
    d = map2(sc.s_sub, b, a)
    for i in range(num):
        if endpoint and i == num - 1 and num > 1:
            out[i] = b if b.ndim else b.item()
            continue
        w = Q(i, div) if div > 0 else Q(0)
        v = map2(sc.s_add, a, map1(lambda z, w=w: sc.s_mul(z, w), d))
        out[i] = v if v.ndim else v.item()
    if retstep:
        return out, sc.s_div(d.item(), div)
    if dtype is not None:
        out = _astype(out, dtype)
    return out


@native("logspace")
def logspace(start, stop, num=50, endpoint=True, base=10.0, **k):
    return map1(lambda z: sc.s_pow(base, z), linspace(start, stop, num, endpoint))


@native("geomspace")
def geomspace(start, stop, num=50, **k):
    return map1(sc.s_exp, linspace(sc.s_log(start), sc.s_log(stop), num))


@native("where")
def where(c, x=None, y=None, **k):
    c = _astype(coerce(c), bool)
    if x is None and y is None:
        return tuple(r for r in np.nonzero(c))
    x, y = coerce(x), coerce(y)
    if x.dtype == object or y.dtype == object:
        x, y = to_obj(x), to_obj(y)
    return np.where(c, x, y)


@native("select")
def select(condlist, choicelist, default=0):
    ch = [coerce(x) for x in choicelist] + [coerce(default)]
    if any(x.dtype == object for x in ch):
        ch = [to_obj(x) for x in ch]
    r = ch[-1]
    for c, x in reversed(list(zip(condlist, ch[:-1]))):
        r = np.where(_astype(coerce(c), bool), x, r)
    return r


@native("piecewise")
def piecewise(x, condlist, funclist, *a, **k):
    x = coerce(x)
    out = np.full(x.shape, T0, dtype=object)
    rem = np.ones(x.shape, bool)
    cs = [np.broadcast_to(_astype(coerce(c), bool), x.shape) for c in condlist]
    if len(funclist) == len(cs) + 1:
        cs.append(~np.any(cs, axis=0))
    for c, f in zip(cs, funclist):
        v = f(x[c].view(NArr), *a, **k) if callable(f) else f
        v = to_obj(coerce(v))
        out[c] = v if v.ndim else v.item()
    return out


@native("clip")
def clip(x, a_min=None, a_max=None, out=None, min=None, max=None, **k):  # noqa
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = coerce(x)
    if a_min is not None:
        r = elementwise("maximum", r, a_min)
    if a_max is not None:
        r = elementwise("minimum", r, a_max)
    return r


@native("sum")
def nsum(a, axis=None, dtype=None, keepdims=False, where=None, initial=None, out=None, **k):  # noqa
    a = coerce(a)
    if a.dtype.kind == "b":
        a = a.astype(int)
    if where is not None:
        a = np.where(_astype(coerce(where), bool), a, T0 if a.dtype == object else 0)
    r = reduce_("add", a, axis, keepdims)
    return r if initial is None else elementwise("add", r, initial)


@native("prod", "product")
def nprod(a, axis=None, keepdims=False, **k):
    return reduce_("multiply", coerce(a), axis, keepdims)


@native("max", "amax")
def nmax(a, axis=None, keepdims=False, initial=None, where=None, **k):  # noqa
    a = coerce(a)
    if where is not None:
        a = np.where(_astype(coerce(where), bool), to_obj(a), -INF if initial is None else norm(initial))
    if a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation maximum which has no identity")
    r = reduce_("maximum", a, axis, keepdims)
    return r if initial is None else elementwise("maximum", r, initial)


@native("min", "amin")
def nmin(a, axis=None, keepdims=False, initial=None, where=None, **k):  # noqa
    a = coerce(a)
    if where is not None:
        a = np.where(_astype(coerce(where), bool), to_obj(a), INF if initial is None else norm(initial))
    if a.size == 0 and initial is None:
        raise ValueError("zero-size array to reduction operation minimum which has no identity")
    r = reduce_("minimum", a, axis, keepdims)
    return r if initial is None else elementwise("minimum", r, initial)


@native("ptp")
def ptp(a, axis=None):
    return elementwise("subtract", nmax(a, axis), nmin(a, axis))


def _count(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, (tuple, list)):
        n = 1
        for x in axis:
            n *= a.shape[x]
        return n
    return a.shape[axis]


@native("mean", "nanmean")
def mean(a, axis=None, keepdims=False, where=None, **k):  # noqa
    a = coerce(a)
    if where is not None:
        w = np.broadcast_to(_astype(coerce(where), bool), a.shape)
        return elementwise("divide", nsum(a, axis, keepdims=keepdims, where=w), nsum(w.astype(int), axis, keepdims=keepdims))
    return elementwise("divide", nsum(a, axis, keepdims=keepdims), _count(a, axis))


@native("average")
def average(a, axis=None, weights=None, **k):
    if weights is None:
        return mean(a, axis)
    return elementwise("divide", nsum(elementwise("multiply", a, weights), axis), nsum(weights, axis))


@native("var")
def nvar(a, axis=None, ddof=0, keepdims=False, **k):
    a = coerce(a)
    m = mean(a, axis, keepdims=True)
    d = elementwise("subtract", a, m)
    return elementwise("divide", nsum(elementwise("multiply", d, d), axis, keepdims=keepdims), _count(a, axis) - ddof)


@native("std")
def nstd(a, axis=None, ddof=0, **k):
    return map1(sc.s_sqrt, coerce(nvar(a, axis, ddof)))


@native("cumsum")
def cumsum(a, axis=None, **k):
    a = coerce(a)
    if a.dtype.kind == "b":
        a = a.astype(int)
    if axis is None:
        a = a.ravel()
        axis = 0
    return accumulate_("add", a, axis)


@native("cumprod")
def cumprod(a, axis=None, **k):
    a = coerce(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    return accumulate_("multiply", a, axis)


@native("any")
def nany(a, axis=None, keepdims=False, **k):
    return np.any(_astype(coerce(a), bool), axis=axis, keepdims=keepdims)


@native("all")
def nall(a, axis=None, keepdims=False, **k):
    return np.all(_astype(coerce(a), bool), axis=axis, keepdims=keepdims)


def _argext(a, axis, better):
    a = coerce(a)
    if a.dtype != object:
        return (np.argmax if better is sc.s_gt else np.argmin)(a, axis=axis)
    if axis is None:
        a = a.ravel()
        axis = 0
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=int)
    for idx in np.ndindex(*b.shape[:-1]):
        row = b[idx]
        best = 0
        for i in range(1, len(row)):
            if sc.s_isnan(row[best]):
                break
            if sc.s_isnan(row[i]) or better(row[i], row[best]):
                best = i
        out[idx] = best
    return out


native("argmax")(lambda a, axis=None, **k: _argext(a, axis, sc.s_gt))
native("argmin")(lambda a, axis=None, **k: _argext(a, axis, sc.s_lt))


def _sort_idx(row):
    import functools

    def cmp(i, j):
        if sc.s_lt(row[i], row[j]):
            return -1
        if sc.s_gt(row[i], row[j]):
            return 1
        return 0

    return sorted(range(len(row)), key=functools.cmp_to_key(cmp))


@native("argsort")
def argsort(a, axis=-1, **k):
    a = coerce(a)
    if a.dtype != object:
        return np.argsort(a, axis=axis, kind="stable")
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape, dtype=int)
    for idx in np.ndindex(*b.shape[:-1]):
        out[idx] = _sort_idx(b[idx])
    return np.moveaxis(out, -1, axis)


@native("sort")
def sort(a, axis=-1, **k):
    a = coerce(a)
    if axis is None:
        a = a.ravel()
        axis = -1
    return np.take_along_axis(a, argsort(a, axis), axis)


@native("median", "nanmedian")
def median(a, axis=None, **k):
    a = coerce(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    s = np.moveaxis(sort(a, axis), axis, 0)
    n = len(s)
    if n % 2:
        return s[n // 2]
    return elementwise("multiply", elementwise("add", s[n // 2 - 1], s[n // 2]), Q(1, 2))


def _quantile(a, q, axis, scale, method):
    if method != "linear":
        raise Unsupported("percentile method " + str(method))
    a = coerce(a)
    if axis is None:
        a = a.ravel()
        axis = 0
    qs = coerce(q)
    if qs.dtype == object and any(isinstance(v, T) and not v.is_const() for v in qs.ravel()):
        raise Unsupported("symbolic percentile")
    s = np.moveaxis(sort(a, axis), axis, 0)
    out = []
    for v in qs.ravel():
        v = v.const() if isinstance(v, T) else Q(str(float(v)))
        p = Q(v) / scale * (len(s) - 1)
        if not 0 <= p <= len(s) - 1:
            raise ValueError("Percentiles must be in the range [0, 100]")
        i = min(int(p), len(s) - 1)
        j = min(i + 1, len(s) - 1)
        out.append(elementwise("add", elementwise("multiply", s[i], 1 - (p - i)), elementwise("multiply", s[j], p - i)))
    return out[0] if qs.ndim == 0 else np.stack([coerce(o) for o in out])


@native("percentile", "nanpercentile")
def percentile(a, q, axis=None, out=None, overwrite_input=False, method="linear", **k):
    return _quantile(a, q, axis, 100, method)


@native("quantile", "nanquantile")
def quantile(a, q, axis=None, out=None, overwrite_input=False, method="linear", **k):
    return _quantile(a, q, axis, 1, method)


@native("diff")
def ndiff(a, n=1, axis=-1, **k):
    a = coerce(a)
    for _ in range(n):
        b = np.moveaxis(a, axis, 0)
        a = np.moveaxis(np.asarray(elementwise("subtract", b[1:], b[:-1])), 0, axis)
    return a


@native("gradient")
def gradient(*a, **k):
    raise Unsupported("gradient")


@native("trapz", "trapezoid")
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = to_obj(coerce(y))
    if x is None:
        b = np.moveaxis(y, axis, -1)
        w = elementwise("multiply", elementwise("add", b[..., 1:], b[..., :-1]), sc.s_mul(dx, Q(1, 2)))
        return nsum(w, -1)
    x = to_obj(coerce(x))
    if x.ndim == 1:
        d = ndiff(x)
        b = np.moveaxis(y, axis, -1)
    else:
        b = np.moveaxis(y, axis, -1)
        d = ndiff(np.moveaxis(x, axis, -1))
    w = elementwise("multiply", elementwise("multiply", elementwise("add", b[..., 1:], b[..., :-1]), Q(1, 2)), d)
    return nsum(w, -1)


def _locate(x, xp, right=True):
    """number of xp entries <= x (right) or < x (left), xp sorted; forks by bisection"""
    lo, hi = 0, len(xp)
    while lo < hi:
        mid = (lo + hi) // 2
        if (sc.s_le if right else sc.s_lt)(xp[mid], x):
            lo = mid + 1
        else:
            hi = mid
    return lo


@native("interp")
def interp(x, xp, fp, left=None, right=None, period=None, **k):
    x, xp, fp = to_obj(coerce(x)), to_obj(coerce(xp)), to_obj(coerce(fp))
    if xp.ndim != 1 or fp.ndim != 1 or len(xp) != len(fp):
        raise ValueError("xp and fp must be one-dimensional arrays of equal size")
    n = len(xp)
    left = None if isinstance(left, str) else left
    right = None if isinstance(right, str) else right

    def one(v):
        if not isinstance(v, T):
            if v != v:
                return NAN
            if v > 0:
                return fp[-1] if right is None else norm(right)
            return fp[0] if left is None else norm(left)
        i = _locate(v, xp)
        if i == 0:
            return fp[0] if left is None else norm(left)
        if i == n:
            if right is None or sc.s_eq(v, xp[-1]):
                return fp[-1]
            return norm(right)
        dx = sc.s_sub(xp[i], xp[i - 1])
        w = sc.s_div(sc.s_sub(v, xp[i - 1]), dx)
        return sc.s_add(fp[i - 1], sc.s_mul(w, sc.s_sub(fp[i], fp[i - 1])))

    return map1(one, x)


@native("searchsorted")
def searchsorted(a, v, side="left", sorter=None, **k):
    a, v = to_obj(coerce(a)), to_obj(coerce(v))
    r = np.empty(v.shape, dtype=int)
    for i, x in enumerate(v.ravel()):
        r.reshape(-1)[i] = _locate(x, a, right=(side == "right"))
    return r if r.ndim else r[()]


@native("digitize")
def digitize(x, bins, right=False, **k):
    x, b = to_obj(coerce(x)), to_obj(coerce(bins))
    inc = True
    if len(b) > 1 and sc.s_lt(b[-1], b[0]):
        inc = False
    if not inc:
        n = len(b)
        return n - searchsorted(b[::-1], x, side="right" if right else "left")
    return searchsorted(b, x, side="left" if right else "right")


@native("einsum")
def einsum(spec, *ops, **k):
    ops = [coerce(o) for o in ops]
    if all(o.dtype != object for o in ops):
        return np.einsum(spec, *ops)
    ops = [to_obj(o) for o in ops]
    spec = spec.replace(" ", "")
    if "->" in spec:
        lhs, out = spec.split("->")
        ins = lhs.split(",")
    else:
        ins = spec.split(",")
        s = "".join(ins).replace(".", "")
        out = ("..." if "..." in spec else "") + "".join(sorted(c for c in set(s) if s.count(c) == 1))
    if len(ins) != len(ops):
        raise ValueError("einsum: wrong number of operands")
    if "..." in spec:
        ext = "αβγδ"
        nel = max(o.ndim - len(i.replace("...", "")) for i, o in zip(ins, ops) if "..." in i)
        ins = [i.replace("...", ext[nel - (o.ndim - len(i.replace("...", ""))): nel]) if "..." in i else i for i, o in zip(ins, ops)]
        out = out.replace("...", ext[:nel])
    dims = {}
    for i, o in zip(ins, ops):
        if len(i) != o.ndim:
            raise ValueError("einsum: operand has wrong number of dimensions")
        for c, n in zip(i, o.shape):
            if dims.get(c, 1) == 1:
                dims[c] = n
            elif n not in (1, dims[c]):
                raise ValueError("einsum: inconsistent dimensions")
    summed = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)

    def get(o, i, env):
        return o[tuple(env[c] if o.shape[p] != 1 else 0 for p, c in enumerate(i))]

    for oi in np.ndindex(*r.shape):
        env = dict(zip(out, oi))
        acc = T0
        for si in np.ndindex(*[dims[c] for c in summed]):
            env.update(zip(summed, si))
            p = T1
            for o, i in zip(ops, ins):
                p = sc.s_mul(p, get(o, i, env))
            acc = sc.s_add(acc, p)
        r[oi] = acc
    return r


@native("matmul")
def matmul(a, b, **k):
    a, b = coerce(a), coerce(b)
    if a.dtype != object and b.dtype != object:
        return np.matmul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError("matmul: input operand does not have enough dimensions")
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 1:
        return einsum("i,...ij->...j", a, b)
    if b.ndim == 1:
        return einsum("...ij,j->...i", a, b)
    return einsum("...ij,...jk->...ik", a, b)


@native("dot")
def dot(a, b, **k):
    a, b = coerce(a), coerce(b)
    if a.ndim == 0 or b.ndim == 0:
        return elementwise("multiply", a, b)
    if b.ndim <= 2:
        return matmul(a, b)
    raise Unsupported("dot nd")


NATIVE["inner"] = lambda a, b: dot(a, b) if coerce(b).ndim <= 1 else einsum("...i,ji->...j", a, b)
NATIVE["vdot"] = lambda a, b: dot(coerce(a).ravel(), coerce(b).ravel())
NATIVE["outer"] = lambda a, b, **k: einsum("i,j->ij", coerce(a).ravel(), coerce(b).ravel())


@native("tensordot")
def tensordot(a, b, axes=2):
    a, b = coerce(a), coerce(b)
    L = "abcdefgh"
    M = "ijklmnop"
    if isinstance(axes, int):
        xa = list(range(a.ndim - axes, a.ndim))
        xb = list(range(axes))
    else:
        xa, xb = axes
        xa = [xa] if isinstance(xa, int) else list(xa)
        xb = [xb] if isinstance(xb, int) else list(xb)
    sa = list(L[: a.ndim])
    sb = list(M[: b.ndim])
    for p, q in zip(xa, xb):
        sb[q] = sa[p]
    out = [c for i, c in enumerate(sa) if i not in [z % a.ndim for z in xa]] + [c for i, c in enumerate(sb) if i not in [z % b.ndim for z in xb]]
    return einsum("".join(sa) + "," + "".join(sb) + "->" + "".join(out), a, b)


@native("convolve")
def convolve(a, b, mode="full", **k):
    a, b = to_obj(coerce(a)), to_obj(coerce(b))
    if len(a) < len(b):
        a, b = b, a
    n, m = len(a), len(b)
    r = np.full(n + m - 1, T0, dtype=object)
    for i in range(n):
        for j in range(m):
            r[i + j] = sc.s_add(r[i + j], sc.s_mul(a[i], b[j]))
    if mode == "valid":
        return r[m - 1: n]
    if mode == "same":
        s = (m - 1) // 2
        return r[s: s + n]
    return r


@native("polyval")
def polyval(p, x, **k):
    p = to_obj(coerce(p))
    r = np.full(coerce(x).shape, T0, dtype=object)
    for c in p:
        r = elementwise("add", elementwise("multiply", r, x), c)
    return r


@native("nan_to_num")
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None, **k):
    a = coerce(x)
    if a.dtype != object:
        return a.copy()
    r = map1(lambda v: sc.s_nan_to_num(v, nan, posinf, neginf), a)
    if not copy and isinstance(x, NArr):
        x[...] = r
        return x
    return r


@native("logsumexp")
def logsumexp(a, axis=None, b=None, keepdims=False, return_sign=False, where=None, **k):  # noqa
    a = to_obj(coerce(a))
    e = map1(sc.s_exp, a)
    if b is not None:
        e = elementwise("multiply", e, b)
    if where is not None:
        e = np.where(_astype(coerce(where), bool), e, T0)
    s = coerce(reduce_("add", e, axis, keepdims))
    return map1(sc.s_log, s)


@native("softmax")
def softmax(a, axis=-1, **k):
    e = map1(sc.s_exp, to_obj(coerce(a)))
    return elementwise("divide", e, reduce_("add", e, axis, True))


@native("log_softmax")
def log_softmax(a, axis=-1, **k):
    return map1(sc.s_log, softmax(a, axis))


NATIVE["betaln"] = lambda a, b: map2(sc.s_betaln, coerce(a), coerce(b))
NATIVE["log_sigmoid"] = lambda a: map1(lambda v: sc.s_log(sc.s_logistic(v)), coerce(a))
NATIVE["softplus"] = lambda a: map1(lambda v: sc.s_log(sc.s_add(1, sc.s_exp(v))), coerce(a))


@native("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if not (isinstance(x, T) and isinstance(y, T)):
            return (x == y) if not isinstance(x, T) and not isinstance(y, T) else False
        return sc.s_le(sc.s_abs(sc.s_sub(x, y)), sc.s_add(atol, sc.s_mul(rtol, sc.s_abs(y))))

    return map2(f, coerce(a), coerce(b), out_bool=True)


NATIVE["allclose"] = lambda a, b, **k: bool(np.all(isclose(a, b, **k)))
NATIVE["array_equal"] = lambda a, b, **k: coerce(a).shape == coerce(b).shape and bool(np.all(elementwise("equal", a, b)))
NATIVE["isscalar"] = lambda x: isinstance(x, (T, int, float, str, np.generic))
NATIVE["shape"] = lambda x: coerce(x).shape
NATIVE["ndim"] = lambda x: coerce(x).ndim
NATIVE["size"] = lambda x, axis=None: coerce(x).size if axis is None else coerce(x).shape[axis]
NATIVE["real"] = lambda x: x if isinstance(x, T) else coerce(x)
NATIVE["count_nonzero"] = lambda x, axis=None, **k: np.count_nonzero(_astype(coerce(x), bool), axis=axis)
NATIVE["nonzero"] = lambda x, **k: np.nonzero(_astype(coerce(x), bool))
NATIVE["flatnonzero"] = lambda x, **k: np.flatnonzero(_astype(coerce(x), bool))
NATIVE["argwhere"] = lambda x, **k: np.argwhere(_astype(coerce(x), bool))
NATIVE["nansum"] = lambda a, axis=None, **k: nsum(map1(lambda v: T0 if sc.s_isnan(v) else v, coerce(a)), axis)
NATIVE["astype"] = lambda a, dtype, **k: _astype(coerce(a), dtype)
NATIVE["float64"] = NATIVE["float32"] = NATIVE["float_"] = lambda x=0.0: to_obj(coerce(x))
NATIVE["vectorize"] = None


def _vectorize(pyfunc, otypes=None, doc=None, excluded=None, *a, **k):
    ex = set(excluded or ())

    def f(*args, **kw):
        ks = [i for i in range(len(args)) if i not in ex] + [n for n in kw if n not in ex]
        arrs = np.broadcast_arrays(*[to_obj(coerce(args[i] if isinstance(i, int) else kw[i])) for i in ks])
        out = np.empty(arrs[0].shape if ks else (), dtype=object)

        def call(vals):
            v = dict(zip(ks, vals))
            return pyfunc(*[v.get(i, args[i]) for i in range(len(args))], **{n: v.get(n, kw[n]) for n in kw})

        if out.ndim == 0:
            return call([x.item() for x in arrs])
        for idx in np.ndindex(*out.shape):
            r = coerce(call([x[idx] for x in arrs]))
            if r.ndim:
                raise ValueError("setting an array element with a sequence.")
            out[idx] = r.item()
        return wrap(out, False)

    return f


NATIVE["vectorize"] = _vectorize


# ------------------------------------------------------------------ exact linear algebra
def solve(a, b):
    a = to_obj(coerce(a)).copy()
    b = to_obj(coerce(b)).copy()
    vec = b.ndim == 1
    if vec:
        b = b[:, None]
    n = a.shape[0]
    if a.ndim != 2 or a.shape[1] != n:
        raise ValueError("solve: square matrix required")
    for c in range(n):
        piv = None
        cand = [r for r in range(c, n) if not (isinstance(a[r, c], T) and tm.HOOKS.subst(a[r, c]).is_zero())]
        # prefer entries with syntactically known sign
        known = [r for r in cand if isinstance(a[r, c], T) and tm.quick_sign(a[r, c]) not in (None, 0)]
        for r in known + [r for r in cand if r not in known]:
            if not sc.s_eq(a[r, c], T0):
                piv = r
                break
        if piv is None:
            return np.full(b.shape[:1] if vec else b.shape, NAN, dtype=object)
        if piv != c:
            a[[c, piv]] = a[[piv, c]]
            b[[c, piv]] = b[[piv, c]]
        for r in range(c + 1, n):
            x = a[r, c]
            if isinstance(x, T) and x.is_zero():
                continue
            f = sc.s_div(x, a[c, c])
            for j in range(c, n):
                a[r, j] = sc.s_sub(a[r, j], sc.s_mul(f, a[c, j]))
            for j in range(b.shape[1]):
                b[r, j] = sc.s_sub(b[r, j], sc.s_mul(f, b[c, j]))
    x = np.empty(b.shape, dtype=object)
    for c in reversed(range(n)):
        for j in range(b.shape[1]):
            s = b[c, j]
            for k in range(c + 1, n):
                s = sc.s_sub(s, sc.s_mul(a[c, k], x[k, j]))
            x[c, j] = sc.s_div(s, a[c, c])
    return x[:, 0] if vec else x


def inv(a):
    a = coerce(a)
    return solve(a, to_obj(np.eye(a.shape[0], dtype=int)))


def det(a):
    a = to_obj(coerce(a))
    n = a.shape[0]
    if n == 1:
        return a[0, 0]
    t = T0
    for j in range(n):
        m = np.delete(a[1:], j, axis=1)
        t = sc.s_add(t, sc.s_mul(a[0, j], sc.s_mul(det(m), (-1) ** j)))
    return t


def lnorm(a, ord=None, axis=None, **k):  # noqa
    if ord not in (None, 2, "fro"):
        raise Unsupported("norm ord")
    return map1(sc.s_sqrt, coerce(nsum(elementwise("multiply", a, a), axis)))


LINALG = {"solve": solve, "inv": inv, "det": det, "norm": lnorm}


# ------------------------------------------------------------------ methods
for _n in ("sum", "prod", "max", "min", "mean", "var", "std", "cumsum", "cumprod", "any", "all", "argmax", "argmin", "argsort", "clip", "dot", "searchsorted", "nonzero"):
    setattr(XArr, _n, _method(_n))
for _n in ("reshape", "flatten", "ravel", "transpose", "squeeze", "swapaxes", "repeat", "take", "diagonal"):
    setattr(XArr, _n, _smethod(_n))
XArr.conj = XArr.conjugate = lambda self: self


def _nsort(self, axis=-1, **k):
    if isinstance(self, JArr):
        return wrap(sort(self, axis), True)
    self.view(np.ndarray)[...] = sort(self, axis)


XArr.sort = _nsort
XArr.round = lambda self, *a: (_ for _ in ()).throw(Unsupported("round"))


def as_j(x):
    return wrap(coerce(x), True)


def as_n(x):
    return wrap(coerce(x), False)


# scalars returned by indexing behave like 0-d arrays
T.shape = ()
T.ndim = 0
T.size = 1
T.dtype = np.dtype(float)
T.astype = lambda self, d, **k: wrap(_astype(box(self), d), True)
T.item = lambda self: self
T.reshape = lambda self, *s, **k: box(self).reshape(*s).view(JArr)
T.flatten = T.ravel = lambda self, *a: box(self).reshape(-1).view(JArr)
T.sum = T.mean = T.max = T.min = T.copy = T.squeeze = lambda self, *a, **k: self
T.at = property(lambda self: _At(box(self).view(JArr)))


def _t_getitem(self, k):
    ks = k if isinstance(k, tuple) else (k,)
    if all(x is None or x is Ellipsis for x in ks):
        r = box(self)[tuple(x for x in ks if x is None)]
        return r.view(JArr) if r.ndim else self
    if len(ks) == 0:
        return self
    raise IndexError("Too many indices: array is 0-dimensional")
