"""Scalar semantics: exact terms T plus the IEEE special values (Python floats nan, inf, -inf).

Comparisons *fork*: every comparison between finite terms returns a concrete bool; the engine explores both
outcomes that are satisfiable under the path condition.
"""
import math
from fractions import Fraction as Q
import numpy as np

from . import terms as tm
from .terms import T, T0, T1, tconst, from_float, Unsupported

NAN = float("nan")
INF = float("inf")


class EngineRef:
    cur = None


def eng():
    e = EngineRef.cur
    if e is None:
        raise Unsupported("symbolic operation outside a session")
    return e


def norm(x):
    """any scalar -> T or special float"""
    if isinstance(x, T):
        return x
    if isinstance(x, (bool, np.bool_)):
        return T1 if x else T0
    if isinstance(x, (int, np.integer)):
        return tconst(int(x))
    if isinstance(x, Q):
        return tconst(x)
    if isinstance(x, (float, np.floating)):
        f = float(x)
        if f != f:
            return NAN
        if f in (INF, -INF):
            return f
        return from_float(f)
    if isinstance(x, (complex, np.complexfloating)):
        if x.imag == 0:
            if EngineRef.cur is not None:
                EngineRef.cur.saw_complex = True
            return norm(x.real)
        raise Unsupported("complex value")
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return norm(x.item() if x.dtype == object else x[()])
    if hasattr(x, "dtype") and hasattr(x, "shape") and x.shape == ():
        return norm(np.asarray(x)[()])
    raise Unsupported(f"cannot represent {type(x)} as a real scalar")


def isT(x):
    return isinstance(x, T)


def fork_sign(x):
    """sign of a scalar: -1, 0, 1 (nan -> None)"""
    if isT(x):
        return eng().fork_sign(x)
    if x != x:
        return None
    return 1 if x > 0 else -1


def s_add(a, b):
    a = norm(a)
    b = norm(b)
    if isT(a) and isT(b):
        return a.add(b)
    if isT(a):
        return b
    if isT(b):
        return a
    return a + b


def s_neg(a):
    a = norm(a)
    return a.neg() if isT(a) else -a


def s_sub(a, b):
    return s_add(a, s_neg(b))


def s_mul(a, b):
    a = norm(a)
    b = norm(b)
    if isT(a) and isT(b):
        return a.mul(b)
    if not isT(a) and not isT(b):
        return a * b
    if isT(a):
        a, b = b, a
    if a != a:
        return NAN
    s = fork_sign(b)
    return NAN if s == 0 else a * s


def s_inv(b):
    return s_div(T1, b)


def s_div(a, b):
    a = norm(a)
    b = norm(b)
    if isT(b):
        if b.is_const():
            zero = b.is_zero()
        else:
            b = tm.HOOKS.subst(b)
            zero = b.is_zero() or eng().is_zero(b)
        if zero:
            if isT(a):
                s = fork_sign(a)
                return NAN if s == 0 else INF * s
            return a  # inf/0 = inf, nan/0 = nan
        if isT(a):
            return a.mul(b.inv())
        if a != a:
            return NAN
        return a * fork_sign(b)
    # b special
    if isT(a):
        return NAN if b != b else T0
    return NAN


def s_pow(a, b):
    a = norm(a)
    b = norm(b)
    if isT(b):
        b = tm.HOOKS.subst(b)
        if b.is_const():
            e = b.const()
            if e == 0:
                return T1
            if isT(a):
                if e.denominator == 1:
                    n = int(e)
                    if n > 0:
                        if n > 64:
                            raise Unsupported("large power")
                        return a.ipow(n)
                    return s_div(T1, a.ipow(-n))
                s = fork_sign(a)
                if s > 0:
                    return tm.rpow(tm.HOOKS.subst(a), e)
                if s == 0:
                    return T0 if e > 0 else INF
                return NAN
            if a != a:
                return NAN
            r = float(a) ** int(e) if e.denominator == 1 else (INF if a > 0 else (INF if e > 0 else 0.0))
            if e < 0:
                return T0
            return r
        if not isT(a):
            if a != a:
                return NAN
            s = fork_sign(b)
            if s == 0:
                return T1
            if a > 0:
                return INF if s > 0 else T0
            return INF if s > 0 else T0
        a = tm.HOOKS.subst(a)
        if a.is_const() and a.const() == 1:
            return T1
        s = fork_sign(a)
        if s > 0:
            return tm.tpow(a, b)
        if s == 0:
            sb = fork_sign(b)
            return T0 if sb > 0 else (T1 if sb == 0 else INF)
        return NAN  # stated assumption: symbolic exponents of negative bases are not integers
    if b != b:
        return NAN
    # b infinite
    if isT(a):
        s1 = fork_sign(s_sub(s_abs(a), T1))
        if s1 == 0:
            return T1
        return (INF if s1 > 0 else T0) if b > 0 else (T0 if s1 > 0 else INF)
    if a != a:
        return NAN
    return INF if b > 0 else T0


def s_abs(a):
    a = norm(a)
    if not isT(a):
        return abs(a)
    return a if fork_sign(a) >= 0 else a.neg()


def s_sign(a):
    a = norm(a)
    if not isT(a):
        return NAN if a != a else tconst(1 if a > 0 else -1)
    return tconst(fork_sign(a))


def s_exp(a):
    a = norm(a)
    if isT(a):
        f = _fmax_part(a)
        if f:
            return INF if f > 0 else T0
        return tm.texp(a)
    if a != a:
        return NAN
    return INF if a > 0 else T0


_FM = []


def _fmax_part(a):
    """sign of a constant multiple of the largest float plus a bounded rest: its exponential overflows or is exactly 0"""
    if not _FM:
        _FM.append(next(iter(FMAX.atoms())))
    if a.den or _FM[0] not in a.atoms():
        return 0
    c = a.num.d.get(((_FM[0], 1),))
    if c is None:
        return 0
    r = a.sub(FMAX.mul(tm.tconst(c)))
    if _FM[0] in tm.deep_atoms(r) or not all(abs(b) < 10**12 for b in tm.HOOKS.ival(r)):
        return 0
    return 1 if c > 0 else -1


def s_log(a):
    a = norm(a)
    if isT(a):
        a = tm.HOOKS.subst(a)
        s = fork_sign(a)
        if s > 0:
            return tm.tlog(a)
        return -INF if s == 0 else NAN
    return INF if a == INF else NAN


def s_sqrt(a):
    a = norm(a)
    if isT(a):
        a = tm.HOOKS.subst(a)
        if a.is_zero():
            return T0
        if not a.is_const():
            if not eng().decide_ge(a):
                return NAN
        elif a.const() < 0:
            return NAN
        return tm.tsqrt(a)
    return INF if a == INF else NAN


def s_log1p(a):
    return s_log(s_add(a, T1))


def s_expm1(a):
    return s_sub(s_exp(a), T1)


def _fin(f):
    def g(a):
        a = norm(a)
        if isT(a):
            return f(tm.HOOKS.subst(a))
        return NAN

    return g


s_sin = _fin(tm.tsin)
s_cos = _fin(tm.tcos)


def s_tan(a):
    return s_div(s_sin(a), s_cos(a))


def s_acos(a):
    a = norm(a)
    if not isT(a):
        return NAN
    a = tm.HOOKS.subst(a)
    if not (s_le(a, T1) and s_ge(a, tconst(-1))):
        return NAN
    return tm.tacos(a)


def s_asin(a):
    return s_sub(tm.PI * Q(1, 2), s_acos(a))


def s_atan(a):
    a = norm(a)
    if not isT(a):
        return NAN if a != a else tm.PI * Q(1 if a > 0 else -1, 2)
    return tm.tatan(a)


def s_atan2(y, x):
    y = norm(y)
    x = norm(x)
    if not (isT(x) and isT(y)):
        raise Unsupported("atan2 special")
    sx = fork_sign(x)
    sy = fork_sign(y)
    if sx > 0:
        return tm.tatan(y.mul(x.inv()))
    if sx == 0:
        return tm.PI * Q(sy, 2)
    base = tm.tatan(y.mul(x.inv()))
    return base + tm.PI if sy >= 0 else base - tm.PI


def s_atanh(a):
    a = norm(a)
    if not isT(a):
        return NAN
    n = s_log(s_add(T1, a))
    d = s_log(s_sub(T1, a))
    return s_mul(tconst(Q(1, 2)), s_sub(n, d))


def s_sinh(a):
    return s_mul(Q(1, 2), s_sub(s_exp(a), s_exp(s_neg(a))))


def s_cosh(a):
    return s_mul(Q(1, 2), s_add(s_exp(a), s_exp(s_neg(a))))


def s_tanh(a):
    a = norm(a)
    if not isT(a):
        return NAN if a != a else tconst(1 if a > 0 else -1)
    e = s_exp(s_mul(2, a))
    return s_div(s_sub(e, T1), s_add(e, T1))


def s_logistic(a):
    a = norm(a)
    if not isT(a):
        return NAN if a != a else (T1 if a > 0 else T0)
    return s_div(T1, s_add(T1, s_exp(s_neg(a))))


def s_erf(a):
    a = norm(a)
    if not isT(a):
        return NAN if a != a else tconst(1 if a > 0 else -1)
    return tm.terf(a)


def s_erfc(a):
    return s_sub(T1, s_erf(a))


def s_ndtr(a):
    return s_mul(Q(1, 2), s_add(T1, s_erf(s_div(a, s_sqrt(2)))))


def s_lgamma(a):
    a = norm(a)
    if not isT(a):
        return NAN if a != a else INF
    return tm.tlgamma(a)


def s_betaln(a, b):
    return s_sub(s_add(s_lgamma(a), s_lgamma(b)), s_lgamma(s_add(a, b)))


def s_spence(w):
    """scipy.special.spence(w) = Li2(1-w); real part"""
    w = norm(w)
    if not isT(w):
        if w != w:
            return NAN
        return -INF
    # real arguments below zero give NaN; in complex arithmetic (x + 0j) the real part is defined everywhere
    if not getattr(EngineRef.cur, "saw_complex", False) and fork_sign(w) < 0:
        return NAN
    return tm.tli2(T1 - w)


def s_xlogy(x, y):
    x = norm(x)
    y = norm(y)
    if isT(x) and eng().is_zero(x) and not (not isT(y) and y != y):
        return T0
    return s_mul(x, s_log(y))


def s_floor(a):
    a = norm(a)
    if isT(a):
        a = tm.HOOKS.subst(a)
        if a.is_const():
            return tconst(math.floor(a.const()))
        return eng().fork_floor(a)
    return a


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_mod(a, b):
    return s_sub(a, s_mul(b, s_floor(s_div(a, b))))


# ---- comparisons (fork)
def s_lt(a, b):
    return s_gt(b, a)


def s_gt(a, b):
    a = norm(a)
    b = norm(b)
    if isT(a) and isT(b):
        return eng().decide_gt(a.sub(b))
    if isT(a):
        return b == b and b < 0
    if isT(b):
        return a == a and a > 0
    return a > b


def s_ge(a, b):
    a = norm(a)
    b = norm(b)
    if isT(a) and isT(b):
        return eng().decide_ge(a.sub(b))
    if isT(a):
        return b == b and b < 0
    if isT(b):
        return a == a and a > 0
    return a >= b


def s_le(a, b):
    return s_ge(b, a)


def s_eq(a, b):
    a = norm(a)
    b = norm(b)
    if isT(a) and isT(b):
        return eng().is_zero(a.sub(b))
    if isT(a) or isT(b):
        return False
    return a == b


def s_ne(a, b):
    return not s_eq(a, b)


def s_max(a, b):
    a = norm(a)
    b = norm(b)
    if (not isT(a) and a != a) or (not isT(b) and b != b):
        return NAN
    return a if s_ge(a, b) else b


def s_min(a, b):
    a = norm(a)
    b = norm(b)
    if (not isT(a) and a != a) or (not isT(b) and b != b):
        return NAN
    return a if s_le(a, b) else b


def s_isnan(a):
    a = norm(a)
    return (not isT(a)) and a != a


def s_isinf(a):
    a = norm(a)
    return (not isT(a)) and a == a


def s_isfinite(a):
    return isT(norm(a))


def s_truth(a):
    a = norm(a)
    if isT(a):
        return not eng().is_zero(a)
    return True


FMAX = tm.tatom(tm.atom("var", (), name="__fmax__"))


def s_nan_to_num(x, nan=0.0, posinf=None, neginf=None):
    x = norm(x)
    if isT(x):
        return x
    if x != x:
        return norm(nan)
    if x > 0:
        return FMAX if posinf is None else norm(posinf)
    return FMAX.neg() if neginf is None else norm(neginf)


# ------------------------------------------------------------------ operators on T (scalar semantics)
def _lift(fn, rev=False):
    def op(self, o):
        if type(o) is np.ndarray:  # plain object array, e.g. taken out of a container
            return np.asarray(np.frompyfunc((lambda v: fn(v, self)) if rev else (lambda v: fn(self, v)), 1, 1)(o), dtype=object)
        if isinstance(o, np.ndarray):
            return NotImplemented
        if not isinstance(o, (T, int, float, Q, np.generic, complex)):
            if type(o).__module__.startswith("jax") and getattr(o, "shape", None) == ():
                o = np.asarray(o)[()]
            elif hasattr(o, "shape") and hasattr(o, "dtype"):
                from .arr import as_j

                return getattr(as_j(self), op.__name__)(as_j(o))
            else:
                return NotImplemented
        return fn(o, self) if rev else fn(self, o)

    return op


for nm, fn in (
    ("add", s_add),
    ("sub", s_sub),
    ("mul", s_mul),
    ("truediv", s_div),
    ("pow", s_pow),
    ("mod", s_mod),
):
    f = _lift(fn)
    f.__name__ = f"__{nm}__"
    setattr(T, f"__{nm}__", f)
    f = _lift(fn, rev=True)
    f.__name__ = f"__r{nm}__"
    setattr(T, f"__r{nm}__", f)
_fd = _lift(lambda a, b: s_floor(s_div(a, b)))
_fd.__name__ = "__floordiv__"
T.__floordiv__ = _fd
_fd = _lift(lambda a, b: s_floor(s_div(a, b)), rev=True)
_fd.__name__ = "__rfloordiv__"
T.__rfloordiv__ = _fd

for nm, fn in (("lt", s_lt), ("le", s_le), ("gt", s_gt), ("ge", s_ge), ("eq", s_eq), ("ne", s_ne)):

    def mk(fn, nm):
        def op(self, o):
            if o is None or isinstance(o, (str, bytes)):
                return NotImplemented
            if type(o) is np.ndarray:
                return np.array([bool(fn(self, v)) for v in o.ravel()], dtype=bool).reshape(o.shape)
            if isinstance(o, np.ndarray):
                return NotImplemented
            return fn(self, o)

        op.__name__ = f"__{nm}__"
        return op

    setattr(T, f"__{nm}__", mk(fn, nm))

T.__neg__ = lambda self: self.neg()
T.__pos__ = lambda self: self
T.__abs__ = lambda self: s_abs(self)
T.__bool__ = lambda self: s_truth(self)


def _toint(self):
    t = tm.HOOKS.subst(self)
    if t.is_const():
        return int(t.const())
    f = eng().fork_floor(t)  # truncation for non-negative values; negative handled by sign
    v = int(f.const())
    if v < 0 and not s_eq(t, f):
        v += 1
    return v


T.__int__ = _toint


def _idx(self):
    t = tm.HOOKS.subst(self)
    if t.is_const() and t.const().denominator == 1:
        return int(t.const())
    raise TypeError("only integer scalar arrays can be converted to a scalar index")


T.__index__ = _idx


def _tofloat(self):
    t = tm.HOOKS.subst(self)
    if t.is_const():
        return float(t.const())
    raise Unsupported("float() of a symbolic value")


T.__float__ = _tofloat
T.__hash__ = lambda self: hash(self.key())
for nm, fn in (
    ("exp", s_exp),
    ("log", s_log),
    ("sqrt", s_sqrt),
    ("sin", s_sin),
    ("cos", s_cos),
    ("tan", s_tan),
    ("arccos", s_acos),
    ("arcsin", s_asin),
    ("arctan", s_atan),
    ("arctanh", s_atanh),
    ("log1p", s_log1p),
    ("expm1", s_expm1),
    ("tanh", s_tanh),
    ("floor", s_floor),
    ("ceil", s_ceil),
):
    setattr(T, nm, (lambda fn: lambda self: fn(self))(fn))
T.conjugate = lambda self: self
T.log2 = lambda self: s_div(s_log(self), s_log(2))
T.log10 = lambda self: s_div(s_log(self), s_log(10))
T.square = lambda self: s_mul(self, self)
T.real = property(lambda self: self)
