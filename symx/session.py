"""Harness API.  The same harness function runs symbolically (all inputs at once, decided by SMT) and concretely
(replay of one input against the real gwinferno package)."""
import importlib
import math
import random
import sys
import signal
import time
import traceback
from fractions import Fraction as Q

import numpy as np

from . import arr, loader
from . import scal as sc
from . import terms as tm
from .engine import SIGNS as NEGS
from .engine import Budget, Cond, Engine, PathAbort, negate
from .scal import EngineRef
from .terms import T, T0, T1, Unsupported, tconst


class AssumptionFailed(Exception):
    pass


class ConcreteFail(Exception):
    def __init__(self, goal, detail):
        super().__init__(f"{goal}: {detail}")
        self.goal = goal
        self.detail = detail


class StopExploration(Exception):
    pass


class GoalTimeout(Exception):
    pass


class Ticker:
    """interrupts a goal or an exploration whose normalisation (not only the solver) takes too long"""

    def __init__(self, deadline):
        self.deadline, self.goal = deadline, None

    def tick(self, *a):
        now = time.time()
        if now > self.deadline:
            raise Budget("time budget of the exploration exhausted (interrupted)")
        if self.goal is not None and now > self.goal:
            self.goal = None
            raise GoalTimeout()

    def start(self):
        signal.signal(signal.SIGALRM, self.tick)
        signal.setitimer(signal.ITIMER_REAL, 1.0, 1.0)

    def stop(self):
        signal.setitimer(signal.ITIMER_REAL, 0)


def timed(method):
    """a goal gets a limited time; when it is exceeded the goal counts as not proved"""

    def wrapper(self, name, *a, **k):
        t = self.ticker
        if t is None or t.goal is not None:
            return method(self, name, *a, **k)
        t.goal = time.time() + self.goal_s
        try:
            return method(self, name, *a, **k)
        except GoalTimeout:
            self.failures.append({"goal": name, "verdict": "unknown", "detail": "goal time limit", "cands": [], "choices": dict(self.choices)})
            if len(self.failures) >= self.max_failures:
                raise StopExploration()
        finally:
            t.goal = None

    return wrapper


# ====================================================================== symbolic
class SymSession:
    sym = True

    def __init__(self, eng, max_failures=3, grid=4):
        self.e = eng
        self.ticker = None
        self.goal_s = 60
        self.failures = []
        self.goal_names = {}
        self.max_failures = max_failures
        self.witnesses = []
        self.errors = []
        self.grid = grid
        self.begin()

    def begin(self):
        self.names = {}
        self.choices = {}
        self._patches = []
        arr.Cfg.grid = self.grid
        arr.Cfg.grid_threshold = 60

    def end(self):
        for obj, attr, old, had in reversed(self._patches):
            if isinstance(obj, dict):
                if had:
                    obj[attr] = old
                else:
                    obj.pop(attr, None)
            elif had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self._patches = []
        loader.Env.rng = None
        loader.Env.pyro = None

    # ---- modules and inputs
    def module(self, name):
        return loader.load(name)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        lo = None if lo is None else Q(lo) if not isinstance(lo, float) else Q(str(lo))
        hi = None if hi is None else Q(hi) if not isinstance(hi, float) else Q(str(hi))
        self.names[name] = (lo, hi)
        return self.e.declare(name, lo, hi, lo_open, hi_open)

    def reals(self, prefix, n, *a, **k):
        return [self.real(f"{prefix}{i}", *a, **k) for i in range(n)]

    def choose(self, name, n):
        if isinstance(n, (list, tuple)):
            i = self.e.choose(len(n))
            self.choices[name] = i
            return n[i]
        i = self.e.choose(n)
        self.choices[name] = i
        return i

    def j(self, x):
        return arr.as_j(x) if not isinstance(x, (list, tuple)) else arr.wrap(arr.to_obj(arr.coerce(x)).copy() if len(x) else np.zeros((0,), object), True)

    def n(self, x):
        return arr.wrap(arr.to_obj(arr.coerce(x)).copy(), False)

    def num(self, c):
        return tconst(Q(str(c)) if isinstance(c, float) else Q(c))

    @property
    def pi(self):
        return tm.PI

    def patch(self, obj, attr, value):
        if isinstance(obj, dict):
            had = attr in obj
            self._patches.append((obj, attr, obj.get(attr), had))
            obj[attr] = value
            return
        had = attr in obj.__dict__ if hasattr(obj, "__dict__") else True
        self._patches.append((obj, attr, getattr(obj, attr, None), had))
        setattr(obj, attr, value)

    def set_rng(self, f):
        loader.Env.rng = f

    def set_pyro(self, p):
        loader.Env.pyro = p

    def module_jnp(self):
        return loader.jnp_ns

    # ---- maths usable in specifications (both modes)
    exp = staticmethod(sc.s_exp)
    log = staticmethod(sc.s_log)
    sqrt = staticmethod(sc.s_sqrt)
    sin = staticmethod(sc.s_sin)
    cos = staticmethod(sc.s_cos)
    acos = staticmethod(sc.s_acos)
    erf = staticmethod(sc.s_erf)
    pow = staticmethod(sc.s_pow)
    abs = staticmethod(sc.s_abs)
    div = staticmethod(sc.s_div)
    max = staticmethod(sc.s_max)
    min = staticmethod(sc.s_min)
    lgamma = staticmethod(sc.s_lgamma)
    li2 = staticmethod(lambda z: tm.tli2(sc.norm(z)))  # real part
    isnan = staticmethod(sc.s_isnan)
    isinf = staticmethod(sc.s_isinf)
    isfinite = staticmethod(sc.s_isfinite)

    # branching tests in specifications (fork)
    test_lt = staticmethod(lambda a, b: bool(sc.s_lt(a, b)))
    test_le = staticmethod(lambda a, b: bool(sc.s_le(a, b)))
    test_eq = staticmethod(lambda a, b: bool(sc.s_eq(a, b)))

    def elems(self, x):
        """flat list of scalars"""
        if isinstance(x, T):
            return [x]
        a = arr.coerce(x)
        if a.dtype == object:
            return list(a.ravel())
        return [v.item() for v in a.ravel()]

    def shape(self, x):
        return tuple(arr.coerce(x).shape)

    def at(self, x, *idx):
        a = arr.coerce(x)
        r = a[idx] if idx else a
        return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r

    def snapshot(self, x):
        a = arr.coerce(x)
        return a.copy()

    # ---- conditions
    def _c(self, op, a, b):
        a, b = sc.norm(a), sc.norm(b)
        if isinstance(a, T) and isinstance(b, T):
            return Cond(op, a.sub(b))
        fa = a if not isinstance(a, T) else 0.0
        fb = b if not isinstance(b, T) else 0.0
        r = {"gt": fa > fb, "ge": fa >= fb, "lt": fa < fb, "le": fa <= fb, "eq": fa == fb and isinstance(a, T) == isinstance(b, T), "ne": not (fa == fb)}[op]
        return Cond("and") if r else Cond("or")

    def gt(self, a, b=0):
        return self._c("gt", a, b)

    def ge(self, a, b=0):
        return self._c("ge", a, b)

    def lt(self, a, b=0):
        return self._c("lt", a, b)

    def le(self, a, b=0):
        return self._c("le", a, b)

    def eq(self, a, b=0):
        return self._c("eq", a, b)

    def ne(self, a, b=0):
        return self._c("ne", a, b)

    def And(self, *c):
        return Cond("and", *c)

    def Or(self, *c):
        return Cond("or", *c)

    def assume(self, *cs):
        for c in cs:
            self.e.assume(c)

    def skip(self):
        raise PathAbort()

    def lemma(self, c):
        self.e.lemma(c)

    # ---- goals
    def _note(self, name):
        self.e.stats.goals += 1
        self.goal_names[name] = self.goal_names.get(name, 0) + 1

    @timed
    def prove(self, name, cond):
        self._note(name)
        if cond is True or (isinstance(cond, (bool, np.bool_)) and cond):
            self.e.stats.goals_norm += 1
            return
        if isinstance(cond, (bool, np.bool_)):
            cond = Cond("or")
        neg = negate(cond)
        try:
            sub = self.e._subst_cond(neg)
        except Unsupported:
            sub = neg
        if sub is False:
            self.e.stats.goals_norm += 1
            # the encoder's normal form already decides it; the solver confirms the (trivial) refutation
            return
        self.e.stats.goals_smt += 1
        env = self.screen(neg)
        if env is not None:
            self.e.stats.screened = self.e.stats.screened + 1
            self.failures.append({"goal": name, "verdict": "sat", "detail": "", "cands": [env], "choices": dict(self.choices)})
            if len(self.failures) >= self.max_failures:
                raise StopExploration()
            return
        v, _ = self.e.query([neg], self.e.prove_ms)
        if v == "unsat":
            return
        # unreachable path?  (fork queries use short limits)
        self.fail(name, neg, v)

    def fail(self, name, neg, verdict, detail=""):
        import os
        if os.environ.get("SYMX_DEBUG"):
            print("FAIL", name, "neg:", neg, "\n  cons:", *self.e.cons, "\n subs:", self.e.subs, sep="\n   ", flush=True)
        v2, model = self.e.query([neg] if neg is not None else [], self.e.prove_ms, full=True, want_model=True)
        if v2 == "unsat":
            return
        cands = []
        if model:
            cands.append(model)
            cands += self.rounded(model, neg)
        v3, m3 = self.e.query([], 4000, full=True, want_model=True)
        if v3 == "unsat":
            return
        if m3:
            cands.append(m3)
        self.failures.append({"goal": name, "verdict": verdict if v2 == "unknown" else v2, "detail": detail, "cands": [self.complete(c) for c in cands], "choices": dict(self.choices)})
        if len(self.failures) >= self.max_failures:
            raise StopExploration()

    def screen(self, neg, tries=30, accepted=5, limit=3.0):
        """look for a point of the current path at which the goal is clearly false (spares the solver large satisfiable
        queries; a goal is only ever discharged by the normal form or the solver)"""
        import mpmath

        e = self.e
        rng = random.Random(len(self.goal_names) * 1000 + e.stats.goals)
        t_end = time.time() + limit

        def uf(name, xs):
            if "'" in name:
                raise Unsupported("derivative of an uninterpreted function")
            h = sum(ord(c) * (i + 1) for i, c in enumerate(name))
            return mpmath.sin(sum((i + 2) * x for i, x in enumerate(xs)) + h % 97)

        def ev(c, env, memo):
            if c.op in NEGS:
                s = tm.sgnf(c.args[0], env, memo)
                return None if s is None else s in NEGS[c.op]
            if c.op == "not":
                v = ev(c.args[0], env, memo)
                return None if v is None else not v
            vs = [ev(x, env, memo) for x in c.args]
            if c.op == "and":
                return False if any(v is False for v in vs) else None if any(v is None for v in vs) else True
            if c.op == "or":
                return True if any(v is True for v in vs) else None if any(v is None for v in vs) else False
            raise Unsupported(c.op)

        names = {}
        for aid, (lo, _, hi, _) in e.bounds.items():
            a = tm.A(aid)
            if a.kind == "var" and aid not in e.subs:
                lo, hi = (Q(lo) if lo is not None else None), (Q(hi) if hi is not None else None)
                if lo is None:
                    lo = hi - 4 if hi is not None else Q(-3)
                if hi is None:
                    hi = lo + 6
                names[a.name] = (lo, hi)
        done = 0
        old = mpmath.mp.dps
        mpmath.mp.dps = 40
        try:
            for k in range(tries):
                if time.time() > t_end or done >= accepted:
                    return None
                q = {n: lo + (hi - lo) * Q(rng.randrange(1, 64), 64) for n, (lo, hi) in names.items()}
                env = {n: mpmath.mpf(v.numerator) / v.denominator for n, v in q.items()}
                env["__uf__"] = uf
                memo = {}
                try:
                    for aid, t in e.subs.items():
                        nm = tm.A(aid).name
                        v = tm.evalf(t, env, {})
                        b = e.bounds.get(aid)
                        if b is not None and ((b[0] is not None and v < b[0]) or (b[2] is not None and v > b[2])):
                            raise ValueError("bounds")
                        env[nm] = v
                        q[nm] = Q(mpmath.nstr(v, 30))
                    if not all(ev(c, env, memo) for c in list(e.cons) + list(e.user_lemmas)):
                        continue
                    done += 1
                    if ev(neg, env, memo):
                        return {k: v for k, v in q.items() if not k.startswith("__")}
                except (ValueError, ZeroDivisionError, OverflowError):
                    continue
                except (KeyError, Unsupported, TypeError):
                    return None
            return None
        finally:
            mpmath.mp.dps = old

    def complete(self, env):
        """values for substituted variables"""
        out = {k: v for k, v in env.items() if v is not None}
        for aid, t in self.e.subs.items():
            nm = tm.A(aid).name
            try:
                e2 = {k: (float(v) if abs(v) < 1e300 else 0.0) for k, v in out.items()}
                for k, (lo, hi) in self.names.items():
                    e2.setdefault(k, float(lo if lo is not None else (hi if hi is not None else 0)))
                out[nm] = Q(str(tm.evalf(t, e2)))
            except Exception:  # noqa
                pass
        return out

    def rounded(self, model, neg):
        """try to move the model to short dyadic values (exactly representable in floats)"""
        e = self.e
        pins = []
        out = {}
        t_end = time.time() + 10
        for nm, v in sorted(model.items()):
            if v is None or nm.startswith("__"):
                continue
            done = False
            for d in (1, 4, 16, 256, 4096):
                if time.time() > t_end:
                    return []
                r = Q(round(v * d), d)
                pin = Cond("eq", tm.var(nm).sub(tconst(r)))
                res, m = e.query([neg] if neg is not None else [], 800, full=True, want_model=True, extra=pins + [pin])
                if res == "sat":
                    pins.append(pin)
                    out[nm] = r
                    done = True
                    break
            if not done:
                out[nm] = v
        return [out] if out != model else []

    @timed
    def prove_eq(self, name, a, b):
        A, B = arr.coerce(a), arr.coerce(b)
        if A.shape != B.shape:
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError:
                self.prove(name + ".shape", False)
                return
        for x, y in zip(A.ravel(), B.ravel()):
            if isinstance(x, (str, np.str_)):
                self.prove(name, x == y)
                continue
            x, y = sc.norm(x), sc.norm(y)
            if isinstance(x, T) and isinstance(y, T):
                self.prove(name, Cond("eq", x.sub(y)))
            elif isinstance(x, T) or isinstance(y, T):
                self.prove(name, False)
            else:
                self.prove(name, x == y or (x != x and y != y))

    def prove_zero(self, name, a):
        """exactly zero: no tolerance when replayed in floating point"""
        self.prove_eq(name, a, 0)

    @timed
    def _cmp(self, name, op, a, b):
        A, B = np.broadcast_arrays(arr.coerce(a), arr.coerce(b))
        for x, y in zip(A.ravel(), B.ravel()):
            self.prove(name, self._c(op, x, y))

    def prove_le(self, name, a, b):
        self._cmp(name, "le", a, b)

    def prove_lt(self, name, a, b):
        self._cmp(name, "lt", a, b)

    def prove_ge(self, name, a, b):
        self._cmp(name, "ge", a, b)

    def prove_gt(self, name, a, b):
        self._cmp(name, "gt", a, b)

    def prove_true(self, name, c):
        self.prove(name, bool(c))

    def prove_finite(self, name, a):
        for x in self.elems(a):
            self.prove(name, isinstance(sc.norm(x), T))

    def prove_notnan(self, name, a):
        for x in self.elems(a):
            x = sc.norm(x)
            self.prove(name, isinstance(x, T) or x == x)

    def prove_same(self, name, snap, x):
        """x (array) still holds the values recorded by snapshot"""
        self.prove_eq(name, snap, x)

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except (Unsupported, PathAbort, Budget, StopExploration):
            raise
        except exc:
            self.prove(name, True)
            return
        self.prove(name, False)

    # ---- calculus
    def derivative(self, fn, x, name=None):
        """d fn(x) / d x for a scalar variable x; None when x is pinned to a single value on this path"""
        (m, c), = x.num.d.items()
        aid = m[0][0]
        y = fn(x)
        if aid in self.e.subs:
            return None
        ys = arr.coerce(y)
        if any(not isinstance(v, T) for v in ys.ravel()):
            return None
        ys2 = [self.e.subst(v) for v in ys.ravel()]
        # other variables substituted in terms of x change the meaning of a partial derivative
        for t in self.e.subs.values():
            if aid in tm.deep_atoms(t):
                return None
        out = [tm.diff(v, aid) for v in ys2]
        if ys.ndim == 0:
            return out[0]
        r = np.empty(ys.shape, dtype=object)
        r.reshape(-1)[:] = out
        return r


# ====================================================================== concrete
class RealDist:
    pass


class ConSession:
    sym = False

    def __init__(self, env, choices, rng=None, tol=1e-6):
        self.env = env
        self.choices = choices
        self.rng_ = rng or random.Random(0)
        self.tol = tol
        self.used = {}
        self.style = None
        self._patches = []
        self.ngoals = 0
        self.fails = []
        import jax
        import jax.numpy as jnp

        self.jnp = jnp

    begin = lambda self: None  # noqa
    end = SymSession.end

    def patch(self, obj, attr, value):
        SymSession.patch(self, obj, attr, value)

    def module(self, name):
        return importlib.import_module(name)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        if name in self.env and self.env[name] is not None:
            v = float(self.env[name])
        else:
            v = self._random(lo, hi)
        if lo is not None and (v < float(lo) or (lo_open and v <= float(lo))):
            raise AssumptionFailed(name)
        if hi is not None and (v > float(hi) or (hi_open and v >= float(hi))):
            raise AssumptionFailed(name)
        self.used[name] = v
        return np.float64(v)

    def _random(self, lo, hi):
        r = self.rng_
        lo_ = -4.0 if lo is None and hi is None else (float(hi) - 8 if lo is None else float(lo))
        hi_ = 4.0 if lo is None and hi is None else (float(lo) + 8 if hi is None else float(hi))
        if self.style is None:
            self.style = r.choice(["plain", "plain", "small", "tied", "small tied"])
        if "tied" in self.style and self.used and r.random() < 0.3:
            # the same value as an input drawn before: comparisons between inputs are exercised at equality too
            v = r.choice(list(self.used.values()))
            if lo_ <= v <= hi_:
                return v
        if "small" in self.style and hi_ - lo_ > 8:
            # a narrow part of a wide range, next to the value closest to zero
            c = min(max(0.0, lo_), hi_)
            lo_, hi_ = max(lo_, c - 3), min(hi_, c + 3)
        mode = r.random()
        if mode < 0.12:
            return lo_
        if mode < 0.2:
            return hi_
        v = lo_ + (hi_ - lo_) * r.random()
        if mode < 0.7:
            d = r.choice([2, 4, 8, 16, 64])
            v = round(v * d) / d
            v = min(max(v, lo_), hi_)
        return v

    reals = SymSession.reals

    def choose(self, name, n):
        k = len(n) if isinstance(n, (list, tuple)) else n
        i = self.choices.get(name)
        if i is None:
            i = self.rng_.randrange(k)
            self.choices[name] = i
        return n[i] if isinstance(n, (list, tuple)) else i

    def j(self, x):
        return self.jnp.array(np.array(x, dtype=float))

    def n(self, x):
        return np.array(x, dtype=float)

    def num(self, c):
        return float(c)

    pi = math.pi

    def module_jnp(self):
        return self.jnp

    def set_rng(self, f):
        pass

    def set_pyro(self, p):
        pass

    exp = staticmethod(lambda x: float(np.exp(x)))
    log = staticmethod(lambda x: float(np.log(np.float64(x))))
    sqrt = staticmethod(lambda x: float(np.sqrt(np.float64(x))))
    sin = staticmethod(lambda x: float(np.sin(x)))
    cos = staticmethod(lambda x: float(np.cos(x)))
    acos = staticmethod(lambda x: float(np.arccos(x)))
    erf = staticmethod(lambda x: math.erf(x))
    pow = staticmethod(lambda a, b: float(np.float64(a) ** b))
    abs = staticmethod(abs)
    div = staticmethod(lambda a, b: float(np.float64(a) / np.float64(b)))
    max = staticmethod(max)
    min = staticmethod(min)
    lgamma = staticmethod(math.lgamma)

    @staticmethod
    def li2(z):
        from scipy.special import spence

        return float(spence(1.0 - float(z) + 0j).real)

    isnan = staticmethod(lambda x: bool(np.isnan(x)))
    isinf = staticmethod(lambda x: bool(np.isinf(x)))
    isfinite = staticmethod(lambda x: bool(np.isfinite(x)))
    test_lt = staticmethod(lambda a, b: bool(a < b))
    test_le = staticmethod(lambda a, b: bool(a <= b))
    test_eq = staticmethod(lambda a, b: bool(abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))))

    def elems(self, x):
        return [v for v in np.asarray(x).ravel()]

    def shape(self, x):
        return tuple(np.shape(x))

    def at(self, x, *idx):
        a = np.asarray(x)
        r = a[idx] if idx else a
        return r.item() if isinstance(r, np.ndarray) and r.ndim == 0 else r

    def snapshot(self, x):
        return np.array(x, copy=True)

    def gt(self, a, b=0):
        return ("gt", float(a), float(b))

    def ge(self, a, b=0):
        return ("ge", float(a), float(b))

    def lt(self, a, b=0):
        return ("gt", float(b), float(a))

    def le(self, a, b=0):
        return ("ge", float(b), float(a))

    def eq(self, a, b=0):
        return ("eq", float(a), float(b))

    def ne(self, a, b=0):
        return ("ne", float(a), float(b))

    def And(self, *c):
        return ("and", *c)

    def Or(self, *c):
        return ("or", *c)

    def _ev(self, c, tol):
        """goal truth with tolerance in favour of holding (tol>0); assumptions use tol=0"""
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        op = c[0]
        if op == "and":
            return all(self._ev(x, tol) for x in c[1:])
        if op == "or":
            return any(self._ev(x, tol) for x in c[1:])
        a, b = c[1], c[2]
        if a != a or b != b:
            return False
        if math.isinf(a) or math.isinf(b):
            return {"gt": a > b, "ge": a >= b, "eq": a == b, "ne": a != b}[op]
        s = tol * (abs(a) + abs(b)) + tol * 1e-3
        if op == "gt":
            return a > b or (tol > 0 and a != b and a > b - s)
        if op == "ge":
            return a >= b - (s if tol else 0)
        if op == "eq":
            return abs(a - b) <= (s if tol else 1e-13 * max(1, abs(a), abs(b)))
        if op == "ne":
            return a != b
        raise ValueError(op)

    def assume(self, *cs):
        for c in cs:
            if not self._ev(c, 0):
                raise AssumptionFailed(str(c))

    def skip(self):
        raise AssumptionFailed("skip")

    def lemma(self, c):
        pass

    def prove(self, name, c):
        self.ngoals += 1
        if not self._ev(c, self.tol):
            self.fails.append((name, str(c)))

    def prove_eq(self, name, a, b):
        self.ngoals += 1
        A, B = np.asarray(a), np.asarray(b)
        try:
            A, B = np.broadcast_arrays(A, B)
        except ValueError:
            self.fails.append((name + ".shape", f"{np.shape(a)} vs {np.shape(b)}"))
            return
        if A.dtype.kind in "US" or B.dtype.kind in "US" or A.dtype == object:
            if not all(x == y for x, y in zip(A.ravel(), B.ravel())):
                self.fails.append((name, f"{A} != {B}"))
            return
        A = A.astype(float)
        B = B.astype(float)
        ok = np.where(np.isnan(A) | np.isnan(B), np.isnan(A) & np.isnan(B), True)
        with np.errstate(all="ignore"):
            close = ((np.abs(A - B) <= self.tol * (np.abs(A) + np.abs(B)) + self.tol * 1e-3) & ~np.isinf(A) & ~np.isinf(B)) | (A == B) | np.isnan(A)
        ok = ok & close
        if not ok.all():
            i = np.argwhere(~ok)[0] if ok.ndim else ()
            self.fails.append((name, f"{A[tuple(i)]!r} != {B[tuple(i)]!r} at index {tuple(int(z) for z in i)}"))

    def _cmp(self, name, op, a, b):
        A, B = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        self.ngoals += 1
        for x, y in zip(A.ravel(), B.ravel()):
            c = (op, x, y) if op in ("gt", "ge") else ({"lt": "gt", "le": "ge"}[op], y, x)
            if not self._ev(c, self.tol):
                self.fails.append((name, f"not {x!r} {op} {y!r}"))
                return

    def prove_zero(self, name, a):
        self.ngoals += 1
        for x in np.asarray(a, dtype=float).ravel():
            if x != 0:
                self.fails.append((name, f"{x!r} is not zero"))
                return

    prove_le = lambda self, n, a, b: self._cmp(n, "le", a, b)  # noqa
    prove_lt = lambda self, n, a, b: self._cmp(n, "lt", a, b)  # noqa
    prove_ge = lambda self, n, a, b: self._cmp(n, "ge", a, b)  # noqa
    prove_gt = lambda self, n, a, b: self._cmp(n, "gt", a, b)  # noqa

    def prove_true(self, name, c):
        self.prove(name, bool(c))

    def prove_finite(self, name, a):
        self.prove(name, bool(np.all(np.isfinite(np.asarray(a, dtype=float)))))

    def prove_notnan(self, name, a):
        self.prove(name, not bool(np.any(np.isnan(np.asarray(a, dtype=float)))))

    def prove_same(self, name, snap, x):
        self.ngoals += 1
        A, B = np.asarray(snap), np.asarray(x)
        if A.shape != B.shape or not np.array_equal(A, B, equal_nan=A.dtype.kind == "f"):
            self.fails.append((name, f"{A} changed to {B}"))

    def raises(self, name, fn, exc=Exception):
        self.ngoals += 1
        try:
            fn()
        except exc:
            return
        self.fails.append((name, "no exception raised"))

    def derivative(self, fn, x, name=None):
        h = 1e-6 * max(1.0, abs(float(x)))
        x = float(x)

        def f(v):
            return np.asarray(fn(np.float64(v)), dtype=float)

        c = f(x)
        r, l = (f(x + h) - c) / h, (c - f(x - h)) / h
        if not (np.all(np.isfinite(r)) and np.all(np.isfinite(l))):
            return None
        if np.any(np.abs(r - l) > 1e-3 * (1 + np.abs(r) + np.abs(l))):
            return None
        d = (f(x + h) - f(x - h)) / (2 * h)
        self.tol = max(self.tol, 2e-4)
        return d if d.ndim else float(d)


# ====================================================================== driver for one harness
def replay(fn, env, choices, seed=0, tol=1e-6):
    """returns ('ok'|'skip'|'fail'|'error', info)"""
    saved_eng, saved_hooks = EngineRef.cur, tm.HOOKS
    EngineRef.cur = None
    tm.HOOKS = tm.Hooks()
    import jax

    jax.config.update("jax_enable_x64", True)
    S = ConSession(dict(env), dict(choices), random.Random(seed), tol)
    try:
        with np.errstate(all="ignore"):
            fn(S)
    except AssumptionFailed as ex:
        return "skip", {"why": str(ex)}
    except Exception as ex:  # noqa
        tb = traceback.extract_tb(ex.__traceback__)
        in_repo = any(f.filename.startswith(loader.REPO + "/") for f in tb)
        info = {"inputs": S.used, "choices": S.choices, "goal": "no exception", "detail": f"{type(ex).__name__}: {ex}", "where": [f"{f.filename}:{f.lineno}" for f in tb[-4:]]}
        if S.fails:
            info["goal"], info["detail"] = S.fails[0]
            return "fail", info
        return ("fail" if in_repo else "error"), info
    finally:
        S.end()
        EngineRef.cur, tm.HOOKS = saved_eng, saved_hooks
    if S.fails:
        return "fail", {"inputs": S.used, "choices": S.choices, "goal": S.fails[0][0], "detail": S.fails[0][1], "all": S.fails[:5]}
    return "ok", {"inputs": S.used, "choices": S.choices, "goals": S.ngoals}


def search_only(fn, opts):
    """the exploration had to be killed: run the real code on random inputs before giving up"""
    t0 = time.time()
    res = {"status": "inconclusive", "notes": ["hard time limit"], "stats": {}, "functions": [], "goals": {}, "paths": 0, "replays": 0}
    for i in range(opts.get("random", 1500)):
        if time.time() - t0 > opts.get("replay_time", 60) or res["replays"] > 250:
            break
        r, info = replay(fn, {}, {}, 3000 + i, opts.get("tol", 1e-6))
        if r != "skip":
            res["replays"] += 1
        if r == "fail":
            info["source"] = "search after an undecided exploration"
            res["status"], res["violation"] = "violation", info
            break
    res["wall_s"] = round(time.time() - t0, 2)
    return res


def run_harness(fn, opts):
    t0 = time.time()
    eng = Engine(max_paths=opts.get("max_paths", 4000), fork_ms=opts.get("fork_ms", 1500), prove_ms=opts.get("prove_ms", 15000), deadline=t0 + opts.get("time", 240))
    S = SymSession(eng, grid=opts.get("grid", 4))
    S.ticker = Ticker(t0 + opts.get("time", 240) + 10)
    S.goal_s = opts.get("goal_s", 60)
    S.ticker.start()
    cov = loader.Coverage()
    cov.start()
    status = "holds"
    notes = []
    state = {"goals_done": 0, "finished": 0}
    witness = []

    def body():
        S.begin()
        try:
            fn(S)
            state["finished"] += 1
            n = state["finished"]
            if opts.get("witness", True) and (n in (1, 2) or (n & (n - 1)) == 0) and len(witness) < opts.get("witnesses", 4):
                v, m = eng.query([], 4000, full=True, want_model=True)
                if v == "sat":
                    w = [S.complete(m)]
                    w += [S.complete(x) for x in S.rounded(m, None)]
                    witness.append((w, dict(S.choices)))
        except (PathAbort, Budget, StopExploration, GoalTimeout):
            raise
        except Unsupported:
            raise
        except Exception as ex:  # noqa
            tb = traceback.extract_tb(ex.__traceback__)
            inr = any(f.filename.startswith(loader.REPO + "/") for f in tb)
            S.failures_exc = True
            if not inr:
                raise
            S.fail("no exception", None, "exception", f"{type(ex).__name__}: {ex} at {tb[-1].filename}:{tb[-1].lineno}; " + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-5:])))
        finally:
            S.end()

    try:
        eng.explore(body)
        if state["finished"] == 0 and not S.failures:
            status = "inconclusive"
            notes.append("vacuous: no path reached the end of the harness")
    except StopExploration:
        pass
    except Budget as ex:
        status = "inconclusive"
        notes.append(f"budget: {ex}")
    except Unsupported as ex:
        status = "inconclusive"
        tb = traceback.extract_tb(ex.__traceback__)
        notes.append(f"unsupported: {ex} | " + " < ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in reversed(tb[-9:])))
    except RecursionError as ex:
        status = "inconclusive"
        tb = traceback.extract_tb(ex.__traceback__); notes.append(f"recursion: {ex} " + " < ".join(f"{f.filename.split(chr(47))[-1]}:{f.lineno}:{f.name}" for f in list(tb[:6]) + list(tb[-14:])))
    except Exception as ex:  # noqa
        status = "inconclusive"
        notes.append("harness error: " + "".join(traceback.format_exception(ex))[-3000:])
    finally:
        S.ticker.stop()
    cov.stop()
    res = {"paths": state["finished"], "stats": eng.stats.as_dict(), "goals": S.goal_names, "functions": sorted(cov.seen), "notes": notes}
    tol = opts.get("tol", 1e-6)
    viol = None
    tried = 0
    tr0 = time.time()
    if S.failures:
        status = "inconclusive"
        for f in S.failures:
            notes.append(f"not proved: {f['goal']} ({f['verdict']}) {f['detail']} choices={f['choices']} cand={ {k: float(v) for k, v in (f['cands'][0] if f['cands'] else {}).items()} }")
    if status == "inconclusive":
        seen = []
        for f in S.failures:
            for c in reversed(f["cands"]):
                if any(v is not None and abs(v) > 10**5 for v in c.values()):
                    continue
                seen.append((c, f["choices"], 0))
        for w, ch in witness:
            for c in w[-1:]:
                seen.append((c, ch, 0))
        rr = random.Random(opts.get("seed", 1))
        for i in range(opts.get("random", 1500)):
            ch = rr.choice(S.failures)["choices"] if S.failures and rr.random() < 0.7 else {}
            base = {}
            if S.failures and rr.random() < 0.5:
                f = rr.choice(S.failures)
                if f["cands"]:
                    c = rr.choice(f["cands"])
                    base = {k: v for k, v in c.items() if rr.random() < 0.6 and v is not None and abs(v) < 10**5}
            seen.append((base, ch, 1000 + i))
        for c, ch, seed in seen:
            if time.time() - tr0 > opts.get("replay_time", 60):
                break
            r, info = replay(fn, c, ch, seed, tol)
            if r == "skip" and seed == 0:
                # the inputs of the model violate a condition of the float run: bring them closer to zero
                for sh in (4, 16, 64):
                    r, info = replay(fn, {k: (v / sh if v is not None else v) for k, v in c.items()}, ch, 0, tol)
                    if r == "fail":
                        break
            if r != "skip":
                tried += 1
                if tried > 250:
                    break
            if r == "fail":
                viol = info
                viol["source"] = "counterexample of the encoding" if seed == 0 else "search guided by an undischarged goal"
                break
            if r == "error":
                notes.append(f"replay error: {info['detail']} {info['where']}")
    else:
        oks = 0
        for w, ch in witness:
            done = False
            for c in reversed(w):
                if any(v is not None and abs(v) > 10**5 for v in c.values()):
                    continue
                if time.time() - tr0 > opts.get("replay_time", 60):
                    break
                r, info = replay(fn, c, ch, 0, tol)
                tried += 1
                if r == "ok":
                    oks += 1
                    done = True
                elif r == "fail":
                    viol = info
                    viol["source"] = "witness run of the real code (differs from the encoding)"
                    done = True
                elif r == "error":
                    notes.append(f"witness error: {info['detail']} {info['where']}")
                if done:
                    break
            if viol:
                break
        if oks == 0 and not viol and opts.get("witness", True):
            # every symbolic witness was turned down by a float-only side condition: run the real code on random inputs
            for i in range(150):
                if oks >= 2 or time.time() - tr0 > opts.get("replay_time", 60):
                    break
                r, info = replay(fn, {}, {}, 5000 + i, tol)
                tried += 1
                if r == "ok":
                    oks += 1
                elif r == "fail":
                    viol = info
                    viol["source"] = "run of the real code (differs from the encoding)"
                    break
        res["witness_ok"] = oks
        if oks == 0 and not viol and opts.get("witness", True):
            notes.append("no witness replayed on the real code")
    if viol:
        status = "violation"
        res["violation"] = viol
    res["notes"] = notes = list(dict.fromkeys(notes))[:12]
    res["status"] = status
    res["replays"] = tried
    res["wall_s"] = round(time.time() - t0, 2)
    return res
