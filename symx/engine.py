"""Path-exploring symbolic executor on exact real terms, decided by SMT (z3, cvc5 as a second opinion).

* `Engine.explore(fn)` re-executes fn once per path; every comparison made by the code under test forks.
* A path is pruned only on an `unsat` answer; `unknown` keeps the path (sound).
* `Engine.refute(...)` asks whether path /\\ not(goal) is satisfiable.
"""
import hashlib
import math
import os
import random
import subprocess
import time
from fractions import Fraction as Q

import z3

from . import terms as tm
from .terms import A, T, T0, T1, Poly, Unsupported, normalise_factor, tconst
from .scal import EngineRef

PI_LO, PI_HI = Q(314159265358979, 10**14), Q(314159265358980, 10**14)


class PathAbort(Exception):
    """current path is infeasible (contradictory assumptions)"""


class Budget(Exception):
    """bounds of the exploration exhausted -> inconclusive"""


class Cond:
    """unforked condition: poly-level constraint  t op 0,  or conjunction / disjunction"""

    def __init__(self, op, *args):
        self.op = op
        self.args = args

    def __repr__(self):
        return f"({self.op} {' '.join(map(str, self.args))})"


SIGNS = {"gt": {1}, "ge": {1, 0}, "lt": {-1}, "le": {-1, 0}, "eq": {0}, "ne": {1, -1}}


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.forks = 0
        self.paths = 0
        self.goals = 0
        self.goals_norm = 0
        self.goals_smt = 0
        self.screened = 0
        self.max_atoms = 0
        self.by = {}

    def as_dict(self):
        d = dict(self.__dict__)
        d["solver_s"] = round(self.solver_s, 3)
        return d


class Engine:
    def __init__(self, max_paths=4000, fork_ms=1500, prove_ms=15000, deadline=None):
        self.max_paths = max_paths
        self.fork_ms = fork_ms
        self.prove_ms = prove_ms
        self.deadline = deadline
        self.stats = Stats()
        self.memo_sign = {}
        self.memo_q = {}
        self.log = []
        self.prefix = []
        self.todo = []
        self.reset_path()

    # ------------------------------------------------------------ path state
    def reset_path(self):
        self.quiet = False
        self.bounds = {}  # atom id -> (lo, lo_open, hi, hi_open)
        self.cons = []  # list of (Poly-free) Cond in path order
        self.busy = set()
        self.facts = {}  # normalised Poly -> set of allowed signs
        self.subs = {}
        self.submemo = {}
        self.exps = {}
        self.log = []
        self.sig = ()
        self.user_lemmas = []
        self.saw_complex = False
        self.fresh = 0
        self.trans_cache = {}

    def declare(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        t = tm.var(name)
        (m, _), = t.num.d.items()
        self.bounds[m[0][0]] = (lo, lo_open, hi, hi_open)
        return t

    # ------------------------------------------------------------ substitution
    def subst(self, t):
        if not self.subs:
            return t
        return tm.substitute(t, self.subs, self.submemo)

    def _add_sub(self, aid, t):
        new = {aid: t}
        memo = {}
        for k in list(self.subs):
            self.subs[k] = tm.substitute(self.subs[k], new, memo)
        self.subs[aid] = t
        self.submemo = {}
        self.facts = {}
        self.trans_cache = {}
        self._ivm = {}
        # re-derive facts from constraints
        for c in list(self.cons):
            self._learn(c)

    def _learn(self, c):
        if c.op in SIGNS:
            try:
                k = self.canon(c.args[0])
            except (Unsupported, ZeroDivisionError):
                return
            if isinstance(k, int):
                return
            s, p = k
            allowed = {x * s for x in SIGNS[c.op]}
            self.facts[p] = self.facts.get(p, {-1, 0, 1}) & allowed
        elif c.op == "and":
            for x in c.args:
                self._learn(x)

    # ------------------------------------------------------------ canonical sign form
    def canon(self, t):
        """sign(t) as int if trivial, else (s, p): sign(t) = s * sign(p), p normalised Poly"""
        t = self.subst(t)
        if t.is_zero():
            return 0
        q = tm.quick_sign(t)
        if q is not None:
            return q
        num = t.num
        s = 1
        for f, e in t.den:
            if e % 2 == 0:
                continue
            sf = self.sign_poly(f)
            if sf is None or sf == 0:
                num = tm.pmul_raw(num, f)
            elif sf < 0:
                s = -s
        c, mc, p = normalise_factor(num)
        if c < 0:
            s = -s
        extra = []
        for a, e in mc:
            sa = tm.atom_sign(a)
            if sa is None:
                if isinstance(e, int):
                    iv = self.ival_atom(a)
                    if iv[0] > 0:
                        sa = 1
                    elif iv[1] < 0:
                        sa = -1
                    elif e < 0 and e % 2 == 0:
                        sa = 1
                else:
                    # fractional power of an atom: non-negative
                    iv = self.ival_atom(a)
                    sa = 1 if iv[0] > 0 else None
            if sa is None:
                if isinstance(e, int):
                    e2 = (2 - e % 2) if e > 0 else (e % 2)
                    if e > 0 and e % 2 == 0:
                        e2 = 2
                    elif e % 2:
                        e2 = 1
                    else:
                        e2 = 0
                else:
                    e2 = e if e > 0 else -e  # b**e, e fractional: zero iff b zero (e>0); nonzero otherwise
                if e2:
                    extra.append((a, e2))
            elif sa < 0 and isinstance(e, int) and e % 2:
                s = -s
        if extra:
            p = Poly({tm.mmul(m, tuple(sorted(extra))): c for m, c in p.d.items()})
            # keep leading coefficient 1
            c = p.d[tm.lead(p)]
            if c != 1:
                p = tm.pscale(p, Q(1) / c)
                if c < 0:
                    s = -s
        if p.is_const():
            return s if p.const() > 0 else -s
        return s, p

    def sign_poly(self, f):
        q = tm.poly_quick_sign(f)
        if q is not None:
            return q
        return self.sign(T(f, ()))

    # ------------------------------------------------------------ intervals (presolve)
    def ival_var(self, aid):
        b = self.bounds.get(aid)
        if b is None:
            at = A(aid)
            if at.name == "__fmax__":
                return (1e30, math.inf)
            return (-math.inf, math.inf)
        lo = -math.inf if b[0] is None else float(b[0])
        hi = math.inf if b[2] is None else float(b[2])
        return (lo, hi)

    def ival_atom(self, a):
        at = A(a)
        if at.kind == "var":
            return self.ival_var(a)
        r = self._ivm.get(a) if hasattr(self, "_ivm") else None
        if r is not None:
            return r
        if not hasattr(self, "_ivm"):
            self._ivm = {}
        r = (-math.inf, math.inf)
        k = at.kind
        try:
            if k == "pi":
                r = (3.1415926535, 3.1415926536)
            elif k == "exp":
                l, h = self.ival(at.args[0])
                r = (math.exp(l) * (1 - 1e-9) if l > -700 else 0.0, math.exp(h) * (1 + 1e-9) if h < 700 else math.inf)
            elif k == "log":
                l, h = self.ival(at.args[0])
                r = (
                    (math.log(l) - 1e-9 * (1 + abs(math.log(l)))) if l > 0 else -math.inf,
                    (math.log(h) + 1e-9 * (1 + abs(math.log(h)))) if 0 < h < math.inf else math.inf,
                )
            elif k == "pw":
                r = self.ival(at.args[0])
                r = (max(r[0], 0.0), r[1])
            elif k in ("sin", "cos"):
                r = (-1.0, 1.0)
            elif k == "acos":
                l, h = self.ival(at.args[0])
                l = max(l, -1.0)
                h = min(h, 1.0)
                r = (max(0.0, math.acos(h) - 1e-9), math.acos(l) + 1e-9)
            elif k == "erf":
                l, h = self.ival(at.args[0])
                r = (math.erf(l) - 1e-9, math.erf(h) + 1e-9)
                if l >= 0:
                    r = (0.0, r[1])
            elif k == "atan":
                r = (-1.5708, 1.5708)
        except (ValueError, OverflowError):
            pass
        self._ivm[a] = r
        return r

    @staticmethod
    def _imul(x, y):
        c = []
        for a in x:
            for b in y:
                if a == 0 or b == 0:
                    c.append(0.0)
                else:
                    c.append(a * b)
        return (min(c), max(c))

    def ival_poly(self, p):
        lo = hi = 0.0
        mag = 0.0
        for m, c in p.d.items():
            v = (float(c), float(c))
            for a, e in m:
                x = self.ival_atom(a)
                try:
                    if isinstance(e, int):
                        if e > 0:
                            if e % 2 == 0:
                                ab = (0.0 if x[0] <= 0 <= x[1] else min(abs(x[0]), abs(x[1])), max(abs(x[0]), abs(x[1])))
                                y = (ab[0] ** e, ab[1] ** e)
                            else:
                                y = (x[0] ** e, x[1] ** e)
                        else:
                            if x[0] > 0 or x[1] < 0:
                                z = sorted(((1 / x[0]) if math.isfinite(x[0]) else 0.0, (1 / x[1]) if math.isfinite(x[1]) else 0.0))
                                if e % 2 == 0:
                                    z = sorted((abs(z[0]), abs(z[1])))
                                y = (z[0] ** (-e), z[1] ** (-e))
                                y = (min(y), max(y))
                            elif x[0] >= 0:
                                y = ((x[1] ** e if math.isfinite(x[1]) else 0.0) if x[1] > 0 else 0.0, math.inf)
                            else:
                                return (-math.inf, math.inf)
                    else:
                        l = max(x[0], 0.0)
                        h = x[1]
                        fe = float(e)
                        if fe > 0:
                            y = (l**fe, h**fe)
                        else:
                            y = (h**fe if h > 0 and math.isfinite(h) else 0.0, l**fe if l > 0 else math.inf)
                except OverflowError:
                    y = (-math.inf, math.inf)
                v = self._imul(v, y)
            lo += v[0]
            hi += v[1]
            mv = max(abs(v[0]) if math.isfinite(v[0]) else 0, abs(v[1]) if math.isfinite(v[1]) else 0)
            mag += mv
        if lo != lo:
            lo = -math.inf
        if hi != hi:
            hi = math.inf
        s = 1e-9 * mag
        exact_lo = len(p.d) == 1
        return (lo - s if not (lo == 0 and mag == 0) else 0.0, hi + s) if not exact_lo else (lo - (s if lo < 0 else min(s, lo)), hi + (s if hi > 0 else min(s, -hi)))

    def ival(self, t):
        n = self.ival_poly(t.num)
        for f, e in t.den:
            d = self.ival_poly(f)
            if d[0] > 0 or d[1] < 0:
                z = sorted(((1 / d[0]) if math.isfinite(d[0]) else 0.0, (1 / d[1]) if math.isfinite(d[1]) else 0.0))
                for _ in range(e):
                    n = self._imul(n, tuple(z))
            else:
                return (-math.inf, math.inf)
        if n[0] != n[0] or n[1] != n[1]:
            return (-math.inf, math.inf)
        return n

    # ------------------------------------------------------------ sign oracle (no forking)
    def sign(self, t):
        k = self.canon(t)
        if isinstance(k, int):
            return k
        s, p = k
        al = self.facts.get(p)
        if al is not None and len(al) == 1:
            return s * next(iter(al))
        if al == {0, 1} or al == {0, -1} or al == {1, -1}:
            pass
        iv = self.ival_poly(p)
        if iv[0] > 0:
            return s
        if iv[1] < 0:
            return -s
        mk = (self.sig, p)
        r = self.memo_sign.get(mk, "x")
        if r == "x" and p in self.busy:
            return None
        if r == "x":
            poss = set()
            self.busy.add(p)
            for sg in sorted(al or {-1, 0, 1}):
                if len(poss) == 2:
                    break
                res, _ = self.query([Cond({1: "gt", 0: "eq", -1: "lt"}[sg], T(p, ()))], self.fork_ms)
                if res != "unsat":
                    poss.add(sg)
                if sg != 0 and len(poss) > 1:
                    break
            self.busy.discard(p)
            r = next(iter(poss)) if len(poss) == 1 else None
            if len(poss) == 0:
                raise PathAbort()
            self.memo_sign[mk] = r
        if r is not None:
            self.facts[p] = {r}
            return s * r
        return None

    # ------------------------------------------------------------ forking decisions
    def _delog(self, t):
        """a rational combination of logarithms compared with zero is a product compared with one"""
        t = self.subst(t)
        if t.den or len(t.num.d) < 2 or len(t.num.d) > 8:
            return None
        den = 1
        for m, c in t.num.d.items():
            if len(m) != 1 or m[0][1] != 1 or A(m[0][0]).kind != "log":
                return None
            c = Q(c)
            den = den * c.denominator // math.gcd(den, c.denominator)
        if den > 4 or sum(abs(Q(c)) * den for c in t.num.d.values()) > 12:
            return None
        a, b = T1, T1
        for m, c in t.num.d.items():
            k = int(Q(c) * den)
            x = A(m[0][0]).args[0]
            for _ in range(abs(k)):
                if k > 0:
                    a = a * x
                else:
                    b = b * x
        return a - b

    def _deexp(self, t):
        """a difference of two positive products c1 M1 - c2 M2 with exponentials vanishes iff log(c1 M1) - log(c2 M2) does;
        returned only when that difference splits into factors"""
        if t.den or len(t.num.d) != 2:
            return None
        (m1, c1), (m2, c2) = t.num.d.items()
        if c1 * c2 >= 0 or not any(A(a).kind == "exp" for m in (m1, m2) for a, _ in m):
            return None
        for m in (m1, m2):
            for a, _ in m:
                if (tm.atom_sign(a) or 0) <= 0 and self.ival_atom(a)[0] <= 0 and self.facts.get(tm.patom(A(a))) != {1}:
                    return None
        try:
            u = tm.tlog(T(Poly({m1: abs(c1)}), ())) - tm.tlog(T(Poly({m2: abs(c2)}), ()))
        except Exception:  # noqa
            return None
        if u.den:
            u = T(u.num, ())
        _, mc, facs = tm.factor_poly(u.num)
        if len([1 for _, e in mc if e > 0]) + len(facs) < 2:
            return None
        return u

    def decide(self, t, classes):
        """classes: list of sign sets partitioning {-1,0,1}; returns index"""
        if not self.busy:
            u = self._delog(t)
            if u is not None:
                i = self.decide(u, classes)
                k = self.canon(t)
                if not isinstance(k, int):
                    s, p = k
                    c = {x * s for x in classes[i]}
                    self.facts[p] = self.facts.get(p, {-1, 0, 1}) & c
                    if not self.quiet:
                        self.cons.append(self._sgcond(p, c))
                return i
        k = self.canon(t)
        if isinstance(k, int):
            for i, c in enumerate(classes):
                if k in c:
                    return i
        s, p = k
        al = self.facts.get(p, {-1, 0, 1})
        iv = self.ival_poly(p)
        if iv[0] > 0:
            al = al & {1}
        elif iv[1] < 0:
            al = al & {-1}
        elif iv[0] == 0:
            al = al & {0, 1}
        elif iv[1] == 0:
            al = al & {0, -1}
        cl = [{x * s for x in c} & al for c in classes]
        feas = [i for i, c in enumerate(cl) if c]
        if not feas:
            raise PathAbort()
        if len(feas) == 1:
            return feas[0]
        pos = len(self.log)
        if pos < len(self.prefix):
            choice, n = self.prefix[pos]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget of the exploration exhausted")
            ok = []
            for n_, i in enumerate(feas):
                if n_ == len(feas) - 1 and not ok:
                    ok.append(i)
                    break
                res, _ = self.query([self._sgcond(p, cl[i])], self.fork_ms)
                if res != "unsat":
                    ok.append(i)
            choice = ok[0]
            if os.environ.get("SYMX_FORKS") and len(ok) > 1:
                print("FORK", T(p, ()), [cl[i] for i in ok], flush=True)
            n = len(ok)
            if n > 1:
                self.stats.forks += n - 1
                for alt in ok[1:]:
                    self.todo.append(self.log + [(alt, n)])
        self.log.append((choice, n))
        self.sig = (self.sig, choice)
        c = cl[choice]
        self.facts[p] = set(c)
        cond = self._sgcond(p, c)
        if n > 1:
            self.cons.append(cond)
        if c == {0}:
            self._solve_eq(p)
        return choice

    def _sgcond(self, p, c):
        t = T(p, ())
        for op, ss in SIGNS.items():
            if ss == c:
                return Cond(op, t)
        return Cond("and")

    def _solve_eq(self, p):
        best = None
        for a in p.atoms():
            at = A(a)
            if at.kind != "var" or at.name == "__fmax__":
                continue
            coef = {}
            ok = True
            for m, c in p.d.items():
                e = dict(m).get(a, 0)
                if e not in (0, 1):
                    ok = False
                    break
                for b, _ in m:
                    if b != a and a in tm.deep_atom(b):
                        ok = False
                if e == 1:
                    coef[tuple(x for x in m if x[0] != a)] = c
            if not ok or not coef:
                continue
            isconst = len(coef) == 1 and () in coef
            score = (0 if isconst else 1, len(coef), a)
            if best is None or score < best[0]:
                best = (score, a, coef)
        if best is None:
            return
        _, a, coef = best
        ct = T(Poly(coef), ())
        if not (len(coef) == 1 and () in coef):
            s = self.sign(ct)
            if s is None or s == 0:
                return
        rest = T(Poly({m: c for m, c in p.d.items() if dict(m).get(a, 0) == 0}), ())
        self._add_sub(a, rest.neg().mul(ct.inv()))

    def is_zero(self, t):
        t = self.subst(t)
        if t.is_zero():
            return True
        if t.is_const():
            return False
        if t.den:
            t = T(t.num, ())
        c, mc, facs = tm.factor_poly(t.num)
        parts = [T(tm.patom(A(a)), ()) for a, e in mc if e > 0] + [T(f, ()) for f, _ in facs]
        if not parts:
            return False
        for f in parts:
            if self._zero_part(f):
                return True
        return False

    def _zero_part(self, f):
        u = None if self.busy else self._deexp(f)
        if u is None:
            return self.decide(f, [{1, -1}, {0}]) == 1
        k = self.canon(f)
        if isinstance(k, int):
            return k == 0
        if self.facts.get(k[1], {0, 1}) in ({0}, {1}, {-1}, {1, -1}):
            return self.facts[k[1]] == {0}
        q, self.quiet = self.quiet, True
        try:
            z = self.is_zero(u)
        finally:
            self.quiet = q
        c = {0} if z else {1, -1}
        self.facts[k[1]] = self.facts.get(k[1], {-1, 0, 1}) & c
        return z

    def fork_sign(self, t):
        if self.busy:
            s = self.sign(t)
            if s is None:
                raise Unsupported("sign needed inside a query")
            return s
        return (1, 0, -1)[self.decide(t, [{1}, {0}, {-1}])]

    def decide_gt(self, t):
        return self.decide(t, [{1}, {0, -1}]) == 0

    def decide_ge(self, t):
        return self.decide(t, [{1, 0}, {-1}]) == 0

    def fork_floor(self, t):
        t = self.subst(t)
        if t.is_const():
            return tconst(math.floor(t.const()))
        lo, hi = self.ival(t)
        if not (math.isfinite(lo) and math.isfinite(hi)) or hi - lo > 64:
            up = self.decide_ge(t)
            for k in range(1, 65):
                if not up and self.decide_ge(t.add(tconst(k))):
                    return tconst(-k)
                if up and not self.decide_ge(t.sub(tconst(k))):
                    return tconst(k - 1)
            raise Unsupported("floor of an unbounded symbolic value")
        n0, n1 = math.floor(lo) - 1, math.floor(hi) + 1
        k = n0
        for k in range(n0 + 1, n1 + 1):
            if not self.decide_ge(t.sub(tconst(k))):
                return tconst(k - 1)
        return tconst(n1)

    def choose(self, n):
        """n-way nondeterministic choice (all feasible)"""
        if n == 1:
            return 0
        pos = len(self.log)
        if pos < len(self.prefix):
            choice, _ = self.prefix[pos]
        else:
            choice = 0
            self.stats.forks += n - 1
            for alt in range(1, n):
                self.todo.append(self.log + [(alt, n)])
        self.log.append((choice, n))
        self.sig = (self.sig, choice)
        return choice

    # ------------------------------------------------------------ assumptions
    def assume(self, c):
        if c.op in SIGNS:
            k = self.canon(c.args[0])
            if isinstance(k, int):
                if k not in SIGNS[c.op]:
                    raise PathAbort()
                return
            self.cons.append(c)
            self._learn(c)
            s, p = k
            if self.facts.get(p) == {0}:
                self._solve_eq(p)
            elif not self.facts.get(p, {0}):
                raise PathAbort()
        elif c.op == "and":
            for x in c.args:
                self.assume(x)
        else:
            self.cons.append(c)

    def lemma(self, c):
        self.user_lemmas.append(c)

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        EngineRef.cur = self
        saved = tm.HOOKS
        eng = self

        class H(tm.Hooks):
            def sign(self, t):
                return eng.sign(t)

            def fork_sign(self, t):
                return eng.fork_sign(t)

            def subst(self, t):
                return eng.subst(t)

            def ival(self, t):
                return eng.ival(t)

            def infeasible(self, why):
                # the path facts exclude this value
                if eng.busy:
                    raise Unsupported(why)
                raise PathAbort()

            def note_exp(self, arg, val):
                eng.exps[arg.key()] = (arg, val)

            def known_pos(self, t):
                # the argument of an existing log atom is positive
                if t.is_const():
                    return
                c, mc, facs = tm.factor_poly(t.num)
                if len(mc) + len(facs) == 1 and not t.den and c > 0:
                    f = tm.patom(A(mc[0][0])) if mc else facs[0][0]
                    k = eng.canon(T(f, ()))
                    if not isinstance(k, int):
                        eng.facts[k[1]] = {k[0]}

        tm.HOOKS = H()
        self.todo = [[]]
        try:
            while self.todo:
                if self.stats.paths >= self.max_paths:
                    raise Budget(f"more than {self.max_paths} paths")
                if self.deadline and time.time() > self.deadline:
                    raise Budget("time budget of the exploration exhausted")
                self.prefix = self.todo.pop()
                self.reset_path()
                self._ivm = {}
                self.stats.paths += 1
                try:
                    fn()
                except PathAbort:
                    continue
        finally:
            EngineRef.cur = None
            tm.HOOKS = saved

    # ------------------------------------------------------------ SMT translation
    def _cone(self, goal_conds):
        """path constraints sharing atoms (transitively) with the goals"""
        items = []
        for c in self.cons + self.user_lemmas:
            try:
                items.append((c, self._catoms(c)))
            except Unsupported:  # a premise that cannot be rewritten here is left out (weaker premises are sound)
                pass
        seen = set()
        for c in goal_conds:
            seen |= self._catoms(c)
        used = []
        rest = items
        changed = True
        while changed:
            changed = False
            nxt = []
            for c, a in rest:
                if a & seen:
                    used.append(c)
                    if not a <= seen:
                        seen |= a
                        changed = True
                else:
                    nxt.append((c, a))
            rest = nxt
        # atoms substituted away: their bounds are constraints
        for aid, t in self.subs.items():
            b = self.bounds.get(aid)
            if b is None:
                continue
            at = tm.deep_atoms(t)
            if at & seen:
                if b[0] is not None:
                    used.append(Cond("gt" if b[1] else "ge", t.sub(tconst(b[0]))))
                if b[2] is not None:
                    used.append(Cond("lt" if b[3] else "le", t.sub(tconst(b[2]))))
        return used

    def _catoms(self, c):
        s = set()
        if c.op in SIGNS:
            s |= tm.deep_atoms(self.subst(c.args[0]))
        else:
            for x in c.args:
                s |= self._catoms(x)
        s.discard(tm.PI_ATOM.id)
        return s

    def query(self, conds, ms, full=False, want_model=False, extra=()):
        """check path /\\ conds. returns (verdict, model env or None)"""
        try:
            conds = [self._subst_cond(c) for c in conds]
        except Unsupported:
            return "unknown", None
        if any(c is False for c in conds):
            return "unsat", None
        conds = [c for c in conds if c is not True]
        if full:
            used = []
            for c in list(self.cons) + list(self.user_lemmas):
                try:
                    self._catoms(c)
                    used.append(c)
                except Unsupported:
                    pass
            for aid, t in self.subs.items():
                b = self.bounds.get(aid)
                if b is None:
                    continue
                if b[0] is not None:
                    used.append(Cond("gt" if b[1] else "ge", t.sub(tconst(b[0]))))
                if b[2] is not None:
                    used.append(Cond("lt" if b[3] else "le", t.sub(tconst(b[2]))))
        else:
            used = self._cone(conds)
        used = used + list(extra)
        key = None
        if not want_model:
            key = (str([repr(c) for c in conds]), str(sorted(repr(c) for c in used)), tuple(sorted((a, b) for a, b in self.bounds.items() if False)), ms)
            key = hashlib.md5((key[0] + key[1] + str(ms)).encode()).hexdigest()
            r = self.memo_q.get(key)
            if r is not None:
                return r, None
        tr = Translator(self)
        verdict, model = "unknown", None
        try:
            fs = []
            for c in used:
                f = tr.cond(c)
                if f is not None:
                    fs.append(f)
            for c in conds:
                f = tr.cond(c)
                if f is not None:
                    fs.append(f)
            verdict, model = tr.solve(fs, ms, want_model or full)
        except Unsupported:
            verdict = "unknown"
        if key is not None:
            self.memo_q[key] = verdict
        return verdict, model

    def _subst_cond(self, c):
        if c.op in SIGNS:
            k = self.canon(c.args[0])
            if isinstance(k, int):
                return k in SIGNS[c.op]
            s, p = k
            return self._sgcond(p, {x * s for x in SIGNS[c.op]})
        if c.op == "and":
            xs = [self._subst_cond(x) for x in c.args]
            if any(x is False for x in xs):
                return False
            xs = [x for x in xs if x is not True]
            return Cond("and", *xs) if xs else True
        if c.op == "or":
            xs = [self._subst_cond(x) for x in c.args]
            if any(x is True for x in xs):
                return True
            xs = [x for x in xs if x is not False]
            return Cond("or", *xs) if xs else False
        if c.op == "not":
            return self._subst_cond(negate(c.args[0]))
        raise Unsupported(c.op)


NEG = {"gt": "le", "ge": "lt", "lt": "ge", "le": "gt", "eq": "ne", "ne": "eq"}


def negate(c):
    if c.op in NEG:
        return Cond(NEG[c.op], *c.args)
    if c.op == "and":
        return Cond("or", *[negate(x) for x in c.args])
    if c.op == "or":
        return Cond("and", *[negate(x) for x in c.args])
    if c.op == "not":
        return c.args[0]
    raise Unsupported(c.op)


_LOGB = {}


def log_bounds(n):
    r = _LOGB.get(n)
    if r is None:
        import mpmath

        with mpmath.workdps(30):
            v = mpmath.log(n)
            lo = Q(int(mpmath.floor(v * 10**14)), 10**14)
            r = (lo, lo + Q(1, 10**14))
        _LOGB[n] = r
    return r


def num_bounds(kind, x):
    """rational enclosure of kind(x), x rational constant (guard: 30 digits evaluated, 14 kept)"""
    import mpmath

    with mpmath.workdps(30):
        xx = mpmath.mpf(x.numerator) / x.denominator
        v = {"exp": mpmath.exp, "log": mpmath.log, "erf": mpmath.erf, "sin": mpmath.sin, "cos": mpmath.cos, "acos": mpmath.acos,
             "atan": mpmath.atan, "lgamma": mpmath.loggamma, "li2": lambda z: mpmath.re(mpmath.polylog(2, z))}[kind](xx)
        k = 14 - (int(mpmath.log10(abs(v))) if v != 0 else 0)
        sc = mpmath.mpf(10) ** k
        n = int(mpmath.floor(v * sc))
        d = Q(10) ** k
        return Q(n - 1) / d, Q(n + 2) / d


def zq(c):
    c = Q(c)
    return z3.RealVal(f"{c.numerator}/{c.denominator}" if c.denominator != 1 else str(c.numerator))


class Translator:
    MAXPAIR = 14

    def __init__(self, eng):
        self.e = eng
        self.v = {}
        self.roots = {}
        self.side = []
        self.nonlinear = False
        self.pending = []
        self.done = set()

    # -- atoms
    def const(self, a):
        r = self.v.get(a)
        if r is None:
            at = A(a)
            r = z3.Real(at.name if at.kind == "var" and not at.args else f"a{a}_{at.kind}")
            self.v[a] = r
            self.pending.append(a)
        return r

    def root(self, a, n):
        """r with r**n == atom value, r >= 0; returns z3 var for the finest needed root"""
        return self.roots[a][1]

    def prepare(self, polys):
        """determine root degrees for fractional exponents"""
        deg = {}
        for p in polys:
            for m in p.d:
                for a, e in m:
                    if isinstance(e, Q) and e.denominator != 1:
                        deg[a] = deg.get(a, 1) * e.denominator // math.gcd(deg.get(a, 1), e.denominator)
        for a, n in deg.items():
            old = self.roots.get(a)
            if old is not None:
                if old[0] % n == 0:
                    continue
                raise Unsupported("root degree changed")
            r = z3.Real(f"r{a}_{n}")
            self.roots[a] = (n, r)
            at = A(a)
            self.nonlinear = True
            if at.kind == "pw":
                b = at.args[0]
                nb, db = self.poly(b.num, clear=True), None
                den = None
                for f, e in b.den:
                    x = self.poly(f, clear=False)
                    for _ in range(e):
                        den = x if den is None else den * x
                lhs = self._ipow(r, n)
                if den is not None:
                    lhs = lhs * den
                self.side.append(lhs == nb[0] if nb[1] is None else lhs * nb[1] == nb[0])
                self.side.append(r >= 0)
                if at.positive or self.e.ival(b)[0] > 0:
                    self.side.append(r > 0)
            else:
                v = self.const(a)
                self.side.append(v == self._ipow(r, n))
                self.side.append(r > 0 if (at.positive or at.kind == "exp") else r >= 0)

    def _ipow(self, x, n):
        r = x
        for _ in range(n - 1):
            r = r * x
        return r

    def atom_pow(self, a, e):
        if a in self.roots:
            n, r = self.roots[a]
            k = Q(e) * n
            assert k.denominator == 1 and k > 0
            return self._ipow(r, int(k))
        assert isinstance(e, int) and e > 0, (A(a), e)
        return self._ipow(self.const(a), e)

    def poly(self, p, clear=False):
        """z3 term of p.  With clear, returns (term, multiplier or None) after multiplying by negative powers"""
        mult = ()
        neg = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            mult = tuple(sorted((a, tm._fr(Q(e))) for a, e in neg.items()))
            p = Poly({tm.mmul(m, mult): c for m, c in p.d.items()})
        self.prepare([p, Poly({mult: 1})])
        terms = []
        for m, c in p.d.items():
            fs = []
            for a, e in m:
                fs.append(self.atom_pow(a, e))
            if sum(abs(float(e)) for _, e in m) > 1:
                self.nonlinear = True
            if not fs:
                terms.append(zq(c))
            else:
                x = fs[0]
                for f in fs[1:]:
                    x = x * f
                terms.append(x if c == 1 else zq(c) * x)
        r = z3.Sum(terms) if len(terms) > 1 else (terms[0] if terms else zq(0))
        if not clear:
            if neg:
                raise Unsupported("negative power")
            return r
        mz = None
        if mult:
            mz = None
            for a, e in mult:
                x = self.atom_pow(a, e)
                mz = x if mz is None else mz * x
        return r, mz

    def signpoly(self, p):
        """z3 term whose sign equals the sign of p (Laurent exponents cleared by even/positive multipliers)"""
        neg = {}
        for m in p.d:
            for a, e in m:
                if e < 0:
                    neg[a] = max(neg.get(a, 0), -e)
        if neg:
            mult = []
            for a, e in neg.items():
                if tm.atom_sign(a) == 1 or A(a).kind == "pw" or self.e.ival_atom(a)[0] > 0 or not isinstance(e, int):
                    mult.append((a, e))
                else:
                    mult.append((a, e + (e % 2)))
                    x = self.const(a)
                    self.side.append(x != 0)
            mult = tuple(sorted(mult))
            p = Poly({tm.mmul(m, mult): c for m, c in p.d.items()})
        return self.poly(p)

    def cond(self, c):
        if c is True:
            return None
        if c.op in SIGNS:
            k = self.e.canon(c.args[0])
            if isinstance(k, int):
                return None if k in SIGNS[c.op] else z3.BoolVal(False)
            s, p = k
            x = self.signpoly(p)
            ss = {y * s for y in SIGNS[c.op]}
            for op, want in SIGNS.items():
                if want == ss:
                    return {"gt": x > 0, "ge": x >= 0, "lt": x < 0, "le": x <= 0, "eq": x == 0, "ne": x != 0}[op]
        xs = [self.cond(x) for x in c.args]
        if c.op == "and":
            xs = [x for x in xs if x is not None]
            return z3.And(*xs) if xs else None
        if c.op == "or":
            if any(x is None for x in xs):
                return None
            return z3.Or(*xs)
        raise Unsupported(c.op)

    # -- lemmas
    def tz(self, t):
        """z3 (num, den) for a term"""
        n, m = self.poly(t.num, clear=True)
        d = m
        for f, e in t.den:
            x, mm = self.poly(f, clear=True)
            for _ in range(e):
                if mm is not None:
                    n = n * mm
                d = x if d is None else d * x
        return n, d

    def cmp(self, t, op):
        """constraint t op 0 as z3"""
        r = self.cond(Cond(op, t))
        return z3.BoolVal(True) if r is None else r

    def lemmas(self, level):
        """basic facts about the atoms in use; may introduce new atoms (bounded rounds)"""
        out = []
        rounds = 0
        allseen = []
        while self.pending and rounds < 3:
            todo, self.pending = self.pending, []
            rounds += 1
            for a in todo:
                if a in self.done:
                    continue
                self.done.add(a)
                allseen.append(a)
                out += self.atom_lemmas(a, level)
        if level >= 1:
            out += self.pair_lemmas(allseen, level)
            # bounds of newly introduced variables
            while self.pending:
                todo, self.pending = self.pending, []
                for a in todo:
                    if a not in self.done:
                        self.done.add(a)
                        out += self.atom_lemmas(a, 0)
        return out

    def atom_lemmas(self, a, level):
        at = A(a)
        k = at.kind
        v = self.v[a]
        o = []
        if k == "var":
            b = self.e.bounds.get(a)
            if at.name == "__fmax__":
                return [v >= zq(10**30)]
            if b is not None:
                if b[0] is not None:
                    o.append(v > zq(b[0]) if b[1] else v >= zq(b[0]))
                if b[2] is not None:
                    o.append(v < zq(b[2]) if b[3] else v <= zq(b[2]))
            return o
        if k == "pi":
            return [v > zq(PI_LO), v < zq(PI_HI)]
        x = at.args[0] if at.args else None
        tv = tm.tatom(at)
        if x is not None and x.is_const() and k in ("exp", "log", "erf", "sin", "cos", "acos", "atan", "lgamma", "li2"):
            lo, hi = num_bounds(k, x.const())
            return [v > zq(lo), v < zq(hi)]
        lo, hi = self.e.ival_atom(a)
        if k == "exp":
            o.append(v > 0)
            if level >= 1:
                o.append(self.cmp(tv - T1 - x, "ge"))
                o.append(self.cmp(T1 - tv * (T1 - x), "ge"))
        elif k == "log":
            if level >= 1:
                o.append(self.cmp(x, "gt"))
                o.append(self.cmp(x - T1 - tv, "ge"))
                o.append(self.cmp(tv * x - x + T1, "ge"))
        elif k in ("sin", "cos"):
            o += [v >= -1, v <= 1]
            other = tm._INTERN.get(("cos" if k == "sin" else "sin", None, (x.key(),)))
            if other is not None and other.id in self.v:
                o.append(v * v + self.v[other.id] * self.v[other.id] == 1)
                self.nonlinear = True
            if level >= 1:
                P, H = tm.PI, tm.PI * Q(1, 2)
                I = lambda *c: z3.And(*[self.cmp(t, op) for t, op in c])  # noqa
                if k == "sin":
                    o.append(z3.Implies(I((x, "gt"), (P - x, "gt")), v > 0))
                    o.append(z3.Implies(I((x, "lt"), (P + x, "gt")), v < 0))
                    o.append(z3.Implies(z3.Or(I((x, "eq")), I((x - P, "eq"))), v == 0))
                    o.append(z3.Implies(I((x - H, "eq")), v == 1))
                    o.append(z3.Implies(I((x + H, "eq")), v == -1))
                    o.append(z3.Implies(I((H - x, "gt"), (H * 3 + x, "gt")), v < 1))
                    o.append(z3.Implies(I((H + x, "gt"), (H * 3 - x, "gt")), v > -1))
                    o.append(z3.Implies(I((x, "gt")), self.cmp(x - tv, "gt")))
                else:
                    o.append(z3.Implies(I((H - x, "gt"), (H + x, "gt")), v > 0))
                    o.append(z3.Implies(I((x - H, "gt"), (H * 3 - x, "gt")), v < 0))
                    o.append(z3.Implies(z3.Or(I((x - H, "eq")), I((x + H, "eq"))), v == 0))
                    o.append(z3.Implies(I((x, "eq")), v == 1))
                    o.append(z3.Implies(I((x - P, "eq")), v == -1))
                    o.append(z3.Implies(I((x, "gt"), (P * 2 - x, "gt")), v < 1))
                    o.append(z3.Implies(I((P + x, "gt"), (P - x, "gt")), v > -1))
        elif k == "acos":
            o.append(v >= 0)
            o.append(self.cmp(tm.PI - tv, "ge"))
        elif k == "erf":
            o += [v > -1, v < 1]
            if level >= 1:
                o.append(z3.Implies(self.cmp(x, "gt"), v > 0))
                o.append(z3.Implies(self.cmp(x, "lt"), v < 0))
        elif k == "atan":
            o += [v > -2, v < 2]
            if level >= 1:
                o.append(z3.Implies(self.cmp(x, "gt"), v > 0))
                o.append(z3.Implies(self.cmp(x, "lt"), v < 0))
        if k in ("exp", "log") and level >= 0:
            if lo > -1e6 and lo != 0:
                o.append(v >= zq(Q(lo)))
            if hi < 1e6:
                o.append(v <= zq(Q(hi)))
        return o

    INC = ("exp", "log", "erf", "atan", "li2")

    def pair_lemmas(self, ids, level):
        o = []
        by = {}
        for a in ids:
            by.setdefault(A(a).kind, []).append(a)
        for k in self.INC + ("acos",):
            l = by.get(k, [])
            if len(l) > self.MAXPAIR:
                l = l[: self.MAXPAIR]
            for i in range(len(l)):
                for j in range(i):
                    a, b = l[i], l[j]
                    x, y = A(a).args[0], A(b).args[0]
                    d = x - y
                    if k == "acos":
                        d = d.neg()
                    va, vb = self.v[a], self.v[b]
                    s = self.e.canon(d)
                    if k == "li2":  # the real part increases up to 2 only
                        two = tm.tconst(2)
                        o.append(z3.Implies(z3.And(self.cmp(d, "gt"), self.cmp(x - two, "le")), va > vb))
                        o.append(z3.Implies(z3.And(self.cmp(d, "lt"), self.cmp(y - two, "le")), va < vb))
                        o.append(z3.Implies(self.cmp(d, "eq"), va == vb))
                        continue
                    if isinstance(s, int):
                        o.append(va > vb if s > 0 else (va < vb if s < 0 else va == vb))
                        continue
                    o.append(z3.Implies(self.cmp(d, "gt"), va > vb))
                    o.append(z3.Implies(self.cmp(d, "lt"), va < vb))
                    o.append(z3.Implies(self.cmp(d, "eq"), va == vb))
        P, H = tm.PI, tm.PI * Q(1, 2)
        for k in ("sin", "cos"):
            l = by.get(k, [])[: self.MAXPAIR]
            lo_, hi_ = (H.neg(), H) if k == "sin" else (T0, P)
            for a in l:
                for b in l:
                    if a == b:
                        continue
                    x, y = A(a).args[0], A(b).args[0]
                    c1 = z3.And(self.cmp(x - lo_, "ge"), self.cmp(y - x, "gt"), self.cmp(hi_ - y, "ge"))
                    o.append(z3.Implies(c1, self.v[a] < self.v[b] if k == "sin" else self.v[a] > self.v[b]))
                    c2 = z3.And(self.cmp(x - lo_ + (P if k == "cos" else P.neg()), "ge"), self.cmp(y - x, "gt"), self.cmp(hi_ - y + (P.neg() if k == "cos" else P), "ge"))
                    o.append(z3.Implies(c2, self.v[a] > self.v[b] if k == "sin" else self.v[a] < self.v[b]))
                    if a < b:
                        o.append(z3.Implies(self.cmp(x - y, "eq"), self.v[a] == self.v[b]))
        for name in {A(a).name for a in by.get("uf", [])}:
            l = [a for a in by["uf"] if A(a).name == name][: self.MAXPAIR]
            for i in range(len(l)):
                for j in range(i):
                    xs, ys = A(l[i]).args, A(l[j]).args
                    if len(xs) != len(ys):
                        continue
                    o.append(z3.Implies(z3.And(*[self.cmp(x - y, "eq") for x, y in zip(xs, ys)]), self.v[l[i]] == self.v[l[j]]))
        # recorded exponentials of sums: value is a product of atoms
        rec = []
        for arg, val in list(self.e.exps.values()):
            arg = self.e.subst(arg)
            val = self.e.subst(val)
            if len(val.num.d) == 1 and not val.den:
                (m, c), = val.num.d.items()
                if len(m) == 1 and m[0][1] == 1:
                    continue
            if val.atoms() and all(a in self.v or a in self.roots for a in val.atoms()):
                rec.append((arg, val))
        rec = rec[: self.MAXPAIR]
        for arg, val in rec:
            o.append(self.cmp(val - T1 - arg, "ge"))
            o.append(self.cmp(T1 - val * (T1 - arg), "ge"))
        for i in range(len(rec)):
            for j in range(i):
                d = rec[i][0] - rec[j][0]
                dv = rec[i][1] - rec[j][1]
                s = self.e.canon(d)
                if isinstance(s, int):
                    o.append(self.cmp(dv, {1: "gt", 0: "eq", -1: "lt"}[s]))
                else:
                    o.append(z3.Implies(self.cmp(d, "gt"), self.cmp(dv, "gt")))
                    o.append(z3.Implies(self.cmp(d, "lt"), self.cmp(dv, "lt")))
        return o

    # -- solving
    def solve(self, fs, ms, want_model):
        st = self.e.stats
        base = self.lemmas(0)
        has_trans = any(A(a).kind not in ("var", "pi") for a in self.v)
        st.max_atoms = max(st.max_atoms, len(self.v))
        t0 = time.time()
        verdict, model = self._run(fs + base + self.side, ms, "s0")
        if verdict != "unsat" and has_trans:
            # refine with transcendental lemmas
            self.done = set()
            self.pending = list(self.v)
            more = self.lemmas(1)
            v2, m2 = self._run(fs + base + more + self.side, ms, "s1")
            if v2 != "unknown" or verdict == "unknown":
                verdict, model = v2, m2
        st.solver_s += time.time() - t0
        if want_model and verdict == "sat" and model is not None:
            env = {}
            for a, zv in self.v.items():
                if A(a).kind == "var":
                    env[A(a).name] = self._val(model, zv)
            model = env
        return verdict, model

    def _val(self, model, zv):
        x = model.eval(zv, model_completion=True)
        if z3.is_algebraic_value(x):
            x = x.approx(30)
        try:
            return Q(x.numerator_as_long(), x.denominator_as_long())
        except Exception:  # noqa
            return None

    def _run(self, fs, ms, tag):
        st = self.e.stats
        order = ["QF_LRA"] if not self.nonlinear else ["QF_NRA", "default"]
        has_or = any(z3.is_or(f) or z3.is_implies(f) for f in fs)
        verdict, model = "unknown", None
        for i, lg in enumerate(order):
            s = z3.Solver() if lg == "default" else z3.SolverFor(lg)
            s.set("timeout", int(ms if len(order) == 1 else (ms * 0.6 if i == 0 else ms * 0.4)))
            for f in fs:
                s.add(f)
            st.queries += 1
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                st.unsat += 1
                st.by[lg] = st.by.get(lg, 0) + 1
                return "unsat", None
            if r == z3.sat:
                st.sat += 1
                return "sat", s.model()
            st.unknown += 1
            self.last = s
        if verdict == "unknown" and ms >= 8000:
            r = cvc5_check(self.last, ms)
            st.queries += 1
            if r == "unsat":
                st.unsat += 1
                st.by["cvc5"] = st.by.get("cvc5", 0) + 1
                return "unsat", None
            st.unknown += 1
        return verdict, model


def cvc5_check(solver, ms):
    try:
        txt = "(set-logic QF_NRA)\n" + solver.sexpr() + "\n(check-sat)\n"
        p = subprocess.run(["cvc5", f"--tlimit={int(ms)}", "--lang=smt2"], input=txt, capture_output=True, text=True, timeout=ms / 1000 + 5)
        o = p.stdout.strip().splitlines()
        return o[-1] if o and o[-1] in ("sat", "unsat") else "unknown"
    except Exception:  # noqa
        return "unknown"
