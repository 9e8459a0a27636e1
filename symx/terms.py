"""Exact symbolic real terms.

A term T is a rational function num / prod(den_i ** e_i) whose indeterminates are interned *atoms*
(input variables, pi, exp/log/trig/erf/... applications, fractional-power bases).  Terms are kept in a normal
form, so many equalities become syntactic; everything else is decided by the SMT solver (see engine.py), which
sees atoms as real constants constrained by instantiated lemmas.
"""
from fractions import Fraction
from functools import lru_cache
import math

Q = Fraction


class Unsupported(Exception):
    """The code under test used something the encoder cannot represent."""


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ("id", "kind", "args", "name", "positive")

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return f"{self.kind}({', '.join(map(str, self.args))})"


_ATOMS = []
_INTERN = {}


def atom(kind, args=(), name=None, positive=False):
    key = (kind, name, tuple(a.key() if isinstance(a, T) else (a.key if isinstance(a, Poly) else a) for a in args))
    a = _INTERN.get(key)
    if a is None:
        a = Atom()
        a.id = len(_ATOMS)
        a.kind = kind
        a.args = tuple(args)
        a.name = name
        a.positive = positive
        _ATOMS.append(a)
        _INTERN[key] = a
        if kind in ("sin", "pw"):
            _REDUCE.add(a.id)
    return a


_REDUCE = set()  # atom ids whose powers are rewritten in products


def A(i):
    return _ATOMS[i]


# ------------------------------------------------------------------ polynomials (Laurent, rational exponents allowed)
def _fr(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


class Poly:
    __slots__ = ("d", "_key", "_atoms")

    def __init__(self, d):
        self.d = d
        self._key = None
        self._atoms = None

    @property
    def key(self):
        if self._key is None:
            self._key = tuple(sorted(self.d.items(), key=lambda kv: kv[0]))
        return self._key

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.d == o.d

    def __bool__(self):
        return bool(self.d)

    def atoms(self):
        if self._atoms is None:
            s = set()
            for m in self.d:
                for a, _ in m:
                    s.add(a)
            self._atoms = frozenset(s)
        return self._atoms

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def const(self):
        return self.d.get((), 0) if self.d else 0

    def __str__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in self.key:
            f = [str(c)] if (c != 1 or not m) else []
            for a, e in m:
                f.append(f"{A(a)!r}" + (f"^{e}" if e != 1 else ""))
            out.append("*".join(f))
        return " + ".join(out)

    __repr__ = __str__


PZERO = Poly({})
PONE = Poly({(): 1})


def pconst(c):
    c = _fr(Q(c)) if not isinstance(c, int) else c
    return Poly({(): c}) if c else PZERO


def patom(a, e=1):
    return Poly({((a.id, e),): 1})


def padd(p, q):
    if len(p.d) < len(q.d):
        p, q = q, p
    if not q.d:
        return p
    d = dict(p.d)
    for m, c in q.d.items():
        s = d.get(m)
        if s is None:
            d[m] = c
        else:
            s = s + c
            if s:
                d[m] = _fr(s)
            else:
                del d[m]
    return Poly(d)


def pneg(p):
    return Poly({m: -c for m, c in p.d.items()})


def pscale(p, c):
    if c == 1:
        return p
    if not c:
        return PZERO
    return Poly({m: _fr(x * c) for m, x in p.d.items()})


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a1, e1 = m1[i]
        a2, e2 = m2[j]
        if a1 == a2:
            e = e1 + e2
            if e:
                out.append((a1, _fr(e)))
            i += 1
            j += 1
        elif a1 < a2:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def minv(m):
    return tuple((a, -e) for a, e in m)


class SizeLimit(Unsupported):
    pass


MAXTERMS = 60000


def pmul_raw(p, q):
    if not p.d or not q.d:
        return PZERO
    if len(p.d) > len(q.d):
        p, q = q, p
    if len(p.d) * len(q.d) > 4_000_000:
        raise SizeLimit("polynomial product too large")
    d = {}
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = mmul(m1, m2)
            c = c1 * c2
            s = d.get(m)
            if s is None:
                d[m] = c
            else:
                s = s + c
                if s:
                    d[m] = s
                else:
                    del d[m]
    if len(d) > MAXTERMS:
        raise SizeLimit("polynomial too large")
    return Poly({m: _fr(c) for m, c in d.items()})


def pmul(p, q):
    """product with power reduction of sin / pw atoms when no denominators can arise (see _reduce)"""
    return pmul_raw(p, q)


def _needs_reduce(p):
    for m in p.d:
        for a, e in m:
            if a in _REDUCE:
                k = A(a).kind
                if k == "sin":
                    if e < 0 or e >= 2:
                        return True
                else:
                    if e < 0 or e >= 1:
                        return True
    return False


def _reduce_T(p):
    """rewrite sin^2 -> 1-cos^2, pw(b)^e -> b^floor(e) * pw(b)^frac.  Returns a T."""
    tot = T0
    keep = {}
    for m, c in p.d.items():
        extra = None
        rest = []
        for a, e in m:
            if a in _REDUCE:
                at = A(a)
                if at.kind == "sin":
                    if e >= 2:
                        k = int(e) // 2
                        co = mkT(patom(atom("cos", at.args)))
                        f = (T1 - co * co).ipow(k)
                        extra = f if extra is None else extra * f
                        e = e - 2 * k
                else:
                    k = math.floor(e)
                    if k:
                        f = at.args[0].ipow(k)
                        extra = f if extra is None else extra * f
                        e = _fr(Q(e) - k)
            if e:
                rest.append((a, e))
        if extra is None:
            keep[m] = c
        else:
            tot = tot + mkT(Poly({tuple(rest): c})) * extra
    return tot + T(Poly(keep), ()) if keep else tot


def ppow(p, n):
    r = PONE
    b = p
    while n:
        if n & 1:
            r = pmul_raw(r, b)
        n >>= 1
        if n:
            b = pmul_raw(b, b)
    return r


def mono_content(p):
    """common monomial (gcd, Laurent) of all terms"""
    it = iter(p.d)
    first = next(it)
    if len(p.d) == 1:
        return first
    cur = dict(first)
    for m in it:
        md = dict(m)
        for a in list(cur):
            e2 = md.get(a, 0)
            if e2 < cur[a]:
                cur[a] = e2
        for a, e in md.items():
            if a not in cur and e < 0:
                cur[a] = e
    # atoms absent from some monomial count as exponent 0
    for a in list(cur):
        if cur[a] > 0:
            for m in p.d:
                if a not in dict(m):
                    cur[a] = 0
                    break
    return tuple(sorted((a, e) for a, e in cur.items() if e))


def lead(p):
    return max(p.d)  # tuple order on monomials; only used for deterministic normalisation


def normalise_factor(p):
    """p = c * mono * q with q primitive (no monomial content, leading coefficient 1)"""
    mc = mono_content(p)
    if mc:
        inv = minv(mc)
        p = Poly({mmul(m, inv): c for m, c in p.d.items()})
    c = p.d[lead(p)]
    if c != 1:
        p = pscale(p, Q(1) / c)
    return c, mc, p


def pdiv_exact(p, f):
    """p / f if exact else None.  Laurent exponents are cleared first."""
    if not f.atoms() <= p.atoms():
        return None
    if len(p.d) < 2:
        return None
    mc = mono_content(p)
    if mc:
        inv = minv(mc)
        p = Poly({mmul(m, inv): c for m, c in p.d.items()})
    # lex order by atom id, with exponent vectors as dicts
    order = sorted(p.atoms() | f.atoms())
    idx = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[idx[a]] = e
        return tuple(v)

    P = {vec(m): c for m, c in p.d.items()}
    F = {vec(m): c for m, c in f.d.items()}
    # quick degree rejection
    for i in range(n):
        if max(v[i] for v in F) > max(v[i] for v in P):
            return None
    lf = max(F)
    cf = F[lf]
    Fi = list(F.items())
    quo = {}
    import heapq

    heap = [tuple(-x for x in v) for v in P]
    heapq.heapify(heap)
    steps = 0
    limit = 20 * (len(P) + 10) * (len(F))
    while heap:
        nv = heapq.heappop(heap)
        v = tuple(-x for x in nv)
        c = P.get(v)
        if not c:
            continue
        qv = tuple(a - b for a, b in zip(v, lf))
        if any(x < 0 for x in qv):
            return None
        qc = Q(c) / cf
        quo[qv] = qc
        if len(quo) > len(p.d) + 200:
            return None
        for fv, fc in Fi:
            t = tuple(a + b for a, b in zip(qv, fv))
            old = P.get(t, 0)
            new = old - qc * fc
            if new:
                P[t] = new
                if not old:
                    heapq.heappush(heap, tuple(-x for x in t))
            else:
                P.pop(t, None)
        steps += 1
        if steps > limit:
            return None
    d = {}
    for v, c in quo.items():
        m = tuple((order[i], _fr(e)) for i, e in enumerate(v) if e)
        d[mmul(m, mc) if mc else m] = _fr(c)
    return Poly(d)


# ------------------------------------------------------------------ factorisation (sympy), cached
_FACT = {}


def factor_poly(p):
    """(c, mono, [(irreducible normalised Poly, k)]) with p = c*mono*prod"""
    r = _FACT.get(p)
    if r is not None:
        return r
    c, mc, q = normalise_factor(p)
    facs = None
    if len(q.d) == 1:
        facs = []
    elif len(q.d) <= 60 and all(isinstance(e, int) and e >= 0 for m in q.d for _, e in m) and max((sum(e for _, e in m) for m in q.d)) <= 12:
        deg = {}
        for m in q.d:
            for a, e in m:
                deg[a] = max(deg.get(a, 0), e)
        if min(deg.values()) == 1 and len(deg) == 1:
            facs = [(q, 1)]
        elif all(sum(e for _, e in m) <= 1 for m in q.d):
            facs = [(q, 1)]
        else:
            import sympy

            ids = sorted(q.atoms())
            gens = sympy.symbols([f"a{i}" for i in ids])
            gi = {a: i for i, a in enumerate(ids)}
            dd = {}
            for m, cc in q.d.items():
                v = [0] * len(ids)
                for a, e in m:
                    v[gi[a]] = e
                dd[tuple(v)] = sympy.Rational(cc.numerator, cc.denominator) if isinstance(cc, Fraction) else sympy.Integer(cc)
            sp = sympy.Poly(dd, *gens, domain="QQ")
            try:
                c2, fl = sp.factor_list()
            except Exception:  # noqa
                fl = None
            if fl is not None:
                c2 = Q(int(c2.p), int(c2.q))
                out = []
                for fp, k in fl:
                    d = {}
                    for v, cc in fp.terms():
                        cc = Q(int(cc.p), int(cc.q))
                        d[tuple((ids[i], int(e)) for i, e in enumerate(v) if e)] = _fr(cc)
                    fc, fm, fq = normalise_factor(Poly(d))
                    c2 *= Q(fc) ** k
                    out.append((fq, k, fm))
                c = c * c2
                facs = []
                for fq, k, fm in out:
                    for _ in range(k):
                        mc = mmul(mc, fm)
                    if not fq.is_const():
                        facs.append((fq, k))
    if facs is None:
        facs = [(q, 1)]
    r = (_fr(Q(c)), mc, facs)
    _FACT[p] = r
    return r


# ------------------------------------------------------------------ terms
class T:
    """num / prod(f**e)"""

    __slots__ = ("num", "den", "_k", "_h")
    __array_priority__ = 1000

    def __init__(self, num, den):
        self.num = num
        self.den = den
        self._k = None
        self._h = None

    def key(self):
        if self._k is None:
            self._k = (self.num.key, tuple((f.key, e) for f, e in self.den))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def same(self, o):
        return self.num == o.num and self.den == o.den

    def is_const(self):
        return not self.den and self.num.is_const()

    def const(self):
        return Q(self.num.const())

    def is_zero(self):
        return not self.num.d

    def atoms(self):
        s = set(self.num.atoms())
        for f, _ in self.den:
            s |= f.atoms()
        return s

    def __str__(self):
        if not self.den:
            return str(self.num)
        return f"({self.num})/(" + " ".join(f"({f})^{e}" for f, e in self.den) + ")"

    def __repr__(self):
        return f"<{self}>"

    # raw exact arithmetic (no numpy semantics; see arr.py for the public operators)
    def add(self, o):
        if not self.num.d:
            return o
        if not o.num.d:
            return self
        if self.den == o.den:
            n = padd(self.num, o.num)
            if not self.den:
                return T(n, ())
            return mkT(n, self.den)
        d1 = dict(self.den)
        d2 = dict(o.den)
        n1, n2 = self.num, o.num
        den = dict(d1)
        for f, e in d2.items():
            if den.get(f, 0) < e:
                den[f] = e
        for f, e in den.items():
            k = e - d1.get(f, 0)
            if k:
                n1 = pmul_raw(n1, ppow(f, k))
            k = e - d2.get(f, 0)
            if k:
                n2 = pmul_raw(n2, ppow(f, k))
        return mkT(padd(n1, n2), den.items())

    def neg(self):
        return T(pneg(self.num), self.den)

    def sub(self, o):
        return self.add(o.neg())

    def mul(self, o):
        if not self.num.d or not o.num.d:
            return T0
        if self.is_const():
            c = self.num.const()
            return T(pscale(o.num, c), o.den) if c != 1 else o
        if o.is_const():
            c = o.num.const()
            return T(pscale(self.num, c), self.den) if c != 1 else self
        # cross-cancel cheaply before multiplying
        den = dict(self.den)
        n1, n2 = self.num, o.num
        for f, e in o.den:
            den[f] = den.get(f, 0) + e
        if den:
            for f in list(den):
                while den.get(f, 0):
                    q = pdiv_exact(n1, f)
                    if q is not None:
                        n1 = q
                        den[f] -= 1
                        continue
                    q = pdiv_exact(n2, f)
                    if q is not None:
                        n2 = q
                        den[f] -= 1
                        continue
                    break
                if not den[f]:
                    del den[f]
        n = pmul_raw(n1, n2)
        if not _REDUCE or not _needs_reduce(n):
            return T(n, _sd(den))
        return mkT(n, den.items(), nocancel=False)

    def inv(self):
        """1/self; caller guarantees self != 0"""
        num = PONE
        for f, e in self.den:
            num = pmul_raw(num, ppow(f, e))
        if len(self.num.d) == 1:
            (m, c), = self.num.d.items()
            im = minv(m)
            ic = _fr(Q(1) / c)
            p = Poly({mmul(k, im): _fr(v * ic) for k, v in num.d.items()})
            return mkT(p, ())
        c, mc, facs = factor_poly(self.num)
        im = minv(mc)
        ic = _fr(Q(1) / c)
        p = Poly({mmul(k, im): _fr(v * ic) for k, v in num.d.items()})
        return mkT(p, facs)

    def ipow(self, n):
        if n == 0:
            return T1
        if n < 0:
            return self.inv().ipow(-n)
        r = None
        b = self
        while n:
            if n & 1:
                r = b if r is None else r.mul(b)
            n >>= 1
            if n:
                b = b.mul(b)
        return r

    # plain operators between exact terms (used internally); arr.py replaces them with full semantics
    def __add__(self, o):
        return self.add(toT_(o))

    __radd__ = __add__

    def __sub__(self, o):
        return self.sub(toT_(o))

    def __rsub__(self, o):
        return toT_(o).sub(self)

    def __mul__(self, o):
        return self.mul(toT_(o))

    __rmul__ = __mul__

    def __neg__(self):
        return self.neg()


def toT_(o):
    if isinstance(o, T):
        return o
    return tconst(o)


def _sd(den):
    if not den:
        return ()
    return tuple(sorted(den.items() if isinstance(den, dict) else den, key=lambda fe: fe[0].key))


def mkT(num, den=(), nocancel=False):
    if not num.d:
        return T0
    den = {f: e for f, e in den if e}
    if den and not nocancel:
        for f in list(den):
            while den[f]:
                q = pdiv_exact(num, f)
                if q is None:
                    break
                num = q
                den[f] -= 1
            if not den[f]:
                del den[f]
    if _REDUCE and _needs_reduce(num):
        t = _reduce_T(num)
        for f, e in den.items():
            t = t.mul(T(PONE, ((f, e),)))
        return t
    return T(num, _sd(den))


def tconst(c):
    if isinstance(c, bool):
        c = int(c)
    if not isinstance(c, (int, Fraction)):
        raise TypeError(type(c))
    return T(pconst(c), ())


T0 = T(PZERO, ())
T1 = T(PONE, ())


def tatom(a):
    return T(patom(a), ())


def var(name):
    return tatom(atom("var", (), name=name))


PI_ATOM = atom("pi", (), positive=True)
PI = tatom(PI_ATOM)


# ------------------------------------------------------------------ elementary functions on terms
# `sgn(t)` callback: returns +1/-1/0/None ; `decide_pos(t)` forks.  Set by the engine.
class Hooks:
    def ival(self, t):
        return (float("-inf"), float("inf"))

    def infeasible(self, why):
        raise Unsupported(why)

    def sign(self, t):  # try to determine without forking
        return quick_sign(t)

    def fork_sign(self, t):
        s = self.sign(t)
        if s is None:
            raise Unsupported(f"sign of {t}")
        return s

    def subst(self, t):
        return t

    def note_exp(self, arg, val):
        pass

    def known_pos(self, t):
        pass


HOOKS = Hooks()


def atom_sign(a):
    at = A(a)
    if at.positive or at.kind in ("exp", "pi"):
        return 1
    return None


def mono_sign(m):
    s = 1
    for a, e in m:
        sa = atom_sign(a)
        if sa is None:
            if isinstance(e, int) and e % 2 == 0:
                return None  # could be zero
            return None
        if sa < 0 and (not isinstance(e, int) or e % 2):
            s = -s
    return s


def quick_sign(t):
    if not t.num.d:
        return 0
    if t.is_const():
        c = t.num.const()
        return 1 if c > 0 else -1
    s = poly_quick_sign(t.num)
    if s is None:
        return None
    for f, e in t.den:
        sf = poly_quick_sign(f)
        if sf is None:
            if e % 2 == 0:
                continue  # denominators are non-zero
            return None
        if sf < 0 and e % 2:
            s = -s
    return s


def poly_quick_sign(p):
    s = None
    for m, c in p.d.items():
        ms = mono_sign(m)
        if ms is None:
            return None
        v = ms if c > 0 else -ms
        if s is None:
            s = v
        elif s != v:
            return None
    return s


def _primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 100000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def log_const(c):
    c = Q(c)
    assert c > 0
    r = T0
    for p, e in _primes(c.numerator).items():
        r = r + tatom(atom("log", (tconst(p),), positive=True)) * e
    for p, e in _primes(c.denominator).items():
        r = r - tatom(atom("log", (tconst(p),), positive=True)) * e
    return r


def log_atom_poly(p, sign=1):
    """log of (sign*p), p a normalised irreducible factor or an atom"""
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and c == 1 and m[0][1] == 1:
            at = A(m[0][0])
            if at.kind == "exp":
                return at.args[0]
            if at.kind == "pw":
                return tlog(at.args[0])
    q = p if sign > 0 else pneg(p)
    return tatom(atom("log", (T(q, ()),)))


def tlog(t):
    """log of t, t > 0 known on this path"""
    t = HOOKS.subst(t)
    if t.is_const():
        return log_const(t.const())
    c, mc, facs = factor_poly(t.num)
    parts = []
    for a, e in mc:
        parts.append((patom(A(a)), e))
    for f, k in facs:
        parts.append((f, k))
    for f, e in t.den:
        parts.append((f, -e))
    sgn_total = 1 if c > 0 else -1
    r = log_const(abs(c))
    for f, e in parts:
        s = HOOKS.sign(T(f, ()))
        if s is None or s == 0:
            s = HOOKS.fork_sign(T(f, ()))
            if s == 0:
                raise Unsupported("log of zero factor")
        r = r + log_atom_poly(f, s) * e
    return r


def polypart(t):
    """t = q + r with q a polynomial and r = remainder / den, unique for the fixed monomial order; q None if zero"""
    D = Poly({(): 1})
    for f, e in t.den:
        for _ in range(e):
            D = pmul_raw(D, f)
            if len(D.d) > 24:
                return None, t
    if len(t.num.d) > 400:
        return None, t
    atoms = sorted(D.atoms())
    idx = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * len(atoms)
        rest = []
        for a, e in m:
            if a in idx:
                v[idx[a]] = e
            else:
                rest.append((a, e))
        return tuple(v), tuple(rest)

    F = [(vec(m)[0], c) for m, c in D.d.items()]
    lf, cf = max(F)
    quo, rem = {}, {}
    P = {}
    for m, c in t.num.d.items():
        v, rest = vec(m)
        P.setdefault(rest, {})[v] = c
    for rest, p in P.items():
        n = 0
        while p:
            v = max(p)
            c = p.pop(v)
            qv = tuple(a - b for a, b in zip(v, lf))
            if any(x < 0 for x, l in zip(qv, lf) if l):
                rem[tuple(sorted(rest + tuple((a, e) for a, e in zip(atoms, v) if e)))] = c
                continue
            n += 1
            if n > 500:
                return None, t
            qc = Q(c) / cf
            quo[tuple(sorted(rest + tuple((a, _fr(e)) for a, e in zip(atoms, qv) if e)))] = _fr(qc)
            for fv, fc in F:
                if fv == lf:
                    continue
                w = tuple(a + b for a, b in zip(qv, fv))
                x = p.get(w, 0) - qc * fc
                if x:
                    p[w] = x
                else:
                    p.pop(w, None)
    if not quo:
        return None, t
    return T(Poly(quo), ()), (mkT(Poly({m: _fr(c) for m, c in rem.items()}), t.den) if rem else T0)


def texp(t):
    t = HOOKS.subst(t)
    if t.is_zero():
        return T1
    if t.den:
        q, r = polypart(t)
        if q is not None:
            out = texp(q).mul(texp(r))
            HOOKS.note_exp(t, out)
            return out
    out = T1
    if t.den and len(t.num.d) > 60:
        a = atom("exp", (t,), positive=True)
        return tatom(a)
    for m, c in t.num.d.items():
        base = T(Poly({m: 1}), ())
        if not t.den and len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind == "log":
            out = out.mul(rpow(A(m[0][0]).args[0], Q(c)))
            continue
        if t.den:
            base = mkT(Poly({m: 1}), t.den)
            if base.den != t.den or len(base.num.d) != 1:
                # cancellation happened: treat via generic path
                out = out.mul(texp_single(base, c))
                continue
        out = out.mul(texp_single(base, c))
    HOOKS.note_exp(t, out)
    return out


def texp_single(base, c):
    a = atom("exp", (base,), positive=True)
    return T(Poly({((a.id, _fr(Q(c))),): 1}), ())


def rpow(b, c):
    """b ** c with b > 0 (or b >= 0 and c > 0), c rational"""
    c = Q(c)
    k = math.floor(c)
    r = c - k
    out = b.ipow(k) if k else T1
    if r == 0:
        return out
    return out.mul(_fracpow(b, r))


def _fracpow(b, r):
    """b ** r, 0<r<1"""
    if b.is_zero():
        return T0
    n = r.denominator
    if b.is_const():
        c = b.const()
        o = T1
        for p, e in _primes(c.numerator).items():
            o = o.mul(_prime_pow(p, e * r))
        for p, e in _primes(c.denominator).items():
            o = o.mul(_prime_pow(p, -e * r))
        return o
    cc, mc, facs = factor_poly(b.num)
    o = _fracpow(tconst(abs(cc)), r)
    s = 1 if cc > 0 else -1
    parts = [(patom(A(a)), e) for a, e in mc] + list(facs) + [(f, -e) for f, e in b.den]
    left = []
    for f, e in parts:
        ft = T(f, ())
        sg = HOOKS.sign(ft)
        if sg is None or sg == 0:
            left.append((f, e))
            continue
        if sg < 0:
            ft = ft.neg()
            if e % 2:
                s = -s
        o = o.mul(_pos_pow(ft, Q(e) * r))
    if left:
        rest = tconst(s)
        for f, e in left:
            rest = rest.mul(T(f, ()).ipow(e))
        if len(left) == 1 and s == 1 and left[0][1] % 2 == 1 and left[0][1] > 0:
            o = o.mul(_pos_pow(T(left[0][0], ()), Q(left[0][1]) * r))
        elif len(left) == 1 and s == 1 and (Q(left[0][1]) * r).denominator == 1 and left[0][1] % 2 == 0:
            # |f| ** int
            f = T(left[0][0], ())
            sg = HOOKS.fork_sign(f)
            if sg == 0:
                return T0
            o = o.mul((f if sg > 0 else f.neg()).ipow(int(Q(left[0][1]) * r)))
        else:
            o = o.mul(_pos_pow(rest, r))
    return o


def _prime_pow(p, e):
    k = math.floor(e)
    f = e - k
    o = tconst(Q(p) ** k)
    if f:
        a = atom("pw", (tconst(p),), positive=True)
        o = o.mul(T(Poly({((a.id, f),): 1}), ()))
    return o


def _pos_pow(b, e):
    """b ** e, b > 0 (b a term), e rational"""
    k = math.floor(e)
    f = e - k
    o = b.ipow(k) if k else T1
    if f:
        if not b.den and len(b.num.d) == 1:
            (m, c), = b.num.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind == "exp":
                return o.mul(T(Poly({((m[0][0], f),): 1}), ()))
        a = atom("pw", (b,))
        o = o.mul(T(Poly({((a.id, f),): 1}), ()))
    return o


def tsqrt(t):
    """sqrt, t >= 0 known"""
    t = HOOKS.subst(t)
    if t.is_zero():
        return T0
    return _fracpow(t, Q(1, 2))


def tpow(b, e):
    """b ** e for b > 0, arbitrary term e"""
    e = HOOKS.subst(e)
    if e.is_const():
        return rpow(HOOKS.subst(b), e.const())
    return texp(e.mul(tlog(b)))


def _split_pi(t):
    """t = r*pi + rest"""
    if t.den:
        return Q(0), t
    m = ((PI_ATOM.id, 1),)
    c = t.num.d.get(m)
    if not c:
        return Q(0), t
    d = dict(t.num.d)
    del d[m]
    return Q(c), T(Poly(d), ())


_SIN = {Q(0): 0, Q(1, 6): Q(1, 2), Q(1, 2): 1, Q(5, 6): Q(1, 2), Q(1): 0, Q(7, 6): Q(-1, 2), Q(3, 2): -1, Q(11, 6): Q(-1, 2)}


def _leadneg(t):
    return t.num.d[max(t.num.d)] < 0


def tsin(t):
    t = HOOKS.subst(t)
    r, rest = _split_pi(t)
    if rest.is_zero():
        r = r % 2
        if r in _SIN:
            return tconst(_SIN[r])
        for base, s in ((Q(1, 4), 1), (Q(3, 4), 1), (Q(5, 4), -1), (Q(7, 4), -1)):
            if r == base:
                return rpow(tconst(2), Q(-1, 2)) * s
        for base, s in ((Q(1, 3), 1), (Q(2, 3), 1), (Q(4, 3), -1), (Q(5, 3), -1)):
            if r == base:
                return rpow(tconst(3), Q(1, 2)) * Q(s, 2)
        return tatom(atom("sin", (PI * r,)))
    # reduce shift by multiples of pi/2
    q = math.floor(r * 2 + Q(1, 2))
    r2 = r - Q(q, 2)
    x = rest + PI * r2
    q %= 4
    if q == 0:
        return _sin0(x)
    if q == 1:
        return _cos0(x)
    if q == 2:
        return _sin0(x).neg()
    return _cos0(x).neg()


def tcos(t):
    return tsin(t + PI * Q(1, 2))


def _arc(x):
    if not x.den and len(x.num.d) == 1:
        (m, c), = x.num.d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind == "acos":
            return A(m[0][0]).args[0]
    return None


def _sin0(x):
    if _leadneg(x):
        return _sin0(x.neg()).neg()
    u = _arc(x)
    if u is not None:
        return tsqrt(T1 - u * u)
    return tatom(atom("sin", (x,)))


def _cos0(x):
    if _leadneg(x):
        x = x.neg()
    u = _arc(x)
    if u is not None:
        return u
    return tatom(atom("cos", (x,)))


_ACOS = {Q(1): Q(0), Q(-1): Q(1), Q(0): Q(1, 2), Q(1, 2): Q(1, 3), Q(-1, 2): Q(2, 3)}


def tacos(u):
    """arccos, |u| <= 1 known"""
    u = HOOKS.subst(u)
    if u.is_const() and u.const() in _ACOS:
        return PI * _ACOS[u.const()]
    if not u.den and len(u.num.d) == 1:
        (m, c), = u.num.d.items()
        if abs(c) == 1 and len(m) == 1 and m[0][1] == 1 and A(m[0][0]).kind in ("cos", "sin"):
            at = A(m[0][0])
            v = at.args[0]
            if at.kind == "sin":  # sin v = cos(pi/2 - v)
                v = PI * Q(1, 2) - v
            if c < 0:  # -cos v = cos(pi - v)
                v = PI - v
            if HOOKS.sign(v) in (0, 1) and HOOKS.sign(PI - v) in (0, 1):
                return v
            if HOOKS.sign(v) in (0, -1) and HOOKS.sign(PI + v) in (0, 1):
                return v.neg()
    if u.num.d and _leadneg(u):
        return PI - tacos(u.neg())
    return tatom(atom("acos", (u,)))


def todd(kind, t):
    """odd uninterpreted function (erf, ...)"""
    t = HOOKS.subst(t)
    if t.is_zero():
        return T0
    if _leadneg(t):
        return tatom(atom(kind, (t.neg(),))).neg()
    return tatom(atom(kind, (t,)))


def terf(t):
    return todd("erf", t)


def tatan(t):
    t = HOOKS.subst(t)
    if t.is_const() and abs(t.const()) == 1:
        return PI * (t.const() / 4)
    return todd("atan", t)


def tuf(name, *args):
    return tatom(atom("uf", tuple(HOOKS.subst(a) for a in args), name=name))


def tlgamma(t):
    t = HOOKS.subst(t)
    if t.is_const():
        c = t.const()
        if c.denominator == 1 and 1 <= c <= 20:
            return log_const(math.factorial(int(c) - 1))
    elif not t.den:
        c = t.num.d.get((), 0)
        if 1 <= c <= 6:
            u = t.sub(T1)
            if HOOKS.sign(u) == 1:
                return tlgamma(u).add(tlog(u))
    return tatom(atom("lgamma", (t,)))


def tli2(t):
    t = HOOKS.subst(t)
    if t.is_zero():
        return T0
    if t.is_const() and t.const() == 1:
        return PI * PI * Q(1, 6)
    if t.is_const() and t.const() == -1:
        return PI * PI * Q(-1, 12)
    return tatom(atom("li2", (t,)))


# ------------------------------------------------------------------ substitution
def substitute(t, sub, memo):
    """sub: atom id -> T"""
    k = t.key()
    r = memo.get(k)
    if r is not None:
        return r
    if not (_deep_atoms(t) & sub.keys()):
        memo[k] = t
        return t
    n = _subst_poly(t.num, sub, memo)
    for f, e in t.den:
        d = _subst_poly(f, sub, memo)
        if d.is_zero():
            raise Unsupported("zero denominator after substitution")
        n = n.mul(d.ipow(-e))
    memo[k] = n
    return n


_DEEP = {}


def _deep_atoms(t):
    s = set()
    for a in t.atoms():
        s |= deep_atom(a)
    return s


def deep_atom(a):
    r = _DEEP.get(a)
    if r is None:
        s = {a}
        for x in A(a).args:
            if isinstance(x, T):
                for b in x.atoms():
                    s |= deep_atom(b)
        r = frozenset(s)
        _DEEP[a] = r
    return r


def deep_atoms(t):
    return _deep_atoms(t)


def _subst_poly(p, sub, memo):
    tot = T0
    for m, c in p.d.items():
        x = tconst(c)
        for a, e in m:
            if A(a).kind == "pw" and a not in sub and not (deep_atom(a) & sub.keys()):
                x = x.mul(T(Poly({((a, e),): 1}), ()))
                continue
            b = subst_atom(a, sub, memo)
            if b.is_zero() and e < 0:
                raise Unsupported("zero denominator after substitution")
            if isinstance(e, int):
                x = x.mul(b.ipow(e) if e != 1 else b)
            else:
                x = x.mul(rpow(b, e))
        tot = tot.add(x)
    return tot


def subst_atom(a, sub, memo):
    if a in sub:
        return sub[a]
    if not (deep_atom(a) & sub.keys()):
        return tatom(A(a))
    k = ("atom", a)
    r = memo.get(k)
    if r is None:
        at = A(a)
        args = [substitute(x, sub, memo) for x in at.args]
        r = rebuild(at, args)
        memo[k] = r
    return r


def rebuild(at, args):
    k = at.kind
    if k == "exp":
        return texp(args[0])
    if k == "log":
        HOOKS.known_pos(args[0])
        if args[0].is_const() and args[0].const() <= 0:
            HOOKS.infeasible("logarithm of a non-positive constant")
        return tlog(args[0])
    if k == "pw":
        # pw(b) stands for b itself with fractional exponents
        b = args[0]
        return b
    if k == "sin":
        return tsin(args[0])
    if k == "cos":
        return tcos(args[0])
    if k == "acos":
        return tacos(args[0])
    if k in ("erf",):
        return todd(k, args[0])
    if k == "atan":
        return tatan(args[0])
    if k == "lgamma":
        return tlgamma(args[0])
    if k == "li2":
        return tli2(args[0])
    if k == "uf":
        return tatom(atom("uf", tuple(args), name=at.name))
    raise Unsupported(k)


# ------------------------------------------------------------------ differentiation
def diff(t, v, memo=None):
    """d t / d v (v: atom id of a variable)"""
    if memo is None:
        memo = {}
    if v not in _deep_atoms(t):
        return T0
    dn = _diff_poly(t.num, v, memo)
    r = dn
    for f, e in t.den:
        r = r.mul(T(PONE, ((f, e),)))
    for f, e in t.den:
        df = _diff_poly(f, v, memo)
        if not df.is_zero():
            r = r.sub(t.mul(df).mul(tconst(e)).mul(T(PONE, ((f, 1),))))
    return r


def _diff_poly(p, v, memo):
    tot = T0
    for m, c in p.d.items():
        for i, (a, e) in enumerate(m):
            if v not in deep_atom(a):
                continue
            da = diff_atom(a, v, memo)
            if da.is_zero():
                continue
            rest = list(m)
            if e == 1:
                rest.pop(i)
            else:
                rest[i] = (a, _fr(Q(e) - 1))
            tot = tot.add(mkT(Poly({tuple(rest): _fr(c * Q(e))})).mul(da))
    return tot


def diff_atom(a, v, memo):
    if a == v:
        return T1
    if a in memo:
        return memo[a]
    at = A(a)
    k = at.kind
    if k in ("var", "pi"):
        return T0
    x = at.args[0]
    if k == "uf":
        r = T0
        for i, x in enumerate(at.args):
            dx = diff(x, v, memo)
            if not dx.is_zero():
                r = r.add(tatom(atom("uf", at.args, name=f"{at.name}'{i}")).mul(dx))
        memo[a] = r
        return r
    dx = diff(x, v, memo)
    if dx.is_zero():
        r = T0
    elif k == "exp":
        r = tatom(at).mul(dx)
    elif k == "log":
        r = dx.mul(x.inv())
    elif k == "pw":
        r = dx
    elif k == "sin":
        r = tcos(x).mul(dx)
    elif k == "cos":
        r = tsin(x).neg().mul(dx)
    elif k == "acos":
        r = tsqrt(T1 - x * x).inv().neg().mul(dx)
    elif k == "atan":
        r = (T1 + x * x).inv().mul(dx)
    elif k == "erf":
        r = texp((x * x).neg()).mul(rpow(PI, Q(-1, 2)) * 2).mul(dx)
    elif k == "li2":
        # d Re Li2(x) = -log|1-x|/x
        s = HOOKS.sign(T1 - x)
        if s is None:
            s = HOOKS.fork_sign(T1 - x)
        y = (T1 - x) if s > 0 else (x - T1)
        r = tlog(y).neg().mul(x.inv()).mul(dx)
    elif k == "lgamma":
        r = tuf("digamma", x).mul(dx)
    else:
        raise Unsupported(f"derivative of {k}")
    memo[a] = r
    return r


# ------------------------------------------------------------------ numeric evaluation (mpmath, for counterexample screening)
def evalf(t, env, memo=None):
    import mpmath

    if memo is None:
        memo = {}
    n = _eval_poly(t.num, env, memo)
    for f, e in t.den:
        d = _eval_poly(f, env, memo)
        n = n / d**e
    return n


def _eval_poly(p, env, memo):
    import mpmath

    tot = mpmath.mpf(0)
    for m, c in p.d.items():
        x = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
        for a, e in m:
            v = _eval_atom(a, env, memo)
            ee = mpmath.mpf(e.numerator) / e.denominator if isinstance(e, Fraction) else e
            x = x * v**ee
        tot += x
    return tot


def _eval_atom(a, env, memo):
    import mpmath

    if a in memo:
        return memo[a]
    at = A(a)
    k = at.kind
    if k == "var":
        r = mpmath.mpf(env[at.name])
    elif k == "pi":
        r = +mpmath.pi
    else:
        xs = [evalf(x, env, memo) for x in at.args]
        x = xs[0]
        if k == "exp":
            r = mpmath.exp(x)
        elif k == "log":
            r = mpmath.log(x)
        elif k == "pw":
            r = x
        elif k == "sin":
            r = mpmath.sin(x)
        elif k == "cos":
            r = mpmath.cos(x)
        elif k == "acos":
            r = mpmath.acos(x)
        elif k == "atan":
            r = mpmath.atan(x)
        elif k == "erf":
            r = mpmath.erf(x)
        elif k == "lgamma":
            r = mpmath.loggamma(x)
        elif k == "li2":
            r = mpmath.re(mpmath.polylog(2, x))
        elif k == "uf":
            if at.name == "digamma":
                r = mpmath.digamma(x)
            elif callable(env.get("__uf__")):
                r = env["__uf__"](at.name, xs)
            else:
                raise Unsupported("uninterpreted function in numeric evaluation")
        else:
            raise Unsupported(k)
    if isinstance(r, mpmath.mpc):
        if abs(r.imag) > 1e-20:
            raise ValueError("complex value")
        r = r.real
    memo[a] = r
    return r


def sgnf(t, env, memo):
    """sign of t at a point: 1, -1, or None when it is not clearly different from zero"""
    s = _sgn_poly(t.num, env, memo)
    if s is None:
        return None
    for f, e in t.den:
        d = _sgn_poly(f, env, memo)
        if d is None:
            return None
        if e % 2:
            s *= d
    return s


def _sgn_poly(p, env, memo):
    import mpmath

    tot, mag = mpmath.mpf(0), mpmath.mpf(0)
    for m, c in p.d.items():
        x = mpmath.mpf(c.numerator) / c.denominator if isinstance(c, Fraction) else mpmath.mpf(c)
        for a, e in m:
            v = _eval_atom(a, env, memo)
            x = x * v ** (mpmath.mpf(e.numerator) / e.denominator if isinstance(e, Fraction) else e)
        if isinstance(x, mpmath.mpc):
            raise ValueError("complex value")
        tot += x
        mag += abs(x)
    if abs(tot) <= mag * mpmath.mpf(10) ** (-mpmath.mp.dps // 2):
        return None
    return 1 if tot > 0 else -1


# ------------------------------------------------------------------ floats to exact terms
_KNOWN = {}


def _init_known():
    def reg(f, t):
        # constants folded by Python in another order differ in the last bits
        for h in (f, math.nextafter(f, 0), math.nextafter(f, math.inf), math.nextafter(math.nextafter(f, 0), 0), math.nextafter(math.nextafter(f, math.inf), math.inf)):
            _KNOWN.setdefault(h, t)
            _KNOWN.setdefault(-h, t.neg())

    for den in (1, 2, 3, 4, 6, 8, 12):
        for n in range(1, 33):
            reg(n * math.pi / den, PI * Q(n, den))
            reg(den / (n * math.pi), PI.inv() * Q(den, n))
            reg(n * math.pi**2 / den, PI * PI * Q(n, den))
            reg(den / (n * math.pi**2), (PI * PI).inv() * Q(den, n))
    for n in (1, 2, 4, Q(1, 2)):
        s = rpow(PI * n, Q(1, 2))
        reg((float(n) * math.pi) ** 0.5, s)
        reg(1 / (float(n) * math.pi) ** 0.5, s.inv())
        reg(2 / (float(n) * math.pi) ** 0.5, s.inv() * 2)
        reg(math.log(float(n) * math.pi), tlog(PI * n))
        reg(0.5 * math.log(float(n) * math.pi), tlog(PI * n) * Q(1, 2))
    for n in (2, 3, 5):
        s = rpow(tconst(n), Q(1, 2))
        reg(n**0.5, s)
        reg(1 / n**0.5, s.inv())
    for n in (2, 3, 10):
        reg(math.log(n), log_const(n))


def from_float(f):
    f = float(f)
    if not _KNOWN:
        _init_known()
    k = _KNOWN.get(f)
    if k is not None:
        return k
    if f == int(f) and abs(f) < 1e15:
        return tconst(int(f))
    r = Q(f).limit_denominator(20000)
    if float(r) == f or (r.denominator != 1 and abs(float(r) - f) <= 2 * math.ulp(f)):
        return tconst(_fr(r))
    return tconst(_fr(Q(repr(f))))
