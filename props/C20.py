"""C20: effective spin conversions"""
from .common import registry

HARNESSES, harness = registry()
BOUNDS = "q in (0,1], a1,a2 in [0,1], cos tilts in [-1,1]; scalars and arrays of shape (2,) and (2,2) (thorough: (2,3)); numpy and jax arrays"
OUTSIDE = "larger arrays (code is elementwise), inputs outside the physical range"

CON = "gwinferno.preprocess.conversions"


def spins(S, i=""):
    q = S.real(f"q{i}", 0, 1, lo_open=True)
    a1 = S.real(f"a1{i}", 0, 1)
    a2 = S.real(f"a2{i}", 0, 1)
    c1 = S.real(f"c1{i}", -1, 1)
    c2 = S.real(f"c2{i}", -1, 1)
    return q, a1, a2, c1, c2


def spec_chip(S, q, a1, a2, c1, c2):
    s1 = a1 * S.sqrt(1 - c1 * c1)
    s2 = q * (4 * q + 3) / (4 + 3 * q) * a2 * S.sqrt(1 - c2 * c2)
    return s1, s2


@harness()
def chieff_scalar(S):
    m = S.module(CON)
    q, a1, a2, c1, c2 = spins(S)
    x = m.chieff_from_q_component_spins(q, a1, a2, c1, c2)
    S.prove_eq("definition", x * (1 + q), a1 * c1 + q * a2 * c2)
    S.prove_le("upper bound", x, 1)
    S.prove_ge("lower bound", x, -1)
    lo, hi = a1 * c1, a2 * c2
    S.prove("between aligned spins", S.Or(S.And(S.ge(x, lo), S.le(x, hi)), S.And(S.ge(x, hi), S.le(x, lo))))
    y = m.chieff_from_q_component_spins(q, a1, a2, -c1, -c2)
    S.prove_eq("odd in tilts", x, -y)


@harness()
def chip_scalar(S):
    m = S.module(CON)
    q, a1, a2, c1, c2 = spins(S)
    x = m.chip_from_q_component_spins(q, a1, a2, c1, c2)
    s1, s2 = spec_chip(S, q, a1, a2, c1, c2)
    S.prove_ge("at least primary in-plane", x, s1)
    S.prove_ge("at least weighted secondary in-plane", x, s2)
    S.prove("is one of the two", S.Or(S.eq(x, s1), S.eq(x, s2)))
    S.prove_ge("non-negative", x, 0)
    S.prove_le("at most one", x, 1)
    y = m.chip_from_q_component_spins(q, a1, a2, -c1, -c2)
    S.prove_eq("even in tilts", x, y)


def _arrays(S, shape, jx):
    n = 1
    for s in shape:
        n *= s
    cols = [spins(S, f"_{i}") for i in range(n)]
    mk = S.j if jx else S.n
    return cols, [mk([c[k] for c in cols]).reshape(shape) for k in range(5)]


def _arr(S, shape, jx):
    m = S.module(CON)
    cols, args = _arrays(S, shape, jx)
    snaps = [S.snapshot(a) for a in args]
    x = m.chieff_from_q_component_spins(*args)
    S.prove_true("shape", S.shape(x) == tuple(shape))
    xs = S.elems(x)
    for c, v in zip(cols, xs):
        q, a1, a2, c1, c2 = c
        S.prove_eq("elementwise definition", v * (1 + q), a1 * c1 + q * a2 * c2)
    if jx:
        y = m.chip_from_q_component_spins(*args, math=S.module_jnp())
    else:
        y = m.chip_from_q_component_spins(*args)
    S.prove_true("shape chip", S.shape(y) == tuple(shape))
    for c, v in zip(cols, S.elems(y)):
        s1, s2 = spec_chip(S, *c)
        S.prove("elementwise larger", S.And(S.ge(v, s1), S.ge(v, s2), S.Or(S.eq(v, s1), S.eq(v, s2))))
    for a, s in zip(args, snaps):
        S.prove_same("inputs unchanged", s, a)


@harness()
def arrays_numpy(S):
    _arr(S, (2,), False)


@harness()
def arrays_jax(S):
    _arr(S, (2,), True)


@harness()
def arrays_2d(S):
    _arr(S, (1, 2), False)


@harness(tier="thorough")
def arrays_2x2(S):
    _arr(S, (2, 2), False)
