"""C13: one-dimensional spline population models"""
from .common import registry, trap

HARNESSES, harness = registry()
BOUNDS = "2x2 posterior and 3 injection values, one arbitrary value shared by both sets at any pair of positions (inside, outside or on the edge of the domain), the others fixed inside and outside; linear splines with 3 and cubic ones with 4 basis functions, coefficients in [-5, 5], every model and its default and alternative basis; normalisation grid of 3 nodes in place of 1000"
OUTSIDE = "more samples and basis functions"
ASSUMPTIONS = []
B = "gwinferno.models.bsplines.single"
I = "gwinferno.interpolation"
MODELS = {
    "BSplineSpinMagnitude": ("LogYBSpline", "0", "1", ("-0.5", "1.5")),
    "BSplineSpinTilt": ("LogYBSpline", "-1", "1", ("-1.5", "1.5")),
    "BSplineChiEffective": ("BSpline", "-1", "1", ("-1.5", "1.5")),
    "BSplineChiPrecess": ("BSpline", "0", "1", ("-0.5", "1.5")),
    "BSplineRatio": ("LogYBSpline", "0", "1", ("-0.5", "1.5")),
    "BSplineMass": ("LogXLogYBSpline", "2", "100", ("1", "150")),
}


def setup(S, lo, hi, wide):
    x = S.real("x", *[float(v) for v in wide])
    lo, hi = S.num(lo), S.num(hi)
    if not S.sym:
        for t in (lo, hi, (lo + hi) / 2):
            S.assume(S.gt(S.abs(x - t), 1e-3))
    a = lo + (hi - lo) / 5
    pe = [a, S.num(wide[1]), hi, lo + (hi - lo) * 2 / 3]
    inj = [S.num(wide[0]) if wide[0] not in ("1",) else S.num("1.5"), lo, a]
    i, j = S.choose("pe position", 4), S.choose("injection position", 3)
    if i != j and (i, j) != (3, 2):
        S.skip()
    pe[i] = x
    inj[j] = x
    return x, lo, hi, pe, inj, i, j


def check(S, M, sp, lo, hi, pe, inj, i, j, c, factor=1, fold=False):
    cj = S.j(c)
    snap = S.snapshot(cj)
    p, q = M(cj, pe_samples=True), M(cj, pe_samples=False)
    S.prove_true("shape of the posterior density", S.shape(p) == (2, 2))
    S.prove_true("shape of the injection density", S.shape(q) == (3,))
    p, q = S.elems(p), S.elems(q)
    S.prove_eq("same value, same density", p[i], q[j])
    for xs, vs in ((pe, p), (inj, q)):
        for x, v in zip(xs, vs):
            if fold:
                x = S.abs(x)
            if S.test_lt(x, lo) or S.test_lt(hi, x):
                S.prove_zero("zero outside the domain", v)
            else:
                S.prove_eq("the spline at that value", v, factor * S.elems(sp(S.j([x]), cj))[0])
    for u, v in zip(S.elems(M(cj)), p):
        S.prove_eq("posterior samples are the default", u, v)
    S.prove_same("coefficients unchanged", snap, cj)


def _model(S, name, basis=None, degree=1, n=3, **kw):
    m, it = S.module(B), S.module(I)
    b0, lo, hi, wide = MODELS[name]
    x, lo, hi, pe, inj, i, j = setup(S, lo, hi, wide)
    c = S.reals("c", n, -5, 5)
    k = dict(kw)
    if basis:
        k["basis"] = getattr(it, basis)
    M = getattr(m, name)(n, S.j(pe).reshape(2, 2), S.j(inj), degree=degree, **k)
    sp = getattr(it, basis or b0)(n, xrange=(lo, hi), k=degree + 1, **kw)
    check(S, M, sp, lo, hi, pe, inj, i, j, c)


def _reg(name, label, **kw):
    @harness(name=label, grid=3, weight=3 if "Mass" in name else 1)
    def h(S):
        _model(S, name, **kw)


for _n in MODELS:
    _reg(_n, _n[7:])
_reg("BSplineChiEffective", "ChiEffectiveLog", basis="LogYBSpline")
_reg("BSplineRatio", "RatioCubic", degree=3, n=4)
_reg("BSplineSpinMagnitude", "SpinMagnitudeUnnormalised", normalize=False)


def _ranges(S, name, args, lo, hi, basis):
    """ranges given by the caller"""
    m, it = S.module(B), S.module(I)
    lo, hi = S.num(lo), S.num(hi)
    x = S.real("x", -2, 5)
    if not S.sym:
        for t in (lo, hi, (lo + hi) / 2):
            S.assume(S.gt(S.abs(x - t), 1e-3))
    pe = [lo, x, hi, lo + (hi - lo) / 3]
    inj = [hi, lo, x]
    c = S.reals("c", 3, -5, 5)
    M = getattr(m, name)(3, S.j(pe).reshape(2, 2), S.j(inj), degree=1, basis=getattr(it, basis), **args)
    sp = getattr(it, basis)(3, xrange=(lo, hi), k=2)
    check(S, M, sp, lo, hi, pe, inj, 1, 2, c)


@harness(grid=3)
def ranges(S):
    k = S.choose("model", [
        ("BSplineSpinMagnitude", {"xrange": (0.25, 0.75)}, "0.25", "0.75"),
        ("BSplineRatio", {"qmin": 0.125}, "0.125", "1"),
        ("BSplineRatio", {"xrange": (0.5, 0.75)}, "0.5", "0.75"),
        ("BSplineMass", {"mmin": 0.5, "mmax": 4}, "0.5", "4"),
        ("BSplineMass", {"xrange": (1, 3)}, "1", "3"),
        ("BSplineSpinTilt", {"xrange": (-0.5, 0.5)}, "-0.5", "0.5"),
    ])
    _ranges(S, *k, "LogYBSpline")


@harness(grid=3)
def ranges_linear(S):
    k = S.choose("model", [
        ("BSplineChiEffective", {"xrange": (-0.5, 0.75)}, "-0.5", "0.75"),
        ("BSplineChiPrecess", {"xrange": (0.25, 0.75)}, "0.25", "0.75"),
    ])
    _ranges(S, *k, "BSpline")


def _symmetric(S, basis, normalize):
    m, it = S.module(B), S.module(I)
    x = S.real("x", -1.5, 1.5)
    if not S.sym:
        for t in (0, 0.5, 1):
            S.assume(S.gt(S.abs(S.abs(x) - t), 1e-3))
    c = S.reals("c", 3, 0 if basis == "BSpline" else -5, 5)
    if basis == "BSpline":
        S.assume(S.gt(c[0] + c[1] + c[2], 1))
    pe, inj = [x, -x, S.num("1.2"), S.num("-0.3")], [-x, S.num("0.3"), x]
    M = m.BSplineSymmetricChiEffective(3, S.j(pe).reshape(2, 2), S.j(inj), degree=1, basis=getattr(it, basis), normalize=normalize)
    sp = getattr(it, basis)(3, xrange=(0, 1), k=2, normalize=normalize)
    check(S, M, sp, S.num(0), S.num(1), pe, inj, 0, 2, c, factor=S.num("0.5"), fold=True)
    p, q = S.elems(M(S.j(c), pe_samples=True)), S.elems(M(S.j(c), pe_samples=False))
    S.prove_eq("even on posterior samples", p[0], p[1])
    S.prove_eq("even on injections", q[0], q[2])
    S.prove_eq("even across sample sets", p[3], q[1])


@harness(grid=3)
def symmetric(S):
    _symmetric(S, *S.choose("basis", [("BSpline", True), ("BSpline", False), ("LogYBSpline", True)]))


@harness(grid=3)
def symmetric_normalised(S):
    """evaluated on the spline's own grid mirrored to both signs the density integrates to one"""
    m, it = S.module(B), S.module(I)
    basis = S.choose("basis", ["BSpline", "LogYBSpline"])
    lin = basis == "BSpline"
    c = S.reals("c", 3, 0 if lin else -5, 5)
    if lin:
        S.assume(S.gt(c[0] + c[1] + c[2], 1))
    sp = getattr(it, basis)(3, xrange=(0, 1), k=2, normalize=True)
    g = S.elems(sp.grid)
    full = [-v for v in g[:0:-1]] + list(g)
    M = m.BSplineSymmetricChiEffective(3, S.j(full).reshape(1, len(full)), S.j([S.num("0.3")]), degree=1, basis=getattr(it, basis), normalize=True)
    S.prove_eq("integrates to one over both signs", trap(S.elems(M(S.j(c), pe_samples=True)), full), 1)
