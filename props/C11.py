"""C11: redshift models"""
from .common import own_grid, registry, s1, stub_volume, trap

HARNESSES, harness = registry()
BOUNDS = "2 posterior and 2 injection redshifts in (0, 10] in any order (spline models: spline range free in (0.05, 2], or the ranges [0.2, 1.2], [0.1, 0.6] and [0.5, 4] with free redshifts inside and outside), exponent in [-5, 5], spline coefficients in [-5, 5] (2..4 basis functions), own grid of 3 or 4 nodes in place of 1000, comoving-volume element an arbitrary positive function of redshift"
OUTSIDE = "more samples, finer grids; the value of the comoving-volume element (decided by C27); redshifts below the minimum of the range"
ASSUMPTIONS = ["Cosmology.dVcdz is replaced in symbolic runs by an arbitrary positive function of redshift"]
P = "gwinferno.models.parametric.parametric"
B = "gwinferno.models.bsplines.single"
X = "gwinferno.models.spline_perturbation"


def samples(S, lo=0, hi=10, order=False, npe=2):
    pe, inj = S.reals("zp", npe, lo, hi, lo_open=True), S.reals("zi", 2, lo, hi, lo_open=True)
    if order:
        S.assume(S.lt(pe[0], pe[1]), S.lt(inj[0], inj[1]))
    return pe, inj


RANGES = [("0.2", "1.2", "0.1", "2"), ("0.1", "0.6", "0.05", "0.9"), ("0.5", "4", "0.3", "6")]


def fixed_range(S, ranges=RANGES):
    """samples spanning a fixed range, one free redshift in each set"""
    r = S.choose("range", ranges)
    x, y = S.real("x", float(r[0]), float(r[1])), S.real("y", float(r[2]), float(r[3]))
    a, b, lo, hi = [S.num(t) for t in r]
    if not S.sym:
        S.assume(S.gt(S.abs(y - a), 1e-3), S.gt(S.abs(y - b), 1e-3), S.gt(x, a + 0.01), S.lt(x, b - 0.01))
    return [lo, y, hi], [b, a, x], a, b


def overlap(S, pe, inj):
    def mx(v):
        r = v[0]
        for u in v[1:]:
            r = S.max(r, u)
        return r

    def mn(v):
        r = v[0]
        for u in v[1:]:
            r = S.min(r, u)
        return r

    a, b = S.max(mn(pe), mn(inj)), S.min(mx(pe), mx(inj))
    S.assume(S.lt(a, b))
    if not S.sym:
        S.assume(S.gt(b - a, 0.05), S.gt(a, 0.02))
    return a, b


def arrays(S, pe, inj):
    return S.j(pe).reshape(1, len(pe)), S.j(inj)


def cosmo(S):
    return S.module("gwinferno.cosmology").PLANCK_2015_LVK_Cosmology


def expo(S):
    la = S.real("lamb", -5, 5)
    return la


@harness(weight=2)
def powerlaw(S):
    m = S.module(P)
    dv = stub_volume(S)
    pe, inj = samples(S)
    a, b = overlap(S, pe, inj)
    zp, zi = arrays(S, pe, inj)
    M = m.PowerlawRedshiftModel(zp, zi)
    S.prove_eq("range starts at the larger minimum", M.zmin, a)
    S.prove_eq("range ends at the smaller maximum", M.zmax, b)
    g = own_grid(S, M, "zs", a, b)
    S.prove_eq("grid start", g[0], a)
    S.prove_eq("grid end", g[-1], b)
    la = expo(S)

    def rate(z):
        return dv(z) * S.pow(1 + z, la - 1)

    Z = trap([rate(z) for z in g], g) if S.sym else s1(S, M.normalization(la))
    if not S.sym:
        import numpy as np

        gg = np.asarray(M.zs)
        ref = np.trapz(np.asarray(cosmo(S).dVcdz(M.zs)) * (1 + gg) ** (float(la) - 1), gg)
        S.prove_eq("the reported normalisation is that integral", Z / ref, 1)
        Z = ref
    else:
        S.prove_eq("the reported normalisation is that integral", s1(S, M.normalization(la)), Z)
    for zs, arr in ((pe, zp), (inj, zi)):
        p, lp = S.elems(M(arr, la)), S.elems(M.log_prob(arr, la))
        for z, v, lv in zip(zs, p, lp):
            if S.test_lt(b, z):
                S.prove_zero("vanishes above the maximum", v)
                S.prove_lt("log density above the maximum", lv, -(10**29))
            else:
                S.prove_eq("volume factor over (1+z) times (1+z)^lamb over its integral", v * Z, rate(z))
                S.prove_eq("log density", lv, S.log(rate(z)) - S.log(Z))


def _perturbed(S, n, npe):
    m = S.module(X)
    dv = stub_volume(S)
    pe, inj, a, b = fixed_range(S)
    zp, zi = arrays(S, pe, inj)
    M = m.PowerlawSplineRedshiftModel(n, zp, zi)
    g = own_grid(S, M, "zs", a, b)
    la = expo(S)
    c = S.reals("c", n, -5, 5)
    I = S.module("gwinferno.interpolation")
    sp = I.LogXBSpline(n, xrange=(M.zmin, M.zmax), k=4, normalize=False)

    def shape(zs):
        q = sp.bases(S.j(zs))
        out = []
        for j, z in enumerate(zs):
            t = 0
            for i in range(n):
                t = t + S.at(q, i, j) * c[i]
            out.append(dv(z) * S.pow(1 + z, la - 1) * S.exp(t))
        return out

    cj = S.j(c)
    if S.sym:
        Z = trap(shape(g), g)
    else:
        import numpy as np

        gg = np.asarray(M.zs)
        Z = np.trapz(np.asarray(m.PowerlawRedshiftModel(zp, zi).dVdz_) * (1 + gg) ** (float(la) - 1) * np.exp(np.einsum("ij,i->j", np.asarray(sp.bases(M.zs)), np.asarray(c, dtype=float))), gg)
    S.prove_eq("the reported normalisation is the integral of the same product", s1(S, M.normalization(la, cj)), Z)
    k = S.choose("set", 2)
    zs, arr = ((pe, zp), (inj, zi))[k]
    p, lp = S.elems(M(arr, la, cj)), S.elems(M.log_prob(arr, la, cj))
    want = shape(zs)
    for z, v, lv, w in zip(zs, p, lp, want):
        if S.test_lt(b, z):
            S.prove_zero("vanishes above the maximum", v)
            S.prove_lt("log density above the maximum", lv, -(10**29))
        else:
            S.prove_eq("power law times exponentiated spline over its integral", v * Z, w)
            S.prove_eq("log density", lv, S.log(w) - S.log(Z))


@harness(grid=3, weight=3)
def perturbed(S):
    _perturbed(S, 4, 2)


def _spline(S, normalize, n=2, degree=1):
    m = S.module(B)
    dv = stub_volume(S)
    if normalize:
        pe, inj, a, b = fixed_range(S, RANGES[:2])
    else:
        pe, inj = samples(S, 0.05, 2, order=True)
        a, b = overlap(S, pe, inj)
    zp, zi = arrays(S, pe, inj)
    dpe, dinj = S.reals("dvp", len(pe), 0, 10, lo_open=True), S.reals("dvi", len(inj), 0, 10, lo_open=True)
    if not S.sym:
        for v in dpe + dinj:
            S.assume(S.gt(v, 0.01))
    I = S.module("gwinferno.interpolation")
    basis = I.LogXBSpline
    M = m.BSplineRedshift(n, zp, zi, S.j(dpe).reshape(1, len(pe)), S.j(dinj), basis=basis, degree=degree, normalize=normalize)
    S.prove_eq("range starts at the larger minimum", M.zmin, a)
    S.prove_eq("range ends at the smaller maximum", M.zmax, b)
    g = own_grid(S, M, "zgrid", a, b)
    c = S.reals("c", n, 0, 3)
    t = 0
    for v in c:
        t = t + v
    S.assume(S.gt(t, 1))
    cj = S.j(c)
    sp = basis(n, xrange=(S.num("0.0001"), S.num("2.3")), k=degree + 1, normalize=normalize)

    def rate(zs):
        return [S.exp(v) for v in S.elems(sp.project(sp.bases(S.j(zs)), cj))]

    if S.sym:
        Z = trap([dv(z) / (1 + z) * r for z, r in zip(g, rate(g))], g)
    else:
        import numpy as np

        gg = np.asarray(M.zgrid)
        Z = np.trapz(np.asarray(cosmo(S).dVcdz(M.zgrid)) / (1 + gg) * np.exp(np.asarray(sp.project(sp.bases(M.zgrid), cj))), gg)
    S.prove_eq("the reported normalisation is the integral of the same rate", s1(S, M.normalization(cj)), Z)
    for zs, d, flag in ((pe, dpe, True), (inj, dinj, False)):
        p, r = S.elems(M(cj, pe_samples=flag)), rate(zs)
        for i in range(len(p)):
            S.prove_eq("rate times volume element over (1+z) over the integral", p[i] * Z, r[i] * d[i] / (1 + zs[i]))


@harness(grid=3, weight=2)
def spline(S):
    _spline(S, False)


@harness(grid=3, weight=2)
def spline_normalised(S):
    _spline(S, True)
