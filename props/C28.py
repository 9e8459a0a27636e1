"""C28: posterior-predictive curves"""
from .common import Q, registry, trap

HARNESSES, harness = registry()
BOUNDS = "one or two posterior draws with free rates in (0, 50] and fractions in (0, 1] (or left out), free hyperparameters or spline coefficients in [-2, 2] (3 or 4 basis functions), mass range [5, 80] (and a free maximum spin magnitude); the 800-node grids are executed with 3 or 4 nodes"
OUTSIDE = "more draws, finer grids; shape parameters of the beta distribution below one, for which the curve diverges at the ends of its grid; whether the exact corner secondary mass = minimum mass belongs to the support; the densities themselves (C03, C05, C06, C10)"
ASSUMPTIONS = ["in the power-law-plus-peak curves the power law and the truncated Gaussian are arbitrary positive functions of all their arguments", "the package's own densities and spline models are the reference (decided by C03, C05, C06, C10, C12)"]
C = "gwinferno.postprocess.calculations"
P = "gwinferno.models.parametric.parametric"
D = "gwinferno.distributions"
B = "gwinferno.models.bsplines.single"
I = "gwinferno.interpolation"
MN, MX = 5, 80


def weights(S, n):
    """rates and fractions of n draws: (arguments, product per draw)"""
    how = S.choose("weights", ["both", "rate", "fraction", "none"] if n == 1 else ["both"])
    kw, w = {}, [S.num(1)] * n
    if how in ("both", "rate"):
        r = S.reals("rate", n, 0, 50, lo_open=True)
        kw["rate"], w = S.j(r), [a * b for a, b in zip(w, r)]
    if how in ("both", "fraction"):
        f = S.reals("frac", n, 0, 1, lo_open=True)
        kw["pop_frac"], w = S.j(f), [a * b for a, b in zip(w, f)]
    return kw, w


def grid(S, g, lo, hi, what):
    e = S.elems(g)
    S.prove_eq(f"{what} grid start", e[0], lo)
    S.prove_eq(f"{what} grid end", e[-1], hi)
    for a, b in zip(e[:4], e[1:5]):
        S.prove_lt(f"{what} grid increases", a, b)
    return e


def rows(S, a, n, m, what):
    S.prove_true(f"{what} shape", tuple(S.shape(a)) == (n, m))
    return [[S.at(a, i, k) for k in range(m)] for i in range(n)]


def pick(S, m):
    """grid nodes compared one by one: all of them in symbolic runs, a spread of them in replays"""
    return range(m) if S.sym else sorted({0, 1, 2, m // 7, m // 3, m // 2, (2 * m) // 3, m - 3, m - 2, m - 1})


def integral(S, y, x):
    if S.sym:
        return trap(y, x)
    import numpy as np

    y, x = np.asarray(y, float), np.asarray(x, float)
    return float(np.sum((y[1:] + y[:-1]) * (x[1:] - x[:-1]) / 2))


def one_dim(S, out, n, lo, hi, w, dens, what):
    """curves over one grid: proportional to the density, integrating to the weight"""
    pdfs, g = out
    e = grid(S, g, lo, hi, what)
    y = rows(S, pdfs, n, len(e), what)
    for i in range(n):
        p = dens(i, e)
        Z = integral(S, p, e)
        for k in pick(S, len(e)):
            S.prove_eq(f"{what} curve of draw {i}", y[i][k] * Z, w[i] * p[k])
            S.prove_le(f"{what} not negative", 0, y[i][k])
        S.prove_eq(f"{what} integrates to rate times fraction", integral(S, y[i], e), w[i])


def close(S, what, a, b):
    """equality; replays allow for the few grid points at which rounding decides about the minimum mass"""
    if S.sym:
        S.prove_eq(what, a, b)
    else:
        S.prove_le(what, abs(a - b), 1e-4 * abs(b) + 1e-12)


def corner(S, v):
    """does the support contain the node whose only admissible partner lies exactly on the minimum mass?"""
    if S.sym:
        from symx.terms import T

        if isinstance(v, T) and v.is_const():
            return v.const() != 0
        return True
    return v > 0


def marginals(S, out, n, w, dens, signs=True):
    mp, ms, qp, qs = out
    em, eq = grid(S, ms, MN, MX, "mass"), grid(S, qs, S.num(Q(MN, MX)), 1, "ratio")
    a, b = rows(S, mp, n, len(em), "mass"), rows(S, qp, n, len(eq), "ratio")
    for i in range(n):
        c1, c2 = corner(S, a[i][0]), corner(S, b[i][0])
        sk = {"m": (), "q": ()}
        J = dens(i, em, eq)  # J[k][l] at (em[k], eq[l])
        if S.sym:
            for k in range(len(em)):
                for l in range(len(eq)):
                    if k == 0 and l == len(eq) - 1:
                        ok = c1
                    elif l == 0 and k == len(em) - 1:
                        ok = c2
                    else:
                        ok = S.test_le(MN, em[k] * eq[l])
                    if not ok:
                        J[k][l] = S.num(0)
            pm = [trap(J[k], eq) for k in range(len(em))]
            pq = [trap([J[k][l] for k in range(len(em))], em) for l in range(len(eq))]
        else:
            import numpy as np

            J = np.asarray(J, float)
            m2 = np.outer(np.asarray(em, float), np.asarray(eq, float))
            x, y = np.asarray(em, float), np.asarray(eq, float)

            def marg(eps):
                K = np.where(m2 > MN * (1 + eps), np.nan_to_num(J), 0.0)
                return ((K[:, 1:] + K[:, :-1]) / 2 * np.diff(y)).sum(1), ((K[1:] + K[:-1]) / 2 * np.diff(x)[:, None]).sum(0)

            # nodes at which rounding decides whether a grid point lies on the minimum mass are left out
            (pm, pq), (pm2, pq2) = marg(1e-5), marg(-1e-5)
            sk = {"m": set(np.where(np.abs(pm - pm2) > 1e-9 * pm.max())[0]), "q": set(np.where(np.abs(pq - pq2) > 1e-9 * pq.max())[0])}
            pm, pq = list(pm), list(pq)
        Zm, Zq = integral(S, pm, em), integral(S, pq, eq)
        if signs:
            S.prove_lt("mass normalisation positive", 0, Zm)
            S.prove_lt("ratio normalisation positive", 0, Zq)
        for k in pick(S, len(em)):
            if signs or not S.sym:
                S.prove_le("mass curve not negative", 0, pm[k] if S.sym else a[i][k])
            if k in sk["m"]:
                continue
            close(S, f"primary-mass marginal of draw {i}", a[i][k] * Zm, w[i] * pm[k])
        for l in pick(S, len(eq)):
            if signs or not S.sym:
                S.prove_le("ratio curve not negative", 0, pq[l] if S.sym else b[i][l])
            if l in sk["q"]:
                continue
            close(S, f"mass-ratio marginal of draw {i}", b[i][l] * Zq, w[i] * pq[l])
        S.prove_eq("mass curve integrates to rate times fraction", integral(S, a[i], em), w[i])
        S.prove_eq("ratio curve integrates to rate times fraction", integral(S, b[i], eq), w[i])


def coefs(S, name, n, m):
    return [S.reals(f"{name}{i}_", m, -2, 2) for i in range(n)]


def ev(S, model, c, inj=False):
    return S.elems(model(S.j(c), pe_samples=not inj) if inj is not None else model(S.j(c)))


@harness(grid=4)
def beta_magnitude(S):
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    al, be = S.reals("alpha", n, 1, 6), S.reals("beta", n, 1, 6)
    amax = S.num(1)
    if S.choose("maximum", ["default", "free"]) == "free":
        amax = S.real("amax", Q(1, 2), 1)
        kw["amax"] = amax
    out = S.module(C).calculate_beta_spin_mag(S.j(al), S.j(be), **kw)
    d = S.module(D).betadist
    one_dim(S, out, n, 0, amax, w, lambda i, e: S.elems(d(S.j(e), al[i], be[i], scale=amax)), "spin magnitude")


@harness(grid=4)
def mixture_tilt(S):
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    sg, la = S.reals("sigma", n, Q(1, 5), 4), S.reals("lambda", n, 0, 1)
    out = S.module(C).calculate_mixture_iso_aligned_spin_tilt(S.j(sg), S.j(la), **kw)
    d = S.module(P).mixture_isoalign_spin_tilt
    one_dim(S, out, n, -1, 1, w, lambda i, e: S.elems(d(S.j(e), la[i], sg[i])), "tilt")


@harness(grid=3)
def spline_spins_iid(S):
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    na, nt = 4, 5
    ca, ct = coefs(S, "a", n, na), coefs(S, "t", n, nt)
    pa, aa, pt, cc = S.module(C).calculate_bspline_spin_ppds(S.j(ca), S.j(ct), {"a": na, "tilt": nt}, **kw)
    b = S.module(B)
    one_dim(S, (pa, aa), n, 0, 1, w, lambda i, e: ev(S, b.BSplineSpinMagnitude(na, S.j(e), S.j(e), normalize=True), ca[i]), "spin magnitude")
    one_dim(S, (pt, cc), n, -1, 1, w, lambda i, e: ev(S, b.BSplineSpinTilt(nt, S.j(e), S.j(e), normalize=True), ct[i]), "tilt")


@harness(grid=3)
def spline_spins_independent(S):
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    ns = dict(a1=4, a2=5, tilt1=6, tilt2=4)
    c = {k: coefs(S, k, n, v) for k, v in ns.items()}
    p1, p2, aa, t1, t2, cc = S.module(C).calculate_bspline_spin_ppds(S.j(c["a1"]), S.j(c["tilt1"]), ns, a2_cs=S.j(c["a2"]), tilt2_cs=S.j(c["tilt2"]), **kw)
    b = S.module(B)
    for pdf, g, k, lo, cls in ((p1, aa, "a1", 0, b.BSplineSpinMagnitude), (p2, aa, "a2", 0, b.BSplineSpinMagnitude), (t1, cc, "tilt1", -1, b.BSplineSpinTilt), (t2, cc, "tilt2", -1, b.BSplineSpinTilt)):
        one_dim(S, (pdf, g), n, lo, 1, w, lambda i, e: ev(S, cls(ns[k], S.j(e), S.j(e), normalize=True), c[k][i]), k)


@harness(grid=3, weight=3)
def spline_masses(S):
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    nm, nq = 5, 4
    cm, cq = coefs(S, "m", n, nm), coefs(S, "q", n, nq)
    out = S.module(C).calculate_bspline_mass_ppds(S.j(cm), S.j(cq), {"m1": nm, "q": nq}, MN, MX, **kw)
    b = S.module(B)

    def dens(i, em, eq):
        p = ev(S, b.BSplineMass(nm, S.j(em), S.j(em), mmin=MN, mmax=MX), cm[i])
        q = ev(S, b.BSplineRatio(nq, S.j(eq), S.j(eq), qmin=MN / MX), cq[i])
        return [[x * y for y in q] for x in p]

    marginals(S, out, n, w, dens)


@harness(grid=4)
def peak_and_spline_ratio(S):
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    nq = 4
    cq = coefs(S, "q", n, nq)
    mu, sg = S.reals("mu", n, 2, 4), S.reals("sigma", n, Q(1, 5), 2)
    out = S.module(C).calculate_peak_logm1_bspline_q_ppds(S.j(mu), S.j(sg), S.j(cq), {"q": nq}, MN, MX, **kw)
    b, d = S.module(B), S.module(D)

    def dens(i, em, eq):
        p = S.elems(d.truncnorm_pdf(S.j(em), mu[i], sg[i], MN, MX, log=True))
        q = ev(S, b.BSplineRatio(nq, S.j(eq), S.j(eq), qmin=MN / MX), cq[i])
        return [[x * y for y in q] for x in p]

    marginals(S, out, n, w, dens)


def stub_densities(S):
    """symbolic runs: the power law and the truncated Gaussian are arbitrary positive functions of all their arguments"""
    if not S.sym:
        return
    import inspect

    import numpy as np
    from symx import arr, terms as tm

    d = S.module(D)
    for nm in ("powerlaw_pdf", "truncnorm_pdf"):
        sig = inspect.signature(getattr(d, nm))

        def f(*a, nm=nm, sig=sig, **k):
            ba = sig.bind(*a, **k)
            ba.apply_defaults()
            vs = [v for kk, v in ba.arguments.items() if kk not in ("floor", "log")]
            tag = nm + str(bool(ba.arguments.get("log", False)))

            bs = np.broadcast_arrays(*[np.asarray(arr.to_obj(arr.coerce(v)), dtype=object) for v in vs])
            out = np.empty(bs[0].shape, dtype=object)
            for ix in np.ndindex(*out.shape):
                out[ix] = tm.texp(tm.tuf(tag, *[b[ix] if isinstance(b[ix], tm.T) else S.num(b[ix]) for b in bs]))
            return S.j(out)

        for mod in (d, S.module(P), S.module(C)):
            if hasattr(mod, nm):
                S.patch(mod, nm, f)


@harness(grid=4)
def powerlaw_peak_masses(S):
    stub_densities(S)
    n = S.choose("draws", [1, 2])
    kw, w = weights(S, n)
    al, be = S.reals("alpha", n, -5, 5), S.reals("beta", n, -3, 5)
    if not S.sym:
        for v in al + be:
            S.assume(S.gt(S.abs(v + 1), 0.05), S.gt(S.abs(v - 1), 0.05))
    mu, sg, la = S.reals("mu", n, 10, 50), S.reals("sigma", n, 2, 20), S.reals("lambda", n, 0, 1)
    p = S.module(P)

    def dens(i, em, eq):
        if S.sym:
            return [[S.elems(p.plpeak_primary_ratio_pdf(S.j([m]), S.j([q]), al[i], be[i], MN, MX, mu[i], sg[i], la[i]))[0] if S.test_le(MN, m * q) else S.num(0) for q in eq] for m in em]
        import numpy as np

        m, q = np.meshgrid(np.asarray(em), np.asarray(eq), indexing="ij")
        return np.asarray(p.plpeak_primary_ratio_pdf(S.j(m), S.j(q), al[i], be[i], MN, MX, mu[i], sg[i], la[i]))

    out = S.module(C).calculate_powerlaw_peak_mass_ppds(S.j(al), S.j(be), S.j(mu), S.j(sg), S.j(la), MN, MX, **kw)
    marginals(S, out, n, w, dens)


class Zmodel:
    pass


@harness(grid=4)
def rate_evolution(S):
    n = S.choose("draws", [1, 2])
    r = S.reals("rate", n, 0, 50, lo_open=True)
    la = S.reals("lambda", n, -5, 5)
    w, kw = r, {}
    if S.choose("fraction", ["given", "none"]) == "given":
        f = S.reals("frac", n, 0, 1, lo_open=True)
        kw["pop_frac"], w = S.j(f), [a * b for a, b in zip(r, f)]
    z = S.real("z", 0, 2)
    zm = Zmodel()
    zm.zs = S.j([S.num(Q(1, 10)), z, S.num(Q(5, 2))])
    out, zs = S.module(C).calculate_powerlaw_rate_of_z_ppds(S.j(la), S.j(r), zm, **kw)
    e = S.elems(zs)
    S.prove_eq("grid of the model", S.n(e), S.n(S.elems(zm.zs)))
    y = rows(S, out, n, len(e), "rate")
    for i in range(n):
        for k, v in enumerate(e):
            S.prove_eq("rate times fraction times (1 + z) to the index", y[i][k], w[i] * S.pow(1 + v, la[i]))


@harness(grid=4)
def spline_rate_evolution(S):
    n = S.choose("draws", [1, 2])
    r = S.reals("rate", n, 0, 50, lo_open=True)
    la = S.reals("lambda", n, -5, 5)
    nz = 4
    cz = coefs(S, "c", n, nz - 1)
    w, kw = r, {}
    if S.choose("fraction", ["given", "none"]) == "given":
        f = S.reals("frac", n, 0, 1, lo_open=True)
        kw["pop_frac"], w = S.j(f), [a * b for a, b in zip(r, f)]
    z = S.j([S.num(Q(1, 5)), S.num(1)])
    zm = S.module("gwinferno.models.spline_perturbation").PowerlawSplineRedshiftModel(nz, z.reshape(1, 2), z)
    out, zs = S.module(C).calculate_powerlaw_spline_rate_of_z_ppds(S.j(la), S.j(cz), S.j(r), zm, **kw)
    e = S.elems(zs)
    y = rows(S, out, n, len(e), "rate")
    lo, hi = e[0], e[-1]
    sp = S.module(I).LogXBSpline(nz, xrange=(lo, hi), k=4, normalize=False)
    b = sp.bases(S.j(e))
    for i in range(n):
        c = [S.num(0)] + cz[i]
        for k in pick(S, len(e)):
            t = 0
            for a in range(nz):
                t = t + S.at(b, a, k) * c[a]
            S.prove_eq("rate times fraction times the modelled evolution", y[i][k], w[i] * S.pow(1 + e[k], la[i]) * S.exp(t))
