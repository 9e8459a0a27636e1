"""C04: two-dimensional spline"""
from .common import registry, trap

HARNESSES, harness = registry()
BOUNDS = "basis counts (2..4) x (2..4), equal or not, orders 2 and 3 per axis, any coefficients in [-10, 10], any domains at least 0.01 wide in [-20, 20], normalisation grid of 3 x 3 nodes in place of 750 x 750, any evaluation point"
OUTSIDE = "larger basis counts and orders (the one-dimensional bases are decided by C01), the number of grid nodes of the source"
ASSUMPTIONS = []
M = "gwinferno.interpolation"
C = "RectBivariateBasisSpline"


def domains(S):
    a, b = S.real("xlo", -20, 20), S.real("xhi", -20, 20)
    c, d = S.real("ylo", -20, 20), S.real("yhi", -20, 20)
    S.assume(S.gt(b - a, 0.01), S.gt(d - c, 0.01))
    if not S.sym:
        S.assume(S.gt(b - a, 0.5), S.gt(d - c, 0.5))
    return a, b, c, d


def frac(S, name):
    x = S.real(name, 0, 1)
    if not S.sym:
        S.assume(S.gt(x, 1e-3), S.lt(x, 0.999), S.gt(S.abs(x - 0.5), 1e-3), S.gt(S.abs(3 * x - 1), 1e-3), S.gt(S.abs(3 * x - 2), 1e-3))
    return x


SIZES = [(2, 3, 2, 2), (3, 2, 2, 2), (3, 3, 2, 3), (4, 3, 3, 2)]


@harness(weight=2)
def tensor(S):
    m = S.module(M)
    nx, ny, kx, ky = S.choose("sizes", SIZES)
    a, b, c, d = domains(S)
    u, v = frac(S, "u"), frac(S, "v")
    x, y = a + (b - a) * u, c + (d - c) * v
    sp = getattr(m, C)(nx, ny, xrange=(a, b), yrange=(c, d), kx=kx, ky=ky, normalize=False)
    xj, yj = S.j([x]), S.j([y])
    B = sp.bases(xj, yj)
    S.prove_true("shape", S.shape(B) == (nx, ny, 1))
    bx = m.BSpline(nx, xrange=(a, b), k=kx, normalize=False).bases(xj)
    by = m.BSpline(ny, xrange=(c, d), k=ky, normalize=False).bases(yj)
    for i in range(nx):
        for j in range(ny):
            S.prove_eq("product of the one-dimensional bases", S.at(B, i, j, 0), S.at(bx, i, 0) * S.at(by, j, 0))


@harness()
def other_bases(S):
    """another basis on one axis only"""
    m = S.module(M)
    bx, by = S.choose("bases", [("LogXBSpline", "BSpline"), ("BSpline", "LogXBSpline"), ("BasisSpline", "BSpline")])
    u, v = frac(S, "u"), frac(S, "v")
    x, y = 2 + u, 3 + 2 * v
    sp = getattr(m, C)(3, 2, xrange=(2, 3), yrange=(3, 5), kx=2, ky=2, xbasis=getattr(m, bx), ybasis=getattr(m, by), normalize=False)
    xj, yj = S.j([x]), S.j([y])
    B = sp.bases(xj, yj)
    wx = getattr(m, bx)(3, xrange=(2, 3), k=2, normalize=False).bases(xj)
    wy = getattr(m, by)(2, xrange=(3, 5), k=2, normalize=False).bases(yj)
    for i in range(3):
        for j in range(2):
            S.prove_eq("product of the chosen bases", S.at(B, i, j, 0), S.at(wx, i, 0) * S.at(wy, j, 0))


@harness()
def arrays(S):
    """two-dimensional arrays of points: each point its own pair"""
    m = S.module(M)
    sp = getattr(m, C)(3, 2, xrange=(0, 1), yrange=(0, 2), kx=2, ky=2, normalize=False)
    pos = S.choose("pos", 6)
    u = frac(S, "u")
    xs = [S.num(t) for t in ("0.1", "0.3", "0.6", "0.9", "0.7", "0.2")]
    ys = [S.num(t) for t in ("1.9", "0.3", "1.2", "0.4", "1.5", "0.6")]
    xs[pos], ys[(pos + 1) % 6] = u, 2 * u
    X, Y = S.j(xs).reshape(2, 3), S.j(ys).reshape(2, 3)
    sx, sy = S.snapshot(X), S.snapshot(Y)
    B = sp.bases(X, Y)
    S.prove_true("shape", S.shape(B) == (3, 2, 2, 3))
    for e in range(6):
        one = sp.bases(S.j([xs[e]]), S.j([ys[e]]))
        for i in range(3):
            for j in range(2):
                S.prove_eq("own pair", S.at(B, i, j, e // 3, e % 3), S.at(one, i, j, 0))
    S.prove_same("x unchanged", sx, X)
    S.prove_same("y unchanged", sy, Y)


def coef(S, nx, ny):
    return [[S.real(f"c{i}_{j}", -10, 10) for j in range(ny)] for i in range(nx)]


def cj(S, c):
    return S.j([v for r in c for v in r]).reshape(len(c), len(c[0]))


@harness(weight=2)
def projection(S):
    m = S.module(M)
    nx, ny, kx, ky = S.choose("sizes", SIZES[:3])
    sp = getattr(m, C)(nx, ny, xrange=(0, 1), yrange=(0, 2), kx=kx, ky=ky, normalize=False)
    u, v = frac(S, "u"), frac(S, "v")
    B = sp.bases(S.j([u]), S.j([2 * v]))
    c = coef(S, nx, ny)
    t = 0
    for i in range(nx):
        for j in range(ny):
            t = t + S.at(B, i, j, 0) * c[i][j]
    C_ = cj(S, c)
    snap = S.snapshot(C_)
    S.prove_eq("exponential of the sum over both bases", S.elems(sp.project(B, C_))[0], S.exp(t))
    S.prove_same("coefficients unchanged", snap, C_)


def _normalised(S, nx, ny, kx, ky):
    m = S.module(M)
    a, b, c, d = domains(S)
    sp = getattr(m, C)(nx, ny, xrange=(a, b), yrange=(c, d), kx=kx, ky=ky)
    co = coef(S, nx, ny)
    gx, gy = S.elems(sp.gridx), S.elems(sp.gridy)
    S.prove_eq("x grid starts", gx[0], a)
    S.prove_eq("x grid ends", gx[-1], b)
    S.prove_eq("y grid starts", gy[0], c)
    S.prove_eq("y grid ends", gy[-1], d)
    if S.sym:
        pts = range(len(gx)), range(len(gy))
        cols = []
        for i in pts[0]:
            row = [S.elems(sp.project(sp.bases(S.j([gx[i]]), S.j([gy[j]])), cj(S, co)))[0] for j in pts[1]]
            cols.append(trap(row, gy))
        tot = trap(cols, gx)
    else:
        import numpy as np

        xx, yy = np.meshgrid(np.asarray(sp.gridx), np.asarray(sp.gridy), indexing="ij")
        v = np.asarray(sp.project(sp.bases(S.j(xx), S.j(yy)), cj(S, co)))
        tot = np.trapz(np.trapz(v, np.asarray(sp.gridy), axis=1), np.asarray(sp.gridx))
    S.prove_eq("integrates to one over its own grid", tot, 1)


@harness(grid=3, weight=3)
def normalised(S):
    _normalised(S, *S.choose("sizes", [(2, 3, 2, 2), (3, 2, 2, 2)]))


@harness(grid=3)
def normalised_square(S):
    _normalised(S, 2, 2, 2, 2)
