"""C27: cosmology tables"""
from .common import Q, registry, trap

HARNESSES, harness = registry()
BOUNDS = "tables of 3 to 7 nodes with a spacing of 1/2 or 3/4, every Hubble constant in [5e4, 1e5] m/s/Mpc, every flat split into matter, radiation and dark energy (matter fractions 0, 0.3 and 1 for queries beyond the table in the quick tier), query points anywhere inside the table and up to twice its length, up to three requests in a row"
OUTSIDE = "tables of the default length (10001 nodes) as such - the recurrence is the same at every node; accuracy of the trapezoid rule; extension with a spacing other than the table's own (the default spacing is used for tables built with it); requests more than twice the table length; negative redshifts"
ASSUMPTIONS = ["real arithmetic"]
C = "gwinferno.cosmology"
SI = 299792458


class Cosmo:
    def __init__(self, S, max_z=1, dz=Q(1, 2), rad=True, om=None):
        self.S = S
        self.Ho = S.real("Ho", 50000, 100000)
        self.Om = S.real("Om", 0, 1) if om is None else S.num(om)
        self.Or = S.real("Or", 0, 1) if rad else S.num(0)
        if rad:
            S.assume(S.le(self.Om + self.Or, 1))
        self.Ol = 1 - self.Om - self.Or
        self.dz = S.num(dz)
        self.c = self.make(max_z)

    def make(self, max_z):
        S = self.S
        c = S.module(C).Cosmology
        if not S.sym:  # the flatness test is exact: find a representable split
            om = self.Om
            for _ in range(50):
                if 1.0 - (om + self.Or + (1 - om - self.Or)) == 0:
                    break
                om = round(om, 3) if _ == 0 else round(om * 0.99, 2)
            self.Om, self.Ol = om, 1 - om - self.Or
        return c(self.Ho, self.Om, self.Or, self.Ol, max_z=S.num(max_z) if not isinstance(max_z, int) else max_z, dz=self.dz)

    def E(self, z):
        z1 = 1 + z
        return self.S.sqrt(self.Ol + self.Om * z1 * z1 * z1 + self.Or * z1 * z1 * z1 * z1)

    def dD(self, z):
        return self.S.div(self.S.num(SI), self.Ho * self.E(z))

    def table(self, n):
        """(z, Dc, Vc) by the trapezoid rule"""
        S = self.S
        z = [self.dz * i for i in range(n)]
        f = [self.dD(v) for v in z]
        D = [S.num(0)]
        for i in range(1, n):
            D.append(D[-1] + (f[i] + f[i - 1]) * self.dz / 2)
        g = [4 * S.pi * D[i] * D[i] * f[i] for i in range(n)]
        V = [S.num(0)]
        for i in range(1, n):
            V.append(V[-1] + (g[i] + g[i - 1]) * self.dz / 2)
        return z, D, V


def near(S, x, *ks):
    if not S.sym:
        for k in ks:
            S.assume(S.gt(S.abs(x - k), 1e-6 * (1 + abs(k))))


@harness()
def table(S):
    mz, dz = S.choose("table", [(1, Q(1, 2)), (Q(5, 4), Q(3, 4))])
    _table(S, mz, dz)


@harness(tier="thorough", time=600)
def table_long(S):
    mz, dz = S.choose("table", [(Q(3, 2), Q(1, 2)), (2, Q(1, 2)), (2, Q(3, 4)), (1, Q(1, 10))])
    _table(S, mz, dz)


def _table(S, mz, dz):
    k = Cosmo(S, mz, dz)
    c = k.c
    n = S.shape(c.z)[0]
    S.prove_true("lengths", S.shape(c.Dc) == (n,) and S.shape(c.Vc) == (n,) and S.shape(c.DL) == (n,))
    z, D, V = k.table(n)
    S.prove_ge("the table reaches the requested redshift", S.at(c.z, n - 1), S.num(mz))
    for i in range(n):
        S.prove_eq("nodes", S.at(c.z, i), z[i])
        S.prove_eq("comoving distance", S.at(c.Dc, i), D[i])
        S.prove_eq("comoving volume", S.at(c.Vc, i), V[i])
        S.prove_eq("luminosity distance", S.at(c.DL, i), (1 + z[i]) * D[i])
    for i in range(1, n):
        S.prove_gt("distance increases", S.at(c.Dc, i), S.at(c.Dc, i - 1))
        S.prove_gt("volume increases", S.at(c.Vc, i), S.at(c.Vc, i - 1))
        S.prove_gt("luminosity distance increases", S.at(c.DL, i), S.at(c.DL, i - 1))


@harness()
def elements(S):
    k = Cosmo(S)
    c = k.c
    z = S.real("z", 0, 8)
    S.prove_eq("E(z)", S.elems(c.z2E(S.j([z])))[0], k.E(z))
    S.prove_eq("E(0)", S.elems(c.z2E(S.j([S.num(0)])))[0], 1)
    S.prove_eq("dDc/dz", S.elems(c.dDcdz(S.j([z])))[0], k.dD(z))
    D = S.real("D", 0, 10000, lo_open=True)
    if not S.sym:
        S.assume(S.gt(D, 1))
    S.prove_eq("dVc/dz", S.elems(c.dVcdz(S.j([z]), S.j([D])))[0], 4 * S.pi * D * D * k.dD(z))
    S.prove_eq("log dVc/dz", S.elems(c.logdVcdz(S.j([z]), S.j([D])))[0], S.log(4 * S.pi * D * D * k.dD(z)))


@harness()
def elements_lookup(S):
    """the volume element without a distance uses the tabulated distance at that redshift"""
    k = Cosmo(S, rad=False)
    c = k.c
    z = S.real("z", 0, 1, lo_open=True)
    near(S, z, 0, 0.5, 1)
    D = S.elems(c.z2Dc(S.j([z]), dz=k.dz))[0]
    S.prove_eq("dVc/dz", S.elems(c.dVcdz(S.j([z]), dz=k.dz))[0], 4 * S.pi * D * D * k.dD(z))
    S.prove_eq("log dVc/dz", S.exp(S.elems(c.logdVcdz(S.j([z]), dz=k.dz))[0]), 4 * S.pi * D * D * k.dD(z))


def interp(S, x, xs, ys):
    for i in range(1, len(xs)):
        if S.test_le(x, xs[i]) or i == len(xs) - 1:
            return ys[i - 1] + S.div((ys[i] - ys[i - 1]) * (x - xs[i - 1]), xs[i] - xs[i - 1])


@harness()
def lookup(S):
    k = Cosmo(S, rad=False)
    c = k.c
    z = S.real("z", 0, 1)
    zs, D, _ = k.table(S.shape(c.z)[0])
    L = [(1 + v) * d for v, d in zip(zs, D)]
    Dz = S.elems(c.z2Dc(S.j([z]), dz=k.dz))[0]
    Lz = S.elems(c.z2DL(S.j([z]), dz=k.dz))[0]
    S.prove_eq("distance", Dz, interp(S, z, zs, D))
    S.prove_eq("luminosity distance", Lz, interp(S, z, zs, L))
    z2 = S.real("z2", 0, 1)
    S.assume(S.lt(z, z2))
    if not S.sym:
        S.assume(S.lt(z + 1e-4, z2))
    S.prove_lt("distance increases", Dz, S.elems(c.z2Dc(S.j([z2]), dz=k.dz))[0])
    S.prove_lt("luminosity distance increases", Lz, S.elems(c.z2DL(S.j([z2]), dz=k.dz))[0])


@harness()
def inverse(S):
    k = Cosmo(S, rad=False)
    c = k.c
    z = S.reals("z", 2, 0, 1)
    near(S, z[0], 0.5, 1)
    L = c.z2DL(S.j(z), dz=k.dz)
    S.prove_eq("redshift of the distance", c.DL2z(L, dz=k.dz), S.j(z))
    S.prove_true("table unchanged", S.shape(c.z)[0] == S.shape(k.make(1).z)[0])


@harness(time=200)
def extension(S):
    """beyond the table: the same answer as from a table built long enough, whatever was asked before"""
    _extension(S, Q(3, 10))


@harness(tier="thorough", time=600)
def extension_any(S):
    _extension(S, None)


def _extension(S, om):
    k = Cosmo(S, rad=False, om=om)
    c = k.c
    z = S.real("z", 1, 2, lo_open=True)
    near(S, z, 1, 1.5, 2)
    first = S.choose("before", 4)
    if first == 1:
        c.z2Dc(S.j([S.num(Q(6, 5))]), dz=k.dz)
    elif first == 2:
        c.z2DL(S.j([S.num(2)]), dz=k.dz)
    elif first == 3:
        c.z2DL(S.j([S.num(Q(1, 4))]), dz=k.dz)
    n0 = S.shape(c.z)[0]
    zs, D, _ = k.table(7)
    L = [(1 + v) * d for v, d in zip(zs, D)]
    what = S.choose("what", 3)
    if what == 0:
        S.prove_eq("distance", S.elems(c.z2Dc(S.j([z, S.num(Q(1, 4))]), dz=k.dz))[0], interp(S, z, zs, D))
    elif what == 1:
        S.prove_eq("luminosity distance", S.elems(c.z2DL(S.j([z, S.num(Q(1, 4))]), dz=k.dz))[0], interp(S, z, zs, L))
    else:
        f = k.dD(z)
        d = interp(S, z, zs, D)
        S.prove_eq("volume element", S.elems(c.dVcdz(S.j([z]), dz=k.dz))[0], 4 * S.pi * d * d * f)
    n = S.shape(c.z)[0]
    S.prove_ge("table reaches the request", S.at(c.z, n - 1), z)
    S.prove_true("still consistent", S.shape(c.Dc)[0] == n and S.shape(c.Vc)[0] == n)
    for i in range(min(n, n0)):
        S.prove_eq("nodes kept", S.at(c.z, i), zs[i])
        S.prove_eq("distances kept", S.at(c.Dc, i), D[i])


@harness(time=200)
def inverse_beyond(S):
    """a distance beyond the table extends it and is inverted by the same rule"""
    k = Cosmo(S, rad=False, om=S.choose("matter", [0, 1]))
    c = k.c
    zs, D, _ = k.table(5)
    L = [(1 + v) * d for v, d in zip(zs, D)]
    x = S.real("L", 1000, 30000)
    S.assume(S.gt(x, L[2]), S.lt(x, L[4]))
    if not S.sym:
        S.assume(S.gt(x, L[2] + 1), S.lt(x, L[4] - 1), S.gt(S.abs(x - L[3]), 1))
    z = S.elems(c.DL2z(S.j([x]), dz=k.dz))[0]
    S.prove_eq("redshift", z, interp(S, x, L, zs))


@harness()
def flat_only(S):
    Ho, om, ora, ol = S.real("Ho", 50000, 100000), S.real("Om", 0, 1), S.real("Or", 0, 1), S.real("Ol", 0, 1)
    S.assume(S.ne(om + ora + ol, 1))
    if not S.sym:
        S.assume(S.gt(S.abs(om + ora + ol - 1), 1e-6))
    S.raises("curved universes are refused", lambda: S.module(C).Cosmology(Ho, om, ora, ol, max_z=1, dz=S.num(Q(1, 2))), (AssertionError, ValueError))
