"""C30: the analytic reference solutions are solutions.

Each function of the analytics modules is driven with random sources, points, frequencies, times and media and compared
with an independent construction: fields of dipoles from the derivatives of one scalar kernel (exp(-ikr)/4 pi r, or
erf(theta r)/4 pi r in time), half-space responses by quadrature of the Sommerfeld integral, spheres by the point-mass or
dipole outside and uniform fields inside (with continuity across the surface and vanishing divergence), potentials of
electrodes by summing poles, layered magnetotellurics by Wait's recursion, relaxation models by integrating over their
relaxation times.
"""
import numpy as np
from scipy.constants import G as GRAV, epsilon_0, mu_0
from scipy.special import erf, j0

from .core import case, quiet

RULE = "every analytic function == independent construction from scalar kernels, quadrature or pole sums"
REQUIRED = {"frequency fields": 300, "time fields": 200, "half-space values": 60, "electrode potentials": 150, "sphere fields": 200, "layered impedances": 80, "relaxations": 60}


def grad_hess(dg, ddg, d):
    """gradient and Hessian of a radial function from its first and second radial derivatives"""
    r = np.sqrt((d**2).sum(1))
    u = d / r[:, None]
    uu = u[:, :, None] * u[:, None, :]
    g = dg[:, None] * u
    H = ddg[:, None, None] * uu + (dg / r)[:, None, None] * (np.eye(3)[None] - uu)
    return g, H


def helmholtz(d, k):
    r = np.sqrt((d**2).sum(1))
    g = np.exp(-1j * k * r) / (4 * np.pi * r)
    dg = -(1 / r + 1j * k) * g
    ddg = (1 / r**2) * g + (1 / r + 1j * k) ** 2 * g
    gr, H = grad_hess(dg, ddg, d)
    return g, gr, H


def fd_fields(d, m, sig, f, mu, eps):
    """(electric dipole: a, e, h), (magnetic dipole: e, h) of a moment m at the offsets d"""
    w = 2 * np.pi * f
    sh = sig + 1j * w * eps
    k = np.sqrt(-1j * w * mu * sh)
    if k.imag > 0:
        k = -k
    g, gr, H = helmholtz(d, k)
    curl = np.cross(gr, m)
    core = np.einsum("nij,j->ni", H, m) + k**2 * g[:, None] * m
    return (g[:, None] * m, core / sh, curl), (-1j * w * mu * curl, core)


def points(rng, n, scale):
    u = rng.normal(size=(n, 3))
    u /= np.linalg.norm(u, axis=1)[:, None]
    if rng.random() < 0.3:
        u[0] = np.eye(3)[rng.integers(3)] * rng.choice([-1, 1])
    return u * (scale * 10.0 ** rng.uniform(-1, 1, n))[:, None]


def moments(rng):
    s = rng.choice(["X", "Y", "Z", "vec"])
    if s == "vec":
        v = rng.normal(size=3)
        if rng.random() < 0.3:
            v[rng.integers(3)] = 0
        return v if rng.random() < 0.5 else list(v), v
    return str(s), np.eye(3)["XYZ".index(s)]


def comps(ctx, got, ref, key, rtol=1e-8):
    got = np.stack([np.asarray(v).ravel() for v in got], axis=1)
    ctx.check(got.shape == ref.shape, key + " shape", f"{got.shape} {ref.shape}")
    scale = np.abs(ref).max(axis=1)
    for i in range(ref.shape[0]):
        ctx.close(got[i], ref[i], key, rtol=rtol, scale=scale[i])


@case("C30", "frequency", quick=8, thorough=30)
def frequency(ctx):
    from simpeg.electromagnetics.analytics import FDEM
    from simpeg.electromagnetics.analytics import FDEMDipolarfields as D

    rng = ctx.rng
    for _ in range(ctx.n(10, 20)):
        f = float(10.0 ** rng.uniform(-2, 8))
        sig = float(10.0 ** rng.uniform(-5, 1))
        mur, epsr = float(rng.choice([1.0, rng.uniform(1, 5)])), float(rng.choice([1.0, rng.uniform(1, 80)]))
        mu, eps = mu_0 * mur, epsilon_0 * epsr
        src = rng.uniform(-50, 50, 3)
        n = int(rng.integers(1, 6))
        k = np.sqrt(-2j * np.pi * f * mu * (sig + 2j * np.pi * f * eps))
        d = points(rng, n, min(1.0 / abs(k), 1e3))
        xyz = src + d
        d = xyz - src
        arg = xyz[0] if n == 1 and rng.random() < 0.5 else xyz
        mo, m = moments(rng)
        kw = {}
        if mur != 1:
            kw["mu_r"] = mur
        if epsr != 1 or rng.random() < 0.5:
            kw["eps_r"] = epsr
        (ea, ee, eh), (me, mh) = fd_fields(d, m, sig, f, mu, eps)
        for fn, name, refs in ((FDEM.ElectricDipoleWholeSpace, "electric dipole", {"e": ee, "h": eh, "b": mu * eh}), (FDEM.MagneticDipoleWholeSpace, "magnetic dipole", {"e": me, "h": mh, "b": mu * mh})):
            for ft, ref in refs.items():
                with ctx.guard():
                    comps(ctx, fn(arg, src, sig, f, mo, fieldType=ft, **kw), ref, f"{ft} of the {name}")
                    ctx.event("frequency fields", n)
        # dependence on several frequencies at one point
        fs = f * np.r_[1.0, 2.0, 0.3]
        with ctx.guard():
            got = np.stack(FDEM.MagneticDipoleWholeSpace(xyz[0], src, sig, fs, mo, fieldType="h", **kw), axis=1)
            ref = np.stack([fd_fields(d[:1], m, sig, q, mu, eps)[1][1][0] for q in fs])
            for i in range(3):
                ctx.close(got[i], ref[i], "h of the magnetic dipole at several frequencies", rtol=1e-8, scale=np.abs(ref[i]).max())
            ctx.event("frequency fields", 3)
        # separate module, one orientation
        o = "XYZxyz"[rng.integers(6)]
        I, L = float(rng.uniform(0.5, 5)), float(rng.uniform(0.1, 3))
        m = np.eye(3)["XYZ".index(o.upper())] * I * L
        kap = mur - 1
        a, e, h = fd_fields(d, m, sig, f, mu, eps)[0]
        sh = sig + 2j * np.pi * f * eps
        ind = -2j * np.pi * f * mu * a
        F = np.r_[f]
        kw = dict(current=I, length=L, orientation=o, kappa=kap, epsr=epsr)
        table = {"E": e, "E_inductive": ind, "E_galvanic": e - ind, "J": sig * e, "J_inductive": sig * ind, "J_galvanic": sig * (e - ind), "H": h, "B": mu * h, "A": a}
        for nm, ref in table.items():
            with ctx.guard():
                got = getattr(D, nm + "_from_ElectricDipoleWholeSpace")(xyz, src, sig, F, **kw)
                sc = e * (sig if nm.startswith("J") else 1)
                if nm.endswith("galvanic"):  # difference of two parts
                    got = np.stack(got, axis=1)
                    for i in range(n):
                        ctx.close(got[i], ref[i], f"{nm} of the electric dipole", rtol=1e-7, scale=max(np.abs(sc[i]).max(), np.abs(ref[i]).max()))
                else:
                    comps(ctx, got, ref, f"{nm} of the electric dipole")
                ctx.event("frequency fields", n)


@case("C30", "time", quick=6, thorough=24)
def time(ctx):
    from simpeg.electromagnetics.analytics import TDEM

    rng = ctx.rng
    for _ in range(ctx.n(10, 20)):
        t = float(10.0 ** rng.uniform(-6, -1))
        sig = float(10.0 ** rng.uniform(-4, 1))
        mur = float(rng.choice([1.0, rng.uniform(1, 5)]))
        mu = mu_0 * mur
        th = np.sqrt(mu * sig / (4 * t))
        src = rng.uniform(-50, 50, 3)
        n = int(rng.integers(1, 6))
        d = points(rng, n, 1.0)
        d *= (rng.uniform(0.3, 3.0, n) / th / np.linalg.norm(d, axis=1))[:, None]
        src = src if np.abs(d).max() > 0.1 else src * 0
        xyz = src + d
        d = xyz - src
        r = np.linalg.norm(d, axis=1)
        x = th * r
        E, c = np.exp(-(x**2)), 2 / np.sqrt(np.pi)
        # g = erf(th r)/(4 pi r)
        dg = (c * th * E / r - erf(x) / r**2) / (4 * np.pi)
        ddg = (-2 * c * th**3 * E - 2 * c * th * E / r**2 + 2 * erf(x) / r**3) / (4 * np.pi)
        gr, H = grad_hess(dg, ddg, d)
        lap = np.trace(H, axis1=1, axis2=2)
        # time derivative: dg/dt = c E dth/dt/(4 pi), dth/dt = -th/(2 t)
        ths = -th / (2 * t)
        p = c * ths / (4 * np.pi)
        gt, Ht = grad_hess(-2 * th**2 * r * E * p, (-2 * th**2 + 4 * th**4 * r**2) * E * p, d)
        lapt = np.trace(Ht, axis1=1, axis2=2)
        mo, m = moments(rng)

        def cc(Hs, l):
            return np.einsum("nij,j->ni", Hs, m) - l[:, None] * m

        curl, curlt = np.cross(gr, m), np.cross(gt, m)
        mag = {"h": cc(H, lap), "dhdt": cc(Ht, lapt), "e": -mu * curlt}
        ele = {"e": cc(H, lap) / sig, "h": curl, "dhdt": curlt}
        kw = {} if mur == 1 else {"mu_r": mur}
        for fn, name, refs in ((TDEM.TransientMagneticDipoleWholeSpace, "magnetic dipole", mag), (TDEM.TransientElectricDipoleWholeSpace, "electric dipole", ele)):
            for ft, ref in refs.items():
                with ctx.guard():
                    comps(ctx, fn(xyz, src, sig, t, mo, fieldType=ft, **kw), ref, f"{ft} of the switched-off {name}", rtol=1e-6)
                    ctx.event("time fields", n)


def hz_secondary(r, q):
    """secondary vertical field at distance r on a half-space with q = i omega mu sigma, by quadrature"""
    L = 400.0 / r
    x, w = np.polynomial.legendre.leggauss(12)
    edges = np.concatenate([np.linspace(0, 20, 161)[:-1], np.linspace(20, 400, 761)]) / r
    a, b = edges[:-1], edges[1:]
    lam = (0.5 * (b - a)[:, None] * x + 0.5 * (a + b)[:, None]).ravel()
    ww = (0.5 * (b - a)[:, None] * w).ravel()
    u = np.sqrt(lam**2 + q)
    R = -((q / (u + lam)) ** 2) / q
    f = lam**2 * R + q / 4 - 0.125 * q**2 / (lam**2 + 1 / r**2)
    # int J0/(lam^2 + a^2) = pi/(2a) (I0 - L0)(a r) ; a r = 1
    from scipy.special import iv, modstruve

    tail = 0.125 * q**2 * np.pi * r / 2 * (iv(0, 1.0) - modstruve(0, 1.0))
    return (np.sum(ww * f * j0(lam * r)) - q / 4 / r + tail) / (4 * np.pi)


@case("C30", "halfspace", quick=4, thorough=16)
def halfspace(ctx):
    from simpeg.electromagnetics.analytics import FDEM, TDEM

    rng = ctx.rng
    for _ in range(ctx.n(5, 8)):
        sig = float(10.0 ** rng.uniform(-3, 0))
        r = float(10.0 ** rng.uniform(0.5, 2.5))
        x2 = 10.0 ** rng.uniform(-1, 1.3, 3)  # induction numbers |q| r^2
        mu = mu_0 * float(rng.choice([1.0, 1.0, 2.0]))
        freqs = x2 / (2 * np.pi * mu * sig * r**2)
        with ctx.guard():
            ref = np.array([hz_secondary(r, 2j * np.pi * f * mu * sig) for f in freqs])
            for secondary in (True, False):
                got = np.ravel(FDEM.hzAnalyticDipoleF(r * rng.choice([-1, 1]), freqs, sig, secondary=secondary, mu=mu))
                full = ref + (0 if secondary else -1 / (4 * np.pi * r**3))
                for i in range(3):
                    ctx.close(got[i:i + 1], full[i:i + 1], "hz on a half-space", rtol=1e-3, scale=abs(full[i]) if not secondary else abs(ref[i]))
                ctx.event("half-space values", 3)
        # switched off: hz(t) is -2/pi int Im(h) / w cos(w t); over a decaying spectrum the sum is done on a log grid
        tt = mu_0 * sig * r**2 * 10.0 ** rng.uniform(-1.0, 1.0, 2)
        with ctx.guard():
            got = np.ravel(TDEM.hzAnalyticDipoleT(r, tt, sig))
            ref = np.array([stehfest(lambda s: hz_secondary(r, s * mu_0 * sig), t) for t in tt])
            # step-off: total before minus step-on of the total = -(step-on of the secondary) at late times
            for i in range(2):
                ctx.close(got[i:i + 1], -ref[i:i + 1], "hz of a switched-off dipole on a half-space", rtol=2e-2, scale=max(abs(ref[i]), 1e-2 / (4 * np.pi * r**3)))
            ctx.event("half-space values", 2)
        a = r
        tt = mu_0 * sig * a**2 * 10.0 ** rng.uniform(-1.0, 1.5, 2)
        with ctx.guard():
            got = np.ravel(TDEM.hzAnalyticCentLoopT(a, tt, sig))
            x, w = np.polynomial.legendre.leggauss(40)
            lo = 0.02 * a
            rr = 0.5 * (a - lo) * x + 0.5 * (a + lo)
            for i, t in enumerate(tt):
                # disk of dipoles with total strength of the loop; r**-3 of the static field is not in the decay
                h = np.array([dipole_decay(q, t, sig) for q in rr])
                h0 = dipole_decay(lo, t, sig)
                ref = np.sum(0.5 * (a - lo) * w * 2 * np.pi * rr * h) + np.pi * lo**2 * h0
                ctx.close(got[i:i + 1], np.r_[ref], "hz at the centre of a switched-off loop", rtol=1e-3)
            ctx.event("half-space values", 2)


def dipole_decay(r, t, sig):
    """switched-off vertical dipole on a half-space, by the power series or the closed form of its Laplace inverse"""
    x = np.sqrt(mu_0 * sig / (4 * t)) * r
    if x < 1.0:
        # (9/(2x^2) - 1) erf x - (9/x + 4x) exp(-x^2)/sqrt(pi), expanded term by term
        tot = 0.0
        from math import factorial

        for n in range(0, 40):
            ea = (-1) ** n / factorial(n)
            # coefficients of x^(2n+1) in erf*sqrt(pi)/2 and exp
            e1 = ea / (2 * n + 1) * 2
            tot += e1 * (4.5 * x ** (2 * n - 1) - x ** (2 * n + 1)) - ea * (9 * x ** (2 * n - 1) + 4 * x ** (2 * n + 1))
        val = tot / np.sqrt(np.pi)
    else:
        val = (4.5 / x**2 - 1) * erf(x) - (9 / x + 4 * x) * np.exp(-(x**2)) / np.sqrt(np.pi)
    return val / (4 * np.pi * r**3)


def stehfest(F, t, N=12):
    from math import factorial

    out = 0.0
    a = np.log(2) / t
    for i in range(1, N + 1):
        v = 0.0
        for k in range((i + 1) // 2, min(i, N // 2) + 1):
            v += k ** (N // 2) * factorial(2 * k) / (factorial(N // 2 - k) * factorial(k) * factorial(k - 1) * factorial(i - k) * factorial(2 * k - i))
        out += (-1) ** (i + N // 2) * v * np.real(F(i * a)) / (i * a)
    return out * a


@case("C30", "electrodes", quick=4, thorough=16)
def electrodes(ctx):
    from simpeg.electromagnetics.analytics import DC

    rng = ctx.rng
    for _ in range(ctx.n(10, 20)):
        sig = float(10.0 ** rng.uniform(-4, 1))
        if rng.random() < 0.3:
            sig = sig * (1 + 0.3j)
        I = float(rng.uniform(-3, 3))
        n = int(rng.integers(1, 5))
        A, B = rng.uniform(-100, 100, 3), rng.uniform(-100, 100, 3)
        M, N = rng.uniform(-100, 100, (n, 3)), rng.uniform(-100, 100, (n, 3))
        et = str(rng.choice(["wholespace", "halfspace"]))
        s = (2.0 if et == "halfspace" else 1.0) * I / (4 * np.pi * sig)

        def pot(P, Q):
            return s / np.linalg.norm(Q - P, axis=1)

        kw = dict(current=I, earth_type=et)
        for nm, args, ref in (
            ("Pole_Pole", (A, M), pot(A, M)),
            ("Pole_Dipole", (A, [M, N]), pot(A, M) - pot(A, N)),
            ("Dipole_Pole", ([A, B], M), pot(A, M) - pot(B, M)),
            ("Dipole_Dipole", ([A, B], [M, N]), pot(A, M) - pot(A, N) - pot(B, M) + pot(B, N)),
        ):
            with ctx.guard():
                got = getattr(DC, "DCAnalytic_" + nm)(*args, sig, **kw)
                ctx.close(np.asarray(got), ref, "potential " + nm, rtol=1e-10, scale=np.abs(s) / 10)
                ctx.event("electrode potentials", n)
        # sphere
        sig = abs(sig)
        s1 = sig * float(10.0 ** rng.uniform(-2, 2))
        R = float(rng.uniform(1, 20))
        xc = float(rng.uniform(-30, 30))
        tx = np.r_[xc + rng.choice([-1, 1]) * R * rng.uniform(2.5, 5), rng.uniform(-20, 20), 0.0]
        u = rng.normal(size=(6, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        cen = np.r_[xc, tx[1], 0.0]
        hs = bool(rng.integers(2))
        kw = dict(order=40, halfspace=hs)

        def phi(p, ft="total"):
            return DC.DCAnalyticSphere(tx, p, xc, R, sig, s1, field_type=ft, **kw)

        with ctx.guard(), np.errstate(all="ignore"):
            sc = (2 if hs else 1) / (4 * np.pi * sig * np.linalg.norm(tx - cen))
            pin, pout = phi(cen + u * (R - 1e-9 * R)), phi(cen + u * (R + 1e-9 * R))
            ctx.close(pin, pout, "potential across the sphere", rtol=1e-6, scale=sc)
            e = 1e-3 * R

            def slope(q):  # outward derivative at the surface, from one side
                return (-3 * phi(cen + u * (R + np.sign(q) * 1e-12 * R)) + 4 * phi(cen + u * (R + q)) - phi(cen + u * (R + 2 * q))) / (2 * q)

            fi, fo = s1 * slope(-e), sig * slope(e)
            ctx.close(fi, fo, "current across the sphere", rtol=1e-3, scale=max(np.abs(fo).max(), sc * sig / R * 1e-2))
            q = cen + u * (R * rng.uniform(1.1, 1.8, 6))[:, None]
            prim = (2 if hs else 1) / (4 * np.pi * sig * np.linalg.norm(q - tx, axis=1))
            ctx.close(phi(q, "primary"), prim, "primary potential of the sphere", rtol=1e-9)
            ctx.close(phi(q), phi(q, "primary") + phi(q, "secondary"), "total == primary + secondary of the sphere", rtol=1e-9, scale=sc)
            far = phi(cen + u * R * 100, "secondary")
            ctx.check(np.abs(far).max() < sc * 1e-2, "secondary potential far from the sphere", f"{far} {sc}")
            for w in (q, cen + u * (R * rng.uniform(0.2, 0.8, 6))[:, None]):
                hh = 0.02 * R
                st = [phi(w + hh * v) for v in np.vstack([np.eye(3), -np.eye(3)])]
                lap = sum(st) - 6 * phi(w)
                ctx.close(lap, 0 * lap, "Laplace equation of the sphere", rtol=2e-5, scale=sc)
            ctx.event("electrode potentials", 30)


@case("C30", "spheres", quick=4, thorough=16)
def spheres(ctx):
    from simpeg.potential_fields.gravity import analytics as ga
    from simpeg.potential_fields.magnetics import analytics as ma
    import discretize

    rng = ctx.rng
    for _ in range(ctx.n(8, 16)):
        R = float(rng.uniform(1, 30))
        c = rng.uniform(-50, 50, 3)
        n = 8
        u = rng.normal(size=(n, 3))
        u /= np.linalg.norm(u, axis=1)[:, None]
        rad = R * np.where(rng.random(n) < 0.5, rng.uniform(0.1, 0.95, n), rng.uniform(1.05, 6, n))
        whole = rng.random() < 0.25
        p = c + u * rad[:, None]
        if whole:
            p = np.round(p).astype(int)
        d = p - c
        r = np.linalg.norm(d, axis=1)
        ok = (np.abs(r - R) > 0.01 * R) & (r > 0.05 * R)
        p, d, r = p[ok], d[ok], r[ok]
        if not len(p):
            continue
        ins = r < R
        rho = float(rng.uniform(-3, 3))
        V = 4 / 3 * np.pi * R**3
        xyz = tuple(p.T)
        with ctx.guard():
            m = np.where(ins, 4 / 3 * np.pi * r**3, V) * rho
            ref = -GRAV * 1e8 * (m / r**3)[:, None] * d
            comps(ctx, ga.GravSphereFreeSpace(*xyz, R, *c, rho), ref, "gravity of a sphere")
            T = np.where(ins[:, None, None], -4 / 3 * np.pi * np.eye(3)[None], V * (3 * d[:, :, None] * d[:, None, :] / r[:, None, None] ** 5 - np.eye(3)[None] / r[:, None, None] ** 3)) * GRAV * rho * 1e12
            got = ga.GravityGradientSphereFreeSpace(*xyz, R, *c, rho)
            iu = [(0, 0), (0, 1), (0, 2), (1, 1), (1, 2), (2, 2)]
            for i in range(len(p)):
                ctx.close(np.array([g[i] for g in got]), np.array([T[i][k] for k in iu]), "gravity gradient " + ("inside" if ins[i] else "outside") + " a sphere", rtol=1e-9, scale=np.abs(T[i]).max())
            ctx.event("sphere fields", 2 * len(p))
        # magnetic
        chi = float(10.0 ** rng.uniform(-4, 1))
        B0 = rng.normal(size=3) * 50000

        def dip(mom, dd):
            rr = np.linalg.norm(dd, axis=-1, keepdims=True)
            return (3 * (dd @ mom)[..., None] * dd / rr**5 - mom / rr**3) / (4 * np.pi)

        sec = np.where(ins[:, None], B0 * (3 * (1 + chi) / (3 + chi) - 1), dip(B0 * chi / (1 + chi / 3) * V, d))
        for flag, ref in (("secondary", sec), ("total", sec + B0)):
            with ctx.guard():
                comps(ctx, ma.MagSphereAnaFunA(*xyz, R, *c, chi, B0, flag), ref, f"{flag} field of a magnetic sphere", rtol=1e-7)
                mu1 = mu_0 * float(rng.choice([1.0, 1.5]))
                H0 = float(rng.uniform(10, 50))
                b = np.r_[mu1 * H0, 0, 0]
                s2 = np.where(ins[:, None], b * (3 * (1 + chi) / (3 + chi) - 1), dip(b * chi / (1 + chi / 3) * V, d))
                comps(ctx, ma.MagSphereAnaFun(*xyz, R, *c, mu1, mu1 * (1 + chi), H0, flag=flag), s2 + (b if flag == "total" else 0), f"{flag} field of a sphere in an x field", rtol=1e-7)
                ctx.event("sphere fields", 2 * len(p))
        if (~ins).any():
            with ctx.guard():
                q = p[~ins]
                bx, by, bz, tmi = ma.MagSphereFreeSpace(*q.T, R, *c, chi, B0)
                ref = dip(B0 * chi * V, d[~ins])
                comps(ctx, (bx, by, bz), ref, "field outside a weakly magnetic sphere")
                ctx.close(tmi, ref @ B0 / np.linalg.norm(B0), "total field anomaly of a sphere", rtol=1e-9, scale=np.abs(ref).max())
                ctx.event("sphere fields", len(q))
        inc, dec, bt = rng.uniform(-90, 90), rng.uniform(-180, 180), rng.uniform(1, 6e4)
        with ctx.guard():
            b = ma.IDTtoxyz(inc, dec, bt)
            ctx.close(b, bt * np.r_[np.cos(np.deg2rad(inc)) * np.sin(np.deg2rad(dec)), np.cos(np.deg2rad(inc)) * np.cos(np.deg2rad(dec)), np.sin(np.deg2rad(inc))], "field from inclination and declination", rtol=1e-10, scale=bt)
            h = [rng.uniform(1, 3, 4), rng.uniform(1, 3, 5), rng.uniform(1, 3, 3)]
            mesh = discretize.TensorMesh(h, origin=rng.uniform(-5, 5, 3))
            x = np.where(rng.random(mesh.n_cells) < 0.3, rng.uniform(0.01, 0.5, mesh.n_cells), 0.0)
            x[mesh.n_cells // 2] = 0.2
            bc, const = ma.CongruousMagBC(mesh, B0, x)
            on = x > 0
            v = mesh.cell_volumes[on].sum()
            gam = (x * mesh.cell_volumes).sum() / v
            cc = (x[:, None] * mesh.cell_centers).sum(0) / x.sum()
            mom = B0 * gam * v / (1 + gam / 3)
            ib = mesh.face_boundary_indices
            ref = np.concatenate([dip(mom, g[ib[2 * k] | ib[2 * k + 1]] - cc)[:, k] for k, g in enumerate((mesh.faces_x, mesh.faces_y, mesh.faces_z))])
            ctx.close(bc, ref, "boundary field of the congruous sphere", rtol=1e-8, scale=np.abs(ref).max())
            ctx.event("sphere fields", 5)


def wait(f, th, sig, mu, eps):
    w = 2 * np.pi * f
    k = np.sqrt(1j * w * mu * (sig + 1j * w * eps))
    z = 1j * w * mu / k
    Z = z[-1]
    for i in range(len(sig) - 2, -1, -1):
        t = np.tanh(k[i] * th[i])
        Z = z[i] * (Z + z[i] * t) / (z[i] + Z * t)
    return Z


@case("C30", "layers", quick=4, thorough=16)
def layers(ctx):
    from simpeg.electromagnetics.analytics import MT_LayeredEarth
    from simpeg.electromagnetics.utils import em1d_utils as u1

    rng = ctx.rng
    for _ in range(ctx.n(10, 20)):
        n = int(rng.integers(1, 6))
        sig = 10.0 ** rng.uniform(-4, 1, n)
        th = 10.0 ** rng.uniform(0.5, 2.5, n - 1)
        F = 10.0 ** rng.uniform(-3, 3, int(rng.integers(1, 4)))
        kw = {}
        mu, eps = np.full(n, mu_0), np.full(n, epsilon_0)
        if rng.random() < 0.3:
            mu = mu_0 * rng.uniform(1, 3, n)
            kw["mu_r"] = mu / mu_0
        if rng.random() < 0.3:
            eps = epsilon_0 * rng.uniform(1, 30, n)
            kw["eps_r"] = eps / epsilon_0
        cc = rng.random() < 0.3
        if cc:
            chg, tau, c = rng.uniform(0.05, 0.8, n), 10.0 ** rng.uniform(-3, 1, n), rng.uniform(0.3, 1, n)
            kw.update(chg=chg, tau=tau, c=c)
        targ = th
        if n == 1:
            targ = [None, 0.0, np.empty(0)][rng.integers(3)]
        elif n == 2 and rng.random() < 0.5:
            targ = float(th[0])
        sarg = float(sig[0]) if n == 1 and not kw and rng.random() < 0.5 else sig
        farg = float(F[0]) if F.size == 1 and rng.random() < 0.5 else F
        ref = []
        for f in F:
            s = sig * (1 - chg / (1 + (2j * np.pi * f * tau) ** c)) if cc else sig
            ref.append(wait(f, th, s, mu, eps))
        ref = np.array(ref)
        with ctx.guard(), np.errstate(all="ignore"):
            Z = np.ravel(MT_LayeredEarth(farg, targ, sarg, return_type="Impedance", **kw))
            for i in range(F.size):
                ctx.close(Z[i:i + 1], ref[i:i + 1], "impedance of layers", rtol=1e-6)
            res, ph = MT_LayeredEarth(farg, targ, sarg, **kw)
            ctx.close(np.ravel(res), np.abs(ref) ** 2 / (mu_0 * 2 * np.pi * F), "apparent resistivity of layers", rtol=1e-6)
            ctx.close(np.ravel(ph), np.angle(ref, deg=True), "phase of layers", rtol=1e-5)
            ctx.event("layered impedances", 3 * F.size)
        # relaxation models
        f = 10.0 ** rng.uniform(-2, 5, 3)
        e, t, c = rng.uniform(0, 0.9), 10.0 ** rng.uniform(-5, 1), rng.uniform(0.2, 1)
        with ctx.guard():
            # Pelton resistivity rho0 (1 - e (1 - 1/(1 + (i w t)^c)))
            s = float(sig[0])
            rho0 = 1 / (s * (1 - e))
            ref = 1 / (rho0 * (1 - e * (1 - 1 / (1 + (2j * np.pi * f * t) ** c))))
            ctx.close(u1.ColeCole(f, s, e, t, c), ref, "Cole-Cole conductivity", rtol=1e-10, scale=s)
            got = u1.ColeCole(f, sig, e, t, c)
            ctx.close(got, ref[:, None] * sig[None] / s, "Cole-Cole conductivity of several layers", rtol=1e-10, scale=sig.max())
            t1 = 10.0 ** rng.uniform(-6, -3)
            t2 = t1 * 10.0 ** rng.uniform(1, 5)
            x, w = np.polynomial.legendre.leggauss(80)
            lt = 0.5 * (np.log(t2) - np.log(t1)) * x + 0.5 * (np.log(t2) + np.log(t1))
            ref = 0.02 + 0.07 * np.array([np.sum(0.5 * w / (1 + 2j * np.pi * q * np.exp(lt))) for q in f])
            ctx.close(u1.LogUniform(f, 0.02, 0.07, t1, t2), ref, "log-uniform susceptibility", rtol=1e-7, scale=0.09)
            ctx.event("relaxations", 3)


@case("C30", "casing", quick=3, thorough=10)
def casing(ctx):
    from simpeg.electromagnetics.analytics import FDEMcasing as K

    rng = ctx.rng
    for _ in range(ctx.n(6, 12)):
        f = float(10.0 ** rng.uniform(-1, 4))
        sig = 10.0 ** rng.uniform(-3, 1, 3)
        mu = mu_0 * (np.ones(3) if rng.random() < 0.5 else rng.uniform(1, 5, 3))
        a = float(rng.uniform(0.05, 0.2))
        b = a + float(rng.uniform(0.005, 0.05))
        mom = float(rng.uniform(0.5, 3))
        src = rng.uniform(-5, 5, 3)
        n = int(rng.integers(1, 5))
        d = points(rng, n, 10.0)
        d[:, :2] += np.where(d[:, :2] < 0, -0.5, 0.5)
        obs = src + d
        d = obs - src
        w = 2 * np.pi * f
        k1, k2 = (np.sqrt(w**2 * mu[i] * epsilon_0 - 1j * w * mu[i] * sig[i]) for i in (1, 2))
        m = mom * np.sqrt(b / a) * np.exp(-1j * k1 * (b - a))
        g, gr, H = helmholtz(d, k2)
        rh = np.hypot(d[:, 0], d[:, 1])
        er = np.c_[d[:, :2] / rh[:, None], np.zeros(n)]
        ref = {
            "Ephi": 1j * w * mu[2] * m * (gr * er).sum(1),
            "Hr": m * np.einsum("ni,ni->n", H[:, :, 2], er),
            "Hz": m * (H[:, 2, 2] + k2**2 * g),
        }
        ref["Br"], ref["Bz"] = mu[2] * ref["Hr"], mu[2] * ref["Hz"]
        sc = {"Ephi": np.abs(w * mu[2] * m * np.linalg.norm(gr, axis=1)), "H": np.abs(m) * (np.abs(H).max((1, 2)) + np.abs(k2**2 * g))}
        for nm, v in ref.items():
            with ctx.guard():
                got = np.ravel(getattr(K, f"getCasing{nm}MagDipole")(src, obs, f, sig, a, b, mu=tuple(mu) if rng.random() < 0.5 else mu, moment=mom))
                ctx.check(got.shape == v.shape, nm + " of a dipole in a casing: shape", f"{got.shape}")
                s = sc["Ephi"] if nm == "Ephi" else sc["H"] * (mu[2] if nm[0] == "B" else 1)
                for i in range(n):
                    ctx.close(got[i:i + 1], v[i:i + 1], nm + " of a dipole in a casing", rtol=1e-8, scale=s[i])
                ctx.event("frequency fields", n)
