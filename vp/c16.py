"""C16: electrical simulations obey reciprocity, superposition, scaling and reduce to the half-space.

Metamorphic monitor: the potentials of unit poles at a random set of electrodes are predicted once; every other layout
(dipoles, multipoles, other currents, exchanged electrodes, apparent resistivities, chargeabilities, self-potentials)
must then be the corresponding combination. Independent image solutions check the half-space.
"""
import numpy as np

from .core import case, quiet
from .scen import rough, tensor2, tensor3, tree2, tree3

RULE = "data of any layout == combination of unit-pole potentials; V_ij == V_ji; V(c rho) == c V(rho)"
REQUIRED = {"layouts": 150, "reciprocal pairs": 300, "half-space data": 25, "chargeabilities": 40, "self-potentials": 10}

CASES = [(3, "CC", "Robin"), (3, "CC", "Dirichlet"), (3, "CC", "Neumann"), (3, "N", "Robin"), (3, "N", "Neumann"), (2, "CC", "Robin"), (2, "CC", "Dirichlet"), (2, "CC", "Neumann"), (2, "N", "Robin"), (2, "N", "Neumann")]


def sim_of(dim, form, bc, mesh, survey, **kw):
    from simpeg.electromagnetics.static import resistivity as dc

    cls = getattr(dc, f"Simulation{dim}D" + ("CellCentered" if form == "CC" else "Nodal"))
    if dim == 2:
        kw.setdefault("nky", 9)
    return cls(mesh, survey=survey, bc_type=bc, **kw)


def meshes(rng, dim, tree):
    if dim == 3:
        return tree3(rng, n=8) if tree else tensor3(rng, (6, 5, 5))
    return tree2(rng) if tree else tensor2(rng, (12, 8))


def pick(rng, mesh, form, n):
    """electrodes well apart: at cell centres where sources are put in the nearest cell"""
    lo, hi = mesh.nodes_x[0], mesh.nodes_x[-1]
    L = hi - lo
    cc = mesh.cell_centers
    ctr = cc.mean(axis=0)
    inner = cc[np.all(np.abs(cc - ctr) < 0.33 * L, axis=1)]
    out = []
    for _ in range(2000):
        p = inner[rng.integers(len(inner))]
        if form == "N":
            p = p + rng.uniform(-0.2, 0.2, p.size) * mesh.h[0].min()
        if all(np.linalg.norm(p - q) > L / 12 for q in out):
            out.append(p)
        if len(out) == n:
            break
    return np.array(out)


def poles(dc, E, cur=1.0):
    out = []
    for i, e in enumerate(E):
        o = np.delete(E, i, axis=0)
        out.append(dc.sources.Pole([dc.receivers.Pole(o)], e, current=cur))
    return dc.Survey(out)


@case("C16", "laws", quick=20, thorough=120, cost=2)
def laws(ctx):
    from simpeg.electromagnetics.static import resistivity as dc

    rng = ctx.rng
    dim, form, bc = CASES[ctx.rep % len(CASES)]
    tree = bool((ctx.rep // len(CASES)) % 2) and not (form == "CC" and (bc == "Robin" or bc == "Neumann" and dim == 3))
    mesh = meshes(rng, dim, tree)
    key = f"{dim}D {form} {bc}"
    ctx.label(f"{key} {'tree' if tree else 'tensor'}")
    E = pick(rng, mesh, form, 7)
    n = len(E)
    if n < 6:
        ctx.skip("no room for electrodes")
        return
    nC = mesh.n_cells
    rho = rough(rng, nC, 10, 1000)
    neu = bc == "Neumann"
    # Robin conditions are those of a source in the middle of all electrodes of the survey: keep that middle by placing
    # one source everywhere in each survey
    def run(srcs, **kw):
        with quiet():
            return sim_of(dim, form, bc, mesh, dc.Survey(srcs), **(kw or dict(rho=rho))).dpred(None)

    others = lambda i: np.delete(np.arange(n), i)
    if neu:
        # only neutral sources and potential differences: electrode 0 is common
        ref = [dc.sources.Dipole([dc.receivers.Dipole(E[[j for j in range(1, n) if j != i]], np.repeat(E[:1], n - 2, axis=0))], E[i], E[0]) for i in range(1, n)]
        d = run(ref).reshape(n - 1, n - 2)
        V = np.full((n, n), np.nan)
        V[0], V[:, 0] = 0.0, 0.0
        for i in range(1, n):
            V[i, [j for j in range(1, n) if j != i]] = d[i - 1]
        sub = np.arange(1, n)
    else:
        d = run([dc.sources.Pole([dc.receivers.Pole(E[others(i)])], E[i]) for i in range(n)]).reshape(n, n - 1)
        V = np.full((n, n), np.nan)
        for i in range(n):
            V[i, others(i)] = d[i]
        sub = np.arange(n)
    sc = np.nanmax(np.abs(V))
    for i in sub:
        for j in sub:
            if i < j:
                ctx.event("reciprocal pairs")
                ctx.close(V[i, j], V[j, i], f"reciprocity {key}", rtol=1e-8, scale=sc)

    # every survey below holds one source at each electrode, so that boundary conditions stay the same
    def dip(a, b, m, q, cur=1.0, **kw):
        if neu or b is not None:
            return dc.sources.Dipole([dc.receivers.Dipole(E[[m]], E[[q]], **kw)], E[a], E[b], current=cur)
        return dc.sources.Pole([dc.receivers.Dipole(E[[m]], E[[q]], **kw)], E[a], current=cur)

    def val(a, b, m, q):
        return V[a, m] - V[a, q] - (0 if b is None else V[b, m] - V[b, q])

    for _ in range(ctx.n(3, 6)):
        srcs, exp = [], []
        for _ in range(3):
            p = rng.permutation(sub)
            a, b, m, q = (int(k) for k in p[:4])
            if not neu and rng.random() < 0.3:
                b = None
            cur = float(rng.choice([1.0, -2.5, 0.01, 30.0]))
            srcs.append(dip(a, b, m, q, cur))
            exp.append(cur * val(a, b, m, q))
            if b is not None:
                srcs.append(dip(m, q, a, b, cur))
                exp.append(exp[-1])
        # several electrodes at once
        p = rng.permutation(sub)
        k = int(rng.integers(2, 4))
        I = rng.uniform(-2, 2, k)
        if neu:
            I[-1] = -I[:-1].sum()
        m, q = int(p[-1]), int(p[-2])
        if bc != "Robin":
            srcs.append(dc.sources.Multipole([dc.receivers.Dipole(E[[m]], E[[q]])], E[p[:k]], current=I))
            exp.append(sum(I[t] * val(int(p[t]), None, m, q) for t in range(k)))
        if bc == "Robin":  # fill up, to keep the middle of the sources
            srcs = [s for s in srcs]
            d1 = run_like(ctx, dc, dim, form, bc, mesh, rho, srcs, E)
        else:
            d1 = run(srcs)
        ctx.event("layouts", len(exp))
        ctx.close(d1, np.array(exp), f"superposition {key}", rtol=1e-7, scale=sc)
    # scaling
    c = float(rng.choice([1e-3, 0.1, 7.0, 1e4]))
    src = [dip(*[int(k) for k in rng.permutation(sub)[:4]]) for _ in range(3)]
    d0 = run(src)
    s0 = np.abs(d0).max()
    ctx.close(run(src, rho=c * rho), c * d0, f"scaled resistivity {key}", rtol=1e-7, scale=c * s0)
    ctx.close(run(src, sigma=1 / rho), d0, f"conductivity for resistivity {key}", rtol=1e-9, scale=s0)


def run_like(ctx, dc, dim, form, bc, mesh, rho, srcs, E):
    """data of srcs in a survey whose sources surround the same middle as the reference (Robin conditions)"""
    extra = [dc.sources.Pole([dc.receivers.Pole(np.delete(E, i, axis=0)[:1])], e) for i, e in enumerate(E)]
    n = sum(s.nD for s in srcs)
    sv = dc.Survey(srcs + extra)
    with quiet():
        sim = sim_of(dim, form, bc, mesh, sv, rho=rho)
        return sim.dpred(None)[:n]


# ------------------------------------------------------------------ half-space
def image(A, M, rho):
    """potential at M of a unit pole at A under a flat surface z=0"""
    A, M = np.asarray(A, float), np.asarray(M, float)
    r1 = np.linalg.norm(M - A)
    r2 = np.linalg.norm(M - A * np.r_[1, 1, -1])
    return rho / (4 * np.pi) * (1 / r1 + 1 / r2)


@case("C16", "halfspace", quick=9, thorough=36, cost=4)
def halfspace(ctx):
    import discretize
    from simpeg.electromagnetics.static import resistivity as dc

    rng = ctx.rng
    rho = float(rough(rng, 1, 1, 1000)[0])
    kind = ["3D CC Robin", "3D CC Dirichlet", "3D N Robin", "2D CC Robin", "2D N Robin", "1D", "3D N Neumann", "2D N Neumann", "1D"][ctx.rep % 9]
    ctx.label(kind)
    dim = int(kind[0])
    buried = dim != 1 and bool(rng.integers(2))
    h0 = 5.0
    xs = rng.permutation(np.arange(-8, 8))[:6] * h0
    z = -h0 * rng.integers(0, 3, 6) if buried else np.zeros(6)
    if dim == 1:
        pts = np.c_[rng.uniform(-100, 100, (6, 2)), np.zeros(6)]
    else:
        pts = np.c_[xs, np.zeros(6), z]
    form = kind[3:5].strip()
    if dim > 1:
        pad = h0 * 1.35 ** np.arange(1, 12)
        hx = np.r_[pad[::-1], np.full(24, h0), pad]
        hz = np.r_[pad[::-1], np.full(8, h0)]
        if dim == 3:
            pad = h0 * 1.5 ** np.arange(1, 9)
            hx, hz = np.r_[pad[::-1], np.full(24, h0), pad], np.r_[pad[::-1], np.full(7, h0)]
            hy = np.r_[pad[::-1], np.full(8, h0), pad]
            mesh = discretize.TensorMesh([hx, hy, hz], origin=[-hx.sum() / 2, -hy.sum() / 2, -hz.sum()])
        else:
            mesh = discretize.TensorMesh([hx, hz], origin=[-hx.sum() / 2, -hz.sum()])
    quads = []
    cut = (lambda p: p) if dim != 2 else (lambda p: p[..., [0, 2]])
    srcs = []
    # dipoles of well separated electrodes
    for _ in range(8):
        a, b, m, q = rng.permutation(6)[:4]
        A, B, M, Q = pts[[a, b, m, q]]
        v = image(A, M, rho) - image(A, Q, rho) - image(B, M, rho) + image(B, Q, rho)
        big = sum(abs(image(X, Y, rho)) for X in (A, B) for Y in (M, Q))
        dmin = min(np.linalg.norm(X - Y) for X in (A, B) for Y in (M, Q))
        if dmin < 3 * h0:
            continue
        quads.append((v, big, abs(v) > 0.15 * big))
        kw = dict(data_type="volt")
        srcs.append(dc.sources.Dipole([dc.receivers.Dipole(cut(M[None]), cut(Q[None]), **kw)], cut(A), cut(B)))
    if not srcs:
        ctx.skip("electrodes too close")
        return
    sv = dc.Survey(srcs)
    with quiet():
        nl = int(rng.integers(1, 5))
        thk = rng.uniform(1, 20, nl - 1)

        def make(sv):
            if dim == 1:
                return dc.Simulation1DLayers(survey=sv, thicknesses=thk, rho=np.full(nl, rho))
            bc = kind.split()[-1]
            return sim_of(dim, form, bc, mesh, sv, rho=np.full(mesh.n_cells, rho), **({"nky": 11} if dim == 2 else {}))

        d = make(sv).dpred(None)
    v = np.array([q[0] for q in quads])
    big = np.array([q[1] for q in quads])
    ctx.event("half-space data", len(v))
    tol = 1e-4 if dim == 1 else 0.25 if "Dirichlet" in kind else 0.2
    for k in range(len(v)):
        ctx.close(d[k], v[k], f"half-space voltages {kind}", rtol=tol, scale=big[k])
    # apparent resistivities of these voltages
    if not buried:
        from simpeg.electromagnetics.static.utils import apparent_resistivity_from_voltage

        with quiet():
            ra = apparent_resistivity_from_voltage(sv, v, space_type="half space")
        g = np.array([q[2] for q in quads])
        ctx.close(ra[g], np.full(g.sum(), rho), "apparent resistivity of half-space voltages", rtol=1e-6, scale=rho)
        for s in srcs:
            s.receiver_list[0].data_type = "apparent_resistivity"
        with quiet():
            sv2 = dc.Survey(srcs)
            sv2.set_geometric_factor()
            d2 = make(sv2).dpred(None)
        for k in np.flatnonzero(g):
            ctx.close(d2[k], rho * d[k] / v[k], f"apparent resistivity predicted {kind}", rtol=1e-6, scale=rho)


# ------------------------------------------------------------------ induced polarization
@case("C16", "ip", quick=8, thorough=40, cost=2)
def ip(ctx):
    """chargeabilities: linear, equal to the first-order change of the voltages, and to decays of spectral simulations"""
    from simpeg import maps
    from simpeg.electromagnetics.static import induced_polarization as ips, resistivity as dc, spectral_induced_polarization as sips

    rng = ctx.rng
    dim, form = [(3, "CC"), (3, "N"), (2, "CC"), (2, "N")][ctx.rep % 4]
    mesh = meshes(rng, dim, False)
    key = f"{dim}D {form}"
    ctx.label("ip " + key)
    E = pick(rng, mesh, form, 6)
    if len(E) < 5:
        ctx.skip("no room for electrodes")
        return
    nC = mesh.n_cells
    sig = rough(rng, nC, 1e-3, 1e-1)

    def srv(dt="volt", spectral=None):
        r = np.random.default_rng(5)
        out = []
        for _ in range(4):
            a, b, m, q = r.permutation(len(E))[:4]
            if spectral is not None:
                out.append(sips.sources.Dipole([sips.receivers.Dipole(E[[m]], E[[q]], spectral)], E[a], E[b], current=2.0))
            else:
                out.append(dc.sources.Dipole([dc.receivers.Dipole(E[[m]], E[[q]], data_type=dt)], E[a], E[b], current=2.0))
        return (sips if spectral is not None else dc).Survey(out)

    nm = f"Simulation{dim}D" + ("CellCentered" if form == "CC" else "Nodal")

    def ipsim(dt="volt", **kw):
        return getattr(ips, nm)(mesh, survey=srv(dt), etaMap=maps.IdentityMap(nP=nC), **(kw or dict(sigma=sig)))

    e1, e2 = rng.uniform(0, 0.3, nC), rng.uniform(-0.2, 0.3, nC)
    with quiet():
        d1, d2 = ipsim().dpred(e1), ipsim().dpred(e2)
        dd = ipsim().dpred(2 * e1 - 3 * e2)
        dr = ipsim(rho=1 / sig).dpred(e1)
        v = getattr(dc, nm)(mesh, survey=srv(), sigma=sig).dpred(None)
        h = 1e-3
        f = lambda t: getattr(dc, nm)(mesh, survey=srv(), sigma=sig * np.exp(-t * e1)).dpred(None)
        num = (8 * (f(h) - f(-h)) - (f(2 * h) - f(-2 * h))) / (12 * h)
        ra = ipsim("apparent_chargeability").dpred(e1)
        one = ipsim("apparent_chargeability").dpred(np.full(nC, 0.2))
    sc = np.abs(d1).max()
    ctx.event("chargeabilities", 4 * d1.size)
    ctx.close(dd, 2 * d1 - 3 * d2, f"linear in chargeability {key}", rtol=1e-8, scale=sc * 5)
    ctx.close(dr, d1, f"resistivity for conductivity in ip {key}", rtol=1e-9, scale=sc)
    ctx.close(d1, num, f"ip is not the change of the voltages {key}", rtol=1e-6, scale=sc)
    ctx.close(ra, d1 / v, f"apparent chargeability {key}", rtol=1e-8, scale=np.abs(d1 / v).max())
    # a uniform chargeability scales every voltage alike
    ctx.close(one, np.full(v.size, 0.2), f"apparent chargeability of uniform chargeability {key}", rtol=1e-6, scale=0.2)
    # spectral: the decay multiplies the chargeability
    times = np.sort(rough(rng, 3, 1e-2, 1.0))
    taui, c = rough(rng, nC, 0.5, 20), rng.uniform(0.3, 0.9, nC)
    sv = srv(spectral=times)
    npul = int(rng.integers(0, 4))
    T = float(rng.choice([8.0, 2.0, 4.0]))
    sv._n_pulse, sv._T = npul, T

    def decay(t):
        """step-off, or alternating pulses of a quarter period with a half duty cycle, stacked"""
        off = lambda x: np.exp(-((x * taui) ** c))
        if not npul:
            return off(t)
        return sum((-1) ** k * (npul - k) / npul * (off(t + k * T / 2) - off(t + k * T / 2 + T / 4)) for k in range(npul))

    if True:
        with quiet():
            w = maps.Wires(("eta", nC), ("taui", nC), ("c", nC))
            s = getattr(sips, nm)(mesh, survey=sv, sigma=sig, etaMap=w.eta, tauiMap=w.taui, cMap=w.c, storeJ=bool(rng.integers(2)))
            ds = s.dpred(np.r_[e1, taui, c])
            exp = np.array([ipsim().dpred(e1 * decay(t)) for t in times]).ravel()
        ctx.event("chargeabilities", ds.size)
        ctx.close(np.sort(np.abs(ds)), np.sort(np.abs(exp)), f"spectral decays {key}", rtol=1e-6, scale=np.abs(exp).max())
        ctx.close(ds, exp, f"order of spectral decays {key}", rtol=1e-6, scale=np.abs(exp).max())


@case("C16", "sp", quick=6, thorough=24, cost=2)
def selfpot(ctx):
    """self-potentials of cell currents are those of electrodes in these cells"""
    from simpeg import maps
    from simpeg.electromagnetics.static import resistivity as dc, self_potential as spm

    rng = ctx.rng
    mesh = tensor3(rng, (5, 5, 4))
    bc = ["Dirichlet", "Neumann"][ctx.rep % 2]
    ctx.label("sp " + bc)
    nC = mesh.n_cells
    sig = rough(rng, nC, 1e-3, 1e-1)
    E = pick(rng, mesh, "CC", 5)
    if len(E) < 4:
        ctx.skip("no room for electrodes")
        return
    k = rng.choice(nC, 3, replace=False)
    q = np.zeros(nC)
    q[k] = rng.normal(size=3)
    if bc == "Neumann":
        q[k[-1]] = -(q[k[:-1]] * mesh.cell_volumes[k[:-1]]).sum() / mesh.cell_volumes[k[-1]]
    rx = lambda: dc.receivers.Dipole(E[:2], E[2:4])

    def sim(**kw):
        return spm.Simulation3DCellCentered(mesh, survey=spm.Survey([spm.sources.StreamingCurrents([rx()])]), qMap=maps.IdentityMap(nP=nC), bc_type=bc, **(kw or dict(sigma=sig)))

    with quiet():
        d = sim().dpred(q)
        d2 = sim().dpred(-3 * q)
        dsc = sim(sigma=10 * sig).dpred(q)
        I = q[k] * mesh.cell_volumes[k]
        src = dc.sources.Multipole([rx()], mesh.cell_centers[k], current=I)
        ref = dc.Simulation3DCellCentered(mesh, survey=dc.Survey([src]), sigma=sig, bc_type=bc).dpred(None)
    ctx.event("self-potentials", d.size)
    sc = np.abs(d).max()
    ctx.close(d, ref, f"self-potential of cell currents {bc}", rtol=1e-8, scale=sc)
    ctx.close(d2, -3 * d, f"self-potential is not linear {bc}", rtol=1e-9, scale=3 * sc)
    ctx.close(dsc, d / 10, f"self-potential of a scaled conductivity {bc}", rtol=1e-8, scale=sc)
