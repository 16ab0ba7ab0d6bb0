"""C28: natural-source data recomputed from the fields.

The fields of a run are taken from the simulation, checked against the definition of the magnetic field, interpolated to
the receivers and turned into tensors by solving the 2x2 systems; every datum of the survey has to be the entry of its
tensor. Layered earths are compared with the analytic recursion.
"""
import numpy as np
from scipy.constants import mu_0

from .core import case, quiet
from .scen_em import hvec, rough

RULE = "datum == documented function of the interpolated fields"
REQUIRED = {"data": 1500, "tensors": 150, "analytic": 60}

PARTS = {
    "real": lambda z, w: z.real,
    "imag": lambda z, w: z.imag,
    "complex": lambda z, w: z,
    "apparent_resistivity": lambda z, w: np.abs(z) ** 2 / (w * mu_0),
    "phase": lambda z, w: np.rad2deg(np.angle(z)),
}


def compare(ctx, d, want, key, comp):
    if comp == "phase":
        diff = (np.real(d) - want + 180) % 360 - 180
        ctx.close(diff, 0 * diff, key, rtol=1e-7, scale=180.0)
    else:
        ctx.close(d, want, key, rtol=1e-7)


def interp(mesh, locs, kind, f):
    return mesh.get_interpolation_matrix(locs, kind) @ f


def z_layers(w, th, sig):
    """surface impedance Ex/Hy (z up) of layers listed from the top; th has one entry less than sig"""
    k = np.sqrt(1j * w * mu_0 * sig)
    Z = 1j * w * mu_0 / k[-1]
    for i in range(len(th) - 1, -1, -1):
        Zi = 1j * w * mu_0 / k[i]
        t = np.tanh(k[i] * th[i])
        Z = Zi * (Z + Zi * t) / (Zi + Z * t)
    return -Z


@case("C28", "three", quick=4, thorough=40, cost=20)
def three(ctx):
    from discretize import TensorMesh, TreeMesh
    from simpeg import maps
    from simpeg.electromagnetics import natural_source as N

    rng = ctx.rng
    if rng.random() < 0.3:
        mesh = TreeMesh([[(120.0, 8)]] * 3, origin=np.r_[-480.0, -480.0, -560.0], diagonal_balance=True)
        mesh.insert_cells(rng.uniform(-100, 100, (2, 3)), -np.ones(2, dtype=int), finalize=True)
        kind = "tree"
    else:
        hs = [hvec(rng, 6, 150), hvec(rng, 6, 150), hvec(rng, 7, 150)]
        mesh = TensorMesh(hs, origin=np.array([-hs[0].sum() / 2, -hs[1].sum() / 2, -hs[2].sum() * 0.6]))
        kind = "tensor"
    loc = lambda k: np.c_[rng.uniform(-150, 150, (k, 2)), rng.uniform(-60, -10, k)]
    freqs = np.round(np.exp(rng.uniform(0, np.log(100), 2)), 3)
    srcs, table = [], []
    for f in freqs:
        rxs = []
        for cls, oris, comps in (
            ("Impedance", ("xx", "xy", "yx", "yy"), ("real", "imag", "complex", "apparent_resistivity", "phase")),
            ("Tipper", ("zx", "zy", "xx", "xy", "yx", "yy"), ("real", "imag", "complex")),
            ("Admittance", ("xx", "xy", "yx", "yy", "zx", "zy"), ("real", "imag", "complex")),
            ("ApparentConductivity", (None,), (None,)),
        ):
            for o in oris:
                A = loc(int(rng.integers(1, 4)))
                B = loc(A.shape[0]) if rng.integers(2) else None
                if cls == "Tipper" and o[0] != "z" and B is None:
                    B = loc(A.shape[0])
                for c in comps:
                    kw = {} if o is None else dict(orientation=o, component=c)
                    rxs.append((getattr(N.Rx, cls)(A, B, storeProjections=bool(rng.integers(2)), **kw), cls, o, c, A, A if B is None else B))
        order = rng.permutation(len(rxs))
        rxs = [rxs[i] for i in order]
        src = N.Src.PlanewaveXYPrimary([r[0] for r in rxs], float(f))
        srcs.append(src)
        table.append(rxs)
    mu = None if rng.integers(2) else mu_0 * float(rng.uniform(1.1, 2))
    if mu is None and rng.random() < 0.5:
        mu = mu_0 * rng.uniform(1, 2, mesh.n_cells)
    kw = {} if mu is None else {"mu": mu}
    sim = N.Simulation3DPrimarySecondary(mesh, survey=N.Survey(srcs), sigmaPrimary=np.full(mesh.n_cells, 0.05), sigmaMap=maps.ExpMap(nP=mesh.n_cells), **kw)
    m = np.log(0.05) + rng.standard_normal(mesh.n_cells)
    with quiet():
        fld = sim.fields(m)
        out = {(src, r[0]): np.asarray(r[0].eval(src, mesh, fld)) for src, rr in zip(srcs, table) for r in rr}
        eh = {src: (fld[src, "e"], fld[src, "h"]) for src in srcs}
        sim.survey = N.Survey([N.Src.PlanewaveXYPrimary([r[0] for r in rr if r[3] != "complex"], float(f)) for f, rr in zip(freqs, table)])
        d = np.asarray(sim.dpred(m))
    k = 0
    Mi = mesh.get_face_inner_product(invert_matrix=True)
    Mmu = mesh.get_face_inner_product(np.broadcast_to(1 / mu_0 if mu is None else 1 / np.asarray(mu), (mesh.n_cells,)))
    for src, rr in zip(srcs, table):
        w = 2 * np.pi * src.frequency
        e, h = eh[src]
        ctx.event("tensors", len(rr))
        b = -(mesh.edge_curl @ e) / (1j * w)
        ctx.label(f"{kind} mu {'vac' if mu is None else np.ndim(mu)}")
        ctx.close(h, Mi @ (Mmu @ b), "magnetic field", rtol=1e-6)
        for rx, cls, o, c, A, B in rr:
            ctx.label(f"{kind} mu {'vac' if mu is None else np.ndim(mu)} {cls} {o} {c} two {A is not B}")
            got = out[src, rx]
            if cls in ("Impedance", "Admittance"):
                E = np.stack([interp(mesh, A, "E" + x, e) for x in "xy"], 1)  # loc, comp, pol
                H = np.stack([interp(mesh, B, "F" + x, h) for x in "xyz"], 1)
                if cls == "Impedance":
                    T = E @ np.linalg.inv(H[:, :2])
                else:
                    T = H @ np.linalg.inv(E)
                z = T[:, "xyz".index(o[0]), "xy".index(o[1])]
                want = PARTS[c](z, w)
            elif cls == "Tipper":
                R = np.stack([interp(mesh, A, "F" + x, h) for x in "xyz"], 2)  # loc, pol, comp
                S = np.stack([interp(mesh, B, "F" + x, h) for x in "xy"], 2)
                T = np.linalg.inv(S) @ R  # rows x, y; columns x, y, z
                want = PARTS[c](T[:, "xy".index(o[1]), "xyz".index(o[0])], w)
            else:
                E = np.stack([interp(mesh, A, "E" + x, e) for x in "xy"], 1)
                H = np.stack([interp(mesh, B, "F" + x, h) for x in "xyz"], 1)
                want = w * mu_0 * (np.abs(H) ** 2).sum((1, 2)) / (np.abs(E) ** 2).sum((1, 2))
            ctx.event("data", np.size(got))
            if not ctx.check(np.shape(got) == np.shape(want), "shape of data", f"{np.shape(got)} {np.shape(want)}"):
                continue
            compare(ctx, got, want, f"{cls} data", c)
    # position of the data in the predicted vector
    for src, rr in zip(srcs, table):
        for rx, cls, o, c, A, B in rr:
            if c == "complex":
                continue
            ctx.event("data", rx.nD)
            g = out[src, rx].ravel()
            ctx.close(d[k:k + rx.nD], g, "order of data", rtol=1e-6, scale=float(np.abs(g).max()) + (180 if c == "phase" else 0))
            k += rx.nD
    ctx.check(k == d.size, "number of data", f"{k} {d.size}")


@case("C28", "two", quick=8, thorough=60, cost=4)
def two(ctx):
    from discretize import TensorMesh, TreeMesh
    from simpeg import maps
    from simpeg.electromagnetics import natural_source as N

    rng = ctx.rng
    form = "eh"[ctx.rep % 2]
    if rng.random() < 0.5:
        hx, hy = rough(rng, 9, 80, 200), rough(rng, 9, 80, 200)
        mesh = TensorMesh([hx, hy], origin=np.r_[-hx.sum() / 2, -hy.sum() * 0.7])
    else:
        mesh = TreeMesh([[(100.0, 16)], [(100.0, 16)]], origin=np.r_[-800.0, -1100.0], diagonal_balance=True)
        mesh.insert_cells(rng.uniform(-200, 200, (2, 2)), -np.ones(2, dtype=int), finalize=True)
    loc = lambda n: np.c_[rng.uniform(-250, 250, n), rng.uniform(-60, 30, n)]
    freqs = np.round(np.exp(rng.uniform(0, np.log(100), 2)), 3)
    srcs, table = [], []
    for f in freqs:
        rr = []
        specs = [("Impedance", "xy" if form == "e" else "yx", ("real", "imag", "complex", "apparent_resistivity", "phase")), ("Admittance", "yx" if form == "e" else "xy", ("real", "imag", "complex"))]
        if form == "h":
            specs.append(("Tipper", "zx", ("real", "imag", "complex")))
        for cls, o, comps in specs:
            A = loc(int(rng.integers(1, 4)))
            B = loc(A.shape[0]) if rng.integers(2) else None
            for c in comps:
                rr.append((getattr(N.Rx, cls)(A, B, orientation=o, component=c, storeProjections=bool(rng.integers(2))), cls, c, A, A if B is None else B))
        rr = [rr[i] for i in rng.permutation(len(rr))]
        srcs.append(N.Src.Planewave([r[0] for r in rr], float(f)))
        table.append(rr)
    nC = mesh.n_cells
    cls = N.simulation.Simulation2DElectricField if form == "e" else N.simulation.Simulation2DMagneticField
    mu = mu_0 * rng.uniform(1, 2, nC) if rng.integers(2) else None
    pm = {"sigmaMap": maps.ExpMap(nP=nC)} if form == "e" else {"rhoMap": maps.ExpMap(nP=nC)}
    if mu is not None:
        pm["mu"] = mu
    sim = cls(mesh, survey=N.Survey(srcs), **pm)
    m = (np.log(0.05) if form == "e" else np.log(20.0)) + 0.7 * rng.standard_normal(nC)
    with quiet():
        fld = sim.fields(m)
    muc = mu_0 if mu is None else mu[:, None]
    lab = f"{type(mesh).__name__} {form} mu {mu is not None}"
    for src, rr in zip(srcs, table):
        w = 2 * np.pi * src.frequency
        e, h = fld[src, "e"], fld[src, "h"]
        ctx.label(lab)
        ctx.event("tensors", len(rr))
        C = mesh.edge_curl
        # 2D plane is (x, z) with y out of the plane pointing away: curl of (Ex, Ez) along y is -(C e)
        if form == "e":
            ctx.close(h, (C @ e) / (1j * w * muc), "magnetic field", rtol=1e-6)
        else:
            ctx.close(e, -(np.exp(m)[:, None] * (C @ h)), "electric field", rtol=1e-6)
        for rx, cl, c, A, B in rr:
            ctx.label(f"{lab} {cl} {c} two {A is not B}")
            with quiet():
                got = np.asarray(rx.eval(src, mesh, fld))
            if cl == "Tipper":
                hz, hx = interp(mesh, A, "Ey", h), interp(mesh, B, "Ex", h)
                z = (hz / hx).ravel()
            else:
                E = interp(mesh, A, "Ex" if form == "e" else "CC", e)
                H = interp(mesh, B, "CC" if form == "e" else "Ex", h)
                z = (E / H).ravel() if cl == "Impedance" else (H / E).ravel()
            ctx.event("data", np.size(got))
            if ctx.check(np.shape(got) == z.shape, "shape of data", f"{np.shape(got)}"):
                compare(ctx, got, PARTS[c](z, w), f"{cl} data", c)


@case("C28", "one", quick=9, thorough=60)
def one(ctx):
    from discretize import TensorMesh
    from simpeg import maps
    from simpeg.electromagnetics import natural_source as N

    rng = ctx.rng
    form = ["e", "h", "ps"][ctx.rep % 3]
    h = np.r_[rough(rng, 4, 200, 500), rough(rng, 10, 50, 150)]
    air = int(rng.integers(0, 3))
    h = np.r_[h, np.full(air, 200.0)]
    mesh = TensorMesh([h], origin=np.r_[-h.sum() + 200.0 * air])
    nC = mesh.n_cells
    freqs = np.round(np.exp(rng.uniform(0, np.log(100), 3)), 3)
    srcs, table = [], []
    for f in freqs:
        rr = []
        for o in ("xy", "yx", "xx", "yy"):
            n = int(rng.integers(1, 4))
            A = rng.uniform(-400, 0, (n, 1))
            B = rng.uniform(-400, 0, (n, 1)) if rng.integers(2) else None
            for c in ("real", "imag", "complex", "apparent_resistivity", "phase"):
                if o in ("xx", "yy") and c == "phase":
                    continue
                rr.append((N.Rx.Impedance(A, B, orientation=o, component=c, storeProjections=bool(rng.integers(2))), o, c, A, A if B is None else B))
        rr = [rr[i] for i in rng.permutation(len(rr))]
        srcs.append((N.Src.PlanewaveXYPrimary if form == "ps" else N.Src.Planewave)([r[0] for r in rr], float(f)))
        table.append(rr)
    sv = N.Survey(srcs)
    m = np.log(0.05) + 0.7 * rng.standard_normal(nC)
    if form == "ps":
        sim = N.Simulation1DPrimarySecondary(mesh, survey=sv, sigmaPrimary=np.full(nC, 0.05), sigmaMap=maps.ExpMap(nP=nC))
    elif form == "e":
        sim = N.simulation.Simulation1DElectricField(mesh, survey=sv, sigmaMap=maps.ExpMap(nP=nC))
    else:
        sim = N.simulation.Simulation1DMagneticField(mesh, survey=sv, rhoMap=maps.ExpMap(nP=nC))
        m = -m
    with quiet():
        fld = sim.fields(m)
    pe, ph = ("CC", "N") if form == "h" else ("N", "CC")
    # sign of Z of the stored pair of fields: (e, h) are (Ex, Hy) or (Ey, Hx)
    own = {"e": "yx", "h": "xy", "ps": "xy"}[form]
    for src, rr in zip(srcs, table):
        w = 2 * np.pi * src.frequency
        e, hh = fld[src, "e"], fld[src, "h"]
        G = mesh.nodal_gradient
        ctx.label(form)
        ctx.event("tensors", len(rr))
        if form == "e":
            ctx.close(hh, (G @ e) / (1j * w * mu_0), "magnetic field", rtol=1e-6)
        elif form == "ps":
            ctx.close(hh, -(G @ e) / (1j * w * mu_0), "magnetic field", rtol=1e-6)
        else:
            ctx.close(e, -(np.exp(m)[:, None] * (G @ hh)), "electric field", rtol=1e-6)
        for rx, o, c, A, B in rr:
            ctx.label(f"{form} {o} {c} two {A is not B}")
            with quiet():
                got = np.asarray(rx.eval(src, mesh, fld)).ravel()
            if o in ("xx", "yy"):
                z = np.zeros(A.shape[0], dtype=complex)
            else:
                z = interp(mesh, A, pe, e)[:, 0] / interp(mesh, B, ph, hh)[:, 0]
                if o != own:
                    z = -z
            ctx.event("data", got.size)
            if ctx.check(got.shape == z.shape, "shape of data", f"{got.shape}"):
                compare(ctx, got, PARTS[c](z, w), "Impedance data", c)


@case("C28", "layers", quick=10, thorough=80)
def layers(ctx):
    """recursive solution and finite-volume solutions against the analytic impedance"""
    from discretize import TensorMesh
    from simpeg.electromagnetics import natural_source as N

    rng = ctx.rng
    for _ in range(ctx.n(4, 8)):
        nl = int(rng.integers(1, 6))
        th, sig = rough(rng, nl - 1, 30, 500) if nl > 1 else np.zeros(0), rough(rng, nl, 1e-3, 1)
        freqs = np.unique(np.round(rough(rng, 4, 0.01, 1000), 4))
        order = rng.permutation(freqs.size)
        comps = ["real", "imag", "complex", "apparent_resistivity", "phase"]
        cplx = bool(rng.integers(2))
        cs = [c for c in comps if cplx or c != "complex"]
        srcs, want, cc = [], [], []
        for f in freqs[order]:
            w = 2 * np.pi * f
            z = z_layers(w, th, sig)
            use = [str(c) for c in rng.permutation(cs)[: int(rng.integers(1, len(cs) + 1))]]
            srcs.append(N.Src.Planewave([N.Rx.Impedance([[]], component=c, orientation="xy") for c in use], float(f)))
            want += [PARTS[c](z, w) for c in use]
            cc += use
        sv = N.Survey(srcs)
        kw = dict(sigma=sig[::-1]) if rng.integers(2) else dict(rho=1 / sig[::-1])
        with quiet():
            d = np.asarray(N.Simulation1DRecursive(survey=sv, thicknesses=th[::-1], **kw).dpred(None))
        ctx.label(f"recursive {nl} layers {sorted(kw)} complex {'complex' in cc}")
        if not ctx.check(d.size == sv.nD == len(want), "one datum per receiver", f"{d.size} {sv.nD}"):
            continue
        for a, b, c in zip(d, want, cc):
            ctx.event("analytic")
            compare(ctx, a, b, "analytic impedance, recursive", c)
    # finite volumes: mesh refined with the skin depth
    f = float(np.round(10 ** rng.uniform(-0.5, 1.5), 3))
    w = 2 * np.pi * f
    nl = int(rng.integers(1, 4))
    sig = rng.uniform(0.01, 0.2, nl)
    delta = np.sqrt(2 / (w * mu_0 * sig.max()))
    lo = np.sqrt(2 / (w * mu_0 * sig.min()))
    dz = delta / 40
    th = np.round(rng.uniform(0.3, 1.0, nl - 1) * delta / dz) * dz
    n_core = int(round(th.sum() / dz)) + 20
    hz = [dz] * n_core
    while sum(hz) < 8 * lo + th.sum():
        hz.append(hz[-1] * 1.03)
    hz = np.array(hz)[::-1]
    mesh = TensorMesh([hz], origin=np.r_[-hz.sum()])
    top = np.r_[0, -np.cumsum(th)]
    lay = np.searchsorted(-top, -mesh.cell_centers.ravel(), side="right") - 1
    s = sig[np.clip(lay, 0, nl - 1)]
    for form in "eh":
        rx = [N.Rx.Impedance([[0.0]], orientation=o, component="complex") for o in ("xy", "yx")]
        src = N.Src.Planewave(rx, f)
        sv = N.Survey([src])
        with quiet():
            sim = N.simulation.Simulation1DElectricField(mesh, survey=sv, sigma=s) if form == "e" else N.simulation.Simulation1DMagneticField(mesh, survey=sv, rho=1 / s)
            fld = sim.fields(None)
            d = [complex(np.ravel(r.eval(src, mesh, fld))[0]) for r in rx]
        z = z_layers(w, th, sig)
        ctx.label(f"finite volume {form} {nl} layers f {f}")
        ctx.event("analytic", 2)
        ctx.close(d[0], z, "analytic impedance, finite volume", rtol=0.04)
        ctx.close(d[1], -z, "analytic impedance yx, finite volume", rtol=0.04)


@case("C28", "layered_3d", quick=1, thorough=6, cost=25)
def layered_3d(ctx):
    """three-dimensional and two-dimensional simulations of a layered earth"""
    from discretize import TensorMesh
    from simpeg import maps
    from simpeg.electromagnetics import natural_source as N

    rng = ctx.rng
    f = float(np.round(10 ** rng.uniform(-0.3, 1.0), 3))
    w = 2 * np.pi * f
    sig = rng.uniform(0.02, 0.1, 2)
    delta = np.sqrt(2 / (w * mu_0 * sig.max()))
    dz = delta / 12
    nz = 14
    th = dz * 6
    hz = np.r_[dz * 1.25 ** np.arange(12, 0, -1), np.full(nz, dz), dz * 1.3 ** np.arange(1, 10)]
    below = hz[:-9].sum()
    hx = np.full(5, delta)
    mesh = TensorMesh([hx, hx, hz], origin=np.r_[-hx.sum() / 2, -hx.sum() / 2, -below])
    zc = mesh.cell_centers[:, 2]
    s = np.where(zc > 0, 1e-8, np.where(zc > -th, sig[0], sig[1]))
    loc = np.array([[0.0, 0.0, -0.001]])
    rx = [N.Rx.Impedance(loc, orientation=o, component="complex") for o in ("xx", "xy", "yx", "yy")]
    src = N.Src.PlanewaveXYPrimary(rx, f)
    # primary: the layered earth itself, or a uniform one (the difference is then a secondary source)
    prim = s if rng.integers(2) else np.where(zc > 0, 1e-8, float(sig.mean()))
    sim = N.Simulation3DPrimarySecondary(mesh, survey=N.Survey([src]), sigmaPrimary=prim, sigma=s)
    with quiet():
        fld = sim.fields(None)
        d = np.array([complex(np.ravel(r.eval(src, mesh, fld))[0]) for r in rx])
    z = z_layers(w, np.r_[th], sig)
    ctx.label(f"layered 3D f {f} primary {prim is s}")
    ctx.event("analytic", 4)
    ctx.event("tensors")
    if prim is s:
        ctx.close(d, np.r_[0, z, -z, 0], "analytic impedance, 3D", rtol=0.1)
    else:
        ctx.close(d[[0, 3]], np.zeros(2), "diagonal impedance of layers", rtol=1e-6, scale=abs(z))
        ctx.close(d[1], -d[2], "Zxy == -Zyx over layers", rtol=1e-6)
    del maps
