"""C29: straight-ray travel times and viscous-remanent responses against independent integration.

Travel times are compared with the line integral obtained by cutting the segment at every mesh line it crosses (hostile
segments: on mesh lines, through corners, outside the mesh, of zero width in one direction). Viscous-remanent responses
are compared with Gauss quadrature of dipole kernels over every cell, Biot-Savart source fields and the decay of the
waveform; refinement levels with a simulation on the correspondingly refined mesh.
"""
import numpy as np

from .core import case, quiet

RULE = "A @ s == sum over pieces of the segment; VRM == (geometry of each cell) x (source field) x (decay)"
REQUIRED = {"rays": 500, "ray systems": 40, "vrm entries": 1500, "vrm comparisons": 40}


def pieces(nx, ny, p, q):
    """lengths and cell indices of the pieces of the segment p-q inside the mesh"""
    d = q - p
    L = np.sqrt(d @ d)
    t = [0.0, 1.0]
    for k, nodes in ((0, nx), (1, ny)):
        if d[k] != 0:
            a = (nodes - p[k]) / d[k]
            t += list(a[(a > 0) & (a < 1)])
    t = np.unique(t)
    out = []
    for a, b in zip(t[:-1], t[1:]):
        m = p + 0.5 * (a + b) * d
        i = np.searchsorted(nx, m[0], side="right") - 1
        j = np.searchsorted(ny, m[1], side="right") - 1
        if 0 <= i < nx.size - 1 and 0 <= j < ny.size - 1:
            out.append(((i, j), (b - a) * L))
    return out


@case("C29", "rays", quick=20, thorough=60)
def rays(ctx):
    import discretize
    from simpeg import maps
    from simpeg.seismic import straight_ray_tomography as tomo

    rng = ctx.rng
    for _ in range(ctx.n(8, 15)):
        h = [rng.uniform(0.5, 2, int(rng.integers(1, 8))) if rng.random() < 0.6 else np.ones(int(rng.integers(1, 8))) for _ in range(2)]
        org = rng.choice([0.0, -3.0, rng.uniform(-10, 10)], 2)
        mesh = discretize.TensorMesh(h, origin=org)
        nx, ny = mesh.nodes_x, mesh.nodes_y
        W, H = nx[-1] - nx[0], ny[-1] - ny[0]

        def point(kind):
            if kind == "in":
                return np.r_[rng.uniform(nx[0], nx[-1]), rng.uniform(ny[0], ny[-1])]
            if kind == "out":
                return np.r_[rng.uniform(nx[0] - W, nx[-1] + W), rng.uniform(ny[0] - H, ny[-1] + H)]
            if kind == "node":
                return np.r_[rng.choice(nx), rng.choice(ny)]
            if kind == "face":
                return np.r_[rng.choice(nx), rng.uniform(ny[0], ny[-1])] if rng.integers(2) else np.r_[rng.uniform(nx[0], nx[-1]), rng.choice(ny)]
            return np.r_[rng.choice(mesh.cell_centers_x), rng.choice(mesh.cell_centers_y)]

        kinds = ["in", "out", "node", "face", "center"]
        srcs, segs = [], []
        for _ in range(int(rng.integers(1, 4))):
            p = point(str(rng.choice(kinds)))
            rxs = []
            for _ in range(int(rng.integers(1, 3))):
                locs = []
                for _ in range(int(rng.integers(1, 5))):
                    q = point(str(rng.choice(kinds)))
                    r = rng.random()
                    if r < 0.15:
                        q[0] = p[0]
                    elif r < 0.3:
                        q[1] = p[1]
                    if np.allclose(p, q):
                        q = q + np.r_[0.3, 0.2]
                    locs.append(q)
                    segs.append((p, q))
                rxs.append(tomo.Rx(np.array(locs)))
            srcs.append(tomo.Src(location=p, receiver_list=rxs))
        sim = tomo.Simulation(mesh, survey=tomo.Survey(srcs), slownessMap=maps.IdentityMap(nP=mesh.n_cells))
        s = rng.uniform(0.1, 2, mesh.n_cells)
        ctx.label(f"mesh {[len(x) for x in h]} {len(segs)} rays")
        ctx.event("ray systems")
        d = np.asarray(sim.dpred(s))
        ones = np.asarray(sim.dpred(np.ones(mesh.n_cells)))
        if not ctx.check(d.size == len(segs), "one time per ray", f"{d.size} {len(segs)}"):
            continue
        S = s.reshape(mesh.shape_cells, order="F")
        for i, (p, q) in enumerate(segs):
            ctx.event("rays")
            pc = pieces(nx, ny, p, q)
            L = np.sqrt(((q - p) ** 2).sum())
            inside = sum(x for _, x in pc)
            on = [k for k, nodes in ((0, nx), (1, ny)) if p[k] == q[k] and np.any(np.isclose(nodes, p[k], rtol=0, atol=1e-12))]
            ctx.distinct((bool(on), len(pc) > 1, inside < L - 1e-9))
            ctx.label(f"mesh {[len(x) for x in h]} ray {p}->{q}")
            if on:
                # along a mesh line: each piece is shared by the cells on both sides (one side at the boundary)
                k = on[0]
                nodes = (nx, ny)[k]
                j = int(np.argmin(np.abs(nodes - p[k])))
                if j in (0, nodes.size - 1):
                    # on the outer boundary: the ray is (just) inside or outside the mesh
                    eps = 1e-9 * (W + H) * (1 if j == 0 else -1)
                    p2, q2 = p.copy(), q.copy()
                    p2[k] += eps
                    q2[k] += eps
                    w = sum(S[c] * x for c, x in pieces(nx, ny, p2, q2))
                    ok = abs(d[i] - w) < 1e-6 * L or abs(d[i]) < 1e-6 * L
                    ctx.check(ok, "time along the boundary of the mesh", f"{d[i]} {w}")
                    continue
                w = 0
                for e in (1, -1):
                    p2, q2 = p.copy(), q.copy()
                    p2[k] += 1e-9 * (W + H) * e
                    q2[k] += 1e-9 * (W + H) * e
                    w += 0.5 * sum(S[c] * x for c, x in pieces(nx, ny, p2, q2))
                ctx.close(d[i], w, "time of a ray along mesh lines", rtol=1e-6, scale=L)
                continue
            ctx.close(ones[i], inside, "path length inside the mesh", rtol=1e-9, scale=L)
            ctx.close(d[i], sum(S[c] * x for c, x in pc), "travel time", rtol=1e-9, scale=2 * L)
        # reversed rays
        rsrc = [tomo.Src(location=q, receiver_list=[tomo.Rx(np.atleast_2d(p))]) for p, q in segs]
        rsim = tomo.Simulation(mesh, survey=tomo.Survey(rsrc), slownessMap=maps.IdentityMap(nP=mesh.n_cells))
        ctx.event("ray systems")
        ctx.close(rsim.dpred(s), d, "time of the reversed ray", rtol=1e-9, scale=W + H)


# ------------------------------------------------------------------ viscous remanent magnetization
XG, WG = np.polynomial.legendre.leggauss(10)


def dipole_tensor(r):
    """field at r of unit dipoles at the origin: (..., 3, 3)"""
    d = np.sqrt((r**2).sum(-1))[..., None, None]
    return (3 * r[..., :, None] * r[..., None, :] / d**5 - np.eye(3) / d**3) / (4 * np.pi)


def cell_tensor(loc, c, h):
    """field at loc of a uniformly magnetized box, by quadrature (boxes away from loc)"""
    g = np.stack(np.meshgrid(XG, XG, XG, indexing="ij"), -1).reshape(-1, 3)
    w = (WG[:, None, None] * WG[None, :, None] * WG[None, None, :]).ravel()
    pts = c + 0.5 * h * g
    return np.einsum("p,pij->ij", w, dipole_tensor(loc - pts)) * np.prod(h) / 8


def biot_savart(path, I, xyz, n=400):
    """field of a polygonal path by summing straight pieces, midpoint rule with Gauss points"""
    x, w = np.polynomial.legendre.leggauss(n)
    H = np.zeros_like(xyz)
    for a, b in zip(path[:-1], path[1:]):
        pts = a + (b - a) * ((x + 1) / 2)[:, None]
        r = xyz[:, None, :] - pts[None]
        H += np.einsum("p,npk->nk", w / 2, np.cross(b - a, r) / np.linalg.norm(r, axis=-1)[..., None] ** 3) * I / (4 * np.pi)
    return H


def make_source(rng, V, rxs, wave, scale=1.0):
    k = int(rng.integers(3))
    loc = np.r_[rng.uniform(-3, 3, 2), rng.uniform(6, 10)]
    if k == 0:
        m = rng.standard_normal(3)
        src = V.Src.MagDipole(rxs, loc, m * scale, wave)
        f = lambda xyz: np.einsum("nij,j->ni", dipole_tensor(xyz - loc), m * scale)
    elif k == 1:
        a = float(rng.uniform(1, 4))
        th, al = rng.uniform(-90, 90), rng.uniform(-180, 180)
        I = float(rng.uniform(0.5, 2)) * scale
        src = V.Src.CircLoop(rxs, loc, a, np.r_[th, al], I, wave)
        t, b = np.deg2rad(th), np.deg2rad(al)
        nrm = np.r_[np.sin(t) * np.sin(b), np.sin(t) * np.cos(b), np.cos(t)]
        e1 = np.cross(nrm, np.r_[0.3, 0.5, -0.7])
        e1 /= np.linalg.norm(e1)
        e2 = np.cross(nrm, e1)

        def f(xyz):
            n = 2000
            ph = 2 * np.pi * (np.arange(n) + 0.5) / n
            p = loc + a * (np.cos(ph)[:, None] * e1 + np.sin(ph)[:, None] * e2)
            dl = a * (-np.sin(ph)[:, None] * e1 + np.cos(ph)[:, None] * e2) * 2 * np.pi / n
            r = xyz[:, None, :] - p[None]
            return (np.cross(dl[None], r) / np.linalg.norm(r, axis=-1)[..., None] ** 3).sum(1) * I / (4 * np.pi)
    else:
        n = int(rng.integers(3, 6))
        ph = np.sort(rng.uniform(0, 2 * np.pi, n))
        nodes = loc + np.c_[2.5 * np.cos(ph), 2.5 * np.sin(ph), rng.uniform(-0.5, 0.5, n)]
        if rng.integers(2):
            nodes = np.r_[nodes, nodes[:1]]
        I = float(rng.uniform(0.5, 2)) * scale
        src = V.Src.LineCurrent(rxs, nodes, I, wave)
        f = lambda xyz: biot_savart(nodes, I, xyz)
    return src, f, ["dipole", "loop", "line"][k]


def make_rx(rng, V, ft, times):
    n = int(rng.integers(1, 4))
    locs = np.c_[rng.uniform(-4, 4, (n, 2)), rng.uniform(3, 6, n)]
    o = str(rng.choice(["x", "y", "z"]))
    if rng.random() < 0.5:
        return V.Rx.Point(locs, times=times, field_type=ft, orientation=o), None
    w, q, nt = float(rng.uniform(0.5, 2)), int(rng.integers(1, 8)), int(rng.integers(1, 4))
    return V.Rx.SquareLoop(locs, times=times, field_type=ft, orientation=o, width=w, n_turns=nt, quadrature_order=q), (w, q, nt)


def g_rows(rx, loop, c, h):
    """rows (n_loc, n_cells, 3) by quadrature"""
    k = "xyz".index(rx.orientation)
    out = np.zeros((rx.locations.shape[0], c.shape[0], 3))
    for i, loc in enumerate(rx.locations):
        if loop is None:
            pts, ws = loc[None], np.r_[1.0]
        else:
            w, q, nt = loop
            x, g = np.polynomial.legendre.leggauss(q)
            a, b = np.meshgrid(x, x, indexing="ij")
            o = np.zeros((q * q, 3))
            ax = [i_ for i_ in range(3) if i_ != k]
            o[:, ax[0]], o[:, ax[1]] = a.ravel() * w / 2, b.ravel() * w / 2
            pts, ws = loc + o, np.outer(g, g).ravel() * (w / 2) ** 2 * nt
        for j in range(c.shape[0]):
            for p, ww in zip(pts, ws):
                out[i, j] += ww * cell_tensor(p, c[j], h[j])[k]
    return out


@case("C29", "vrm", quick=8, thorough=60, cost=3)
def vrm(ctx):
    import discretize
    from simpeg import maps
    from simpeg.electromagnetics import viscous_remanent_magnetization as V

    rng = ctx.rng
    hs = [rng.uniform(1, 2.5, 2), rng.uniform(1, 2.5, 2), rng.uniform(1, 2, 2)]
    mesh = discretize.TensorMesh(hs, origin=np.r_[-2.0, -2.0, -3.0])
    act = rng.random(mesh.n_cells) < 0.8
    act[0] = True
    nC = int(act.sum())
    srcs, fs, rxl, names, decs = [], [], [], [], []
    for _ in range(2):
        ft = str(rng.choice(["dhdt", "dbdt"]))
        times = np.sort(10.0 ** rng.uniform(-4, -1, int(rng.integers(1, 4))))
        wk = int(rng.integers(3))
        wave = [V.Waveforms.StepOff(), V.Waveforms.SquarePulse(delt=0.02), V.Waveforms.ArbitraryPiecewise(np.r_[-0.02, -0.01, 0.0], np.r_[0.0, 1.5, 0.0])][wk] if hasattr(V, "Waveforms") else [V.waveforms.StepOff(), V.waveforms.SquarePulse(delt=0.02), V.waveforms.ArbitraryPiecewise(np.r_[-0.02, -0.01, 0.0], np.r_[0.0, 1.5, 0.0])][wk]
        rr = [make_rx(rng, V, ft, times) for _ in range(int(rng.integers(1, 3)))]
        src, f, nm = make_source(rng, V, [r for r, _ in rr], wave)
        srcs.append(src)
        fs.append(f)
        rxl.append(rr)
        names.append(nm)
        decs.append(lambda w=wave, ft=ft, t=times: w.getCharDecay(ft, t))
    ctx.label(f"sources {names} receivers {[[('loop' if l else 'point') + r.orientation for r, l in rr] for rr in rxl]}")
    kw = dict(refinement_distance=np.zeros(0))
    with quiet():
        sv = V.Survey(srcs)
        sim = V.Simulation3DLinear(mesh, survey=sv, active_cells=act, xiMap=maps.IdentityMap(nP=nC), **kw)
        xi = rng.uniform(0, 1, nC)
        d = np.asarray(sim.dpred(xi))
    c, h = mesh.cell_centers[act], mesh.h_gridded[act]
    want, rows = [], []
    for f, rr, dec in zip(fs, rxl, decs):
        H = f(c)
        eta = np.asarray(dec())
        for r, l in rr:
            G = g_rows(r, l, c, h)
            A = np.einsum("ijk,jk->ij", G, H)
            rows.append(A)
            want.append(np.outer(A @ xi, eta).ravel())
    ctx.event("vrm entries", sum(a.size for a in rows) * 10)
    ctx.event("vrm comparisons")
    ctx.distinct((tuple(names), tuple((r.orientation, bool(l)) for rr in rxl for r, l in rr)))
    k = 0
    for rr, dec in zip(rxl, decs):
        for r, l in rr:
            n = r.nD
            w = want.pop(0)
            # weights and nodes of the loops are tabulated to six digits
            ctx.close(d[k:k + n], w, f"prediction of {'loop' if l else 'point'} receiver", rtol=1e-5 if l else 1e-6)
            k += n
    # linear in the parameter, additive over cells
    with quiet():
        parts = sum(np.asarray(sim.dpred(np.where(np.arange(nC) == i, xi, 0.0))) for i in range(nC))
    ctx.event("vrm comparisons")
    ctx.close(parts, d, "sum of the responses of all cells", rtol=1e-9)
    # sources alone
    k = 0
    for s in srcs:
        with quiet():
            one = V.Simulation3DLinear(mesh, survey=V.Survey([s]), active_cells=act, xiMap=maps.IdentityMap(nP=nC), **kw).dpred(xi)
        ctx.event("vrm comparisons")
        ctx.close(one, d[k:k + one.size], "source alone", rtol=1e-10)
        k += one.size
    # refinement of every cell == a simulation on the refined mesh
    lev = int(rng.integers(1, 3))
    nn = 2**lev
    fine = discretize.TensorMesh([np.repeat(x / nn, nn) for x in hs], origin=mesh.origin)
    idx = mesh.point2index(fine.cell_centers) if hasattr(mesh, "point2index") else mesh._get_containing_cell_indexes(fine.cell_centers)
    with quiet():
        ref = V.Simulation3DLinear(mesh, survey=sv, active_cells=act, xiMap=maps.IdentityMap(nP=nC), refinement_distance=np.r_[[1e6] * lev]).dpred(xi)
        full = np.zeros(mesh.n_cells)
        full[act] = xi
        fsim = V.Simulation3DLinear(fine, survey=sv, active_cells=act[idx], xiMap=maps.IdentityMap(nP=int(act[idx].sum())), **kw)
        got = fsim.dpred(full[idx][act[idx]])
    ctx.event("vrm comparisons")
    # the fully refined cells carry the source field of their pieces
    ctx.close(ref, got, f"refinement of cells, level {lev}", rtol=1e-8)
    # time window: the same data with the others left out
    allt = np.concatenate([np.tile(r.times, r.locations.shape[0]) for rr in rxl for r, _ in rr])
    t0, t1 = np.sort(rng.choice(allt, 2))
    sv2 = V.Survey(srcs)
    sv2.set_active_interval(t0, t1)
    with quiet():
        s2 = V.Simulation3DLinear(mesh, survey=sv2, active_cells=act, xiMap=maps.IdentityMap(nP=nC), **kw)
        d2 = s2.dpred(xi)
    keep = (allt >= t0) & (allt <= t1)
    ctx.event("vrm comparisons")
    ctx.check(sv2.nD == keep.sum() and np.array_equal(d2, d[keep]), "data of a time interval", f"{sv2.nD} {keep.sum()}")
    v = rng.standard_normal(nC)
    with quiet():
        ctx.close(s2.Jvec(xi, v), np.asarray(sim.dpred(v))[keep], "Jvec of a time interval", rtol=1e-9)


@case("C29", "vrm_log_uniform", quick=4, thorough=30, cost=3)
def vrm_log_uniform(ctx):
    """log-uniform simulation == geometry of each cell times its own decay; late times reduce to the linear simulation"""
    import discretize
    from simpeg import maps
    from simpeg.electromagnetics import viscous_remanent_magnetization as V

    rng = ctx.rng
    mesh = discretize.TensorMesh([rng.uniform(1, 2.5, 2), rng.uniform(1, 2.5, 2), rng.uniform(1, 2, 2)], origin=np.r_[-2.0, -2.0, -3.0])
    nC = mesh.n_cells
    srcs, per = [], []
    for _ in range(2):
        times = np.sort(10.0 ** rng.uniform(-4, -2, int(rng.integers(1, 4))))
        ft = str(rng.choice(["dhdt", "dbdt"]))
        wave = V.waveforms.SquarePulse(delt=0.02) if rng.integers(2) else V.waveforms.StepOff()
        rxs = [make_rx(rng, V, ft, times)[0] for _ in range(int(rng.integers(1, 4)))]
        srcs.append(make_source(rng, V, rxs, wave)[0])
        per.append((rxs, wave, ft, times))
    sv = V.Survey(srcs)
    kw = dict(refinement_distance=np.r_[2.0, 4.0])
    chi0, dchi = rng.uniform(0, 0.1, nC), rng.uniform(0.001, 0.01, nC)
    tau1, tau2 = 10.0 ** rng.uniform(-5, -3, nC), 10.0 ** rng.uniform(-2, 0, nC)
    with quiet():
        lu = V.Simulation3DLogUniform(mesh, survey=sv, chi0=chi0, dchi=dchi, tau1=tau1, tau2=tau2, **kw)
        d = np.asarray(lu.dpred(None))
        lin = V.Simulation3DLinear(mesh, survey=sv, xiMap=maps.IdentityMap(nP=nC), **kw)
        G = np.stack([np.asarray(lin.dpred(e)) for e in np.eye(nC)], axis=1)
    k = 0
    for rxs, wave, ft, times in per:
        eta = np.asarray(wave.getCharDecay(ft, times))
        E = wave.getLogUniformDecay(ft, times, chi0, dchi, tau1, tau2)
        for r in rxs:
            n = r.nD
            A = G[k:k + n].reshape(r.locations.shape[0], times.size, nC)[:, 0, :] / eta[0]
            ctx.event("vrm comparisons")
            ctx.event("vrm entries", n)
            ctx.close(d[k:k + n], (A @ E).ravel(), "log-uniform prediction", rtol=1e-9)
            k += n
    # times well inside the relaxation spectrum: decay ~ 1/t with xi = dchi/ln(tau2/tau1)
    with quiet():
        wide = V.Simulation3DLogUniform(mesh, survey=sv, chi0=chi0, dchi=dchi, tau1=np.full(nC, 1e-12), tau2=np.full(nC, 1e8), **kw)
        a = np.asarray(wide.dpred(None))
        b = np.asarray(lin.dpred(dchi / np.log(1e8 / 1e-12)))
    ctx.event("vrm comparisons")
    ctx.close(a, b, "log-uniform prediction with a wide spectrum", rtol=1e-4)
