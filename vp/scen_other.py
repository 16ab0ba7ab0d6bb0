"""Scenarios: unsaturated flow, straight-ray tomography, VRM, linear problems, composites."""
import numpy as np

from .scen import Built, grid, hvec, rough, scen, tensor3, tree3


# ------------------------------------------------------------------ Richards
def richards_case(rng, dim=1, curve="haverkamp", props=("Ks",), newton=False, rxs="both", spread=0.1, head=False, n=None, tol=1e-11, sat=False):
    from discretize import TensorMesh
    from simpeg import maps
    from simpeg.flow import richards

    shape = n or {1: (14,), 2: (4, 7), 3: (3, 3, 5)}[dim]
    L = 40.0
    hs = [hvec(rng, k, (L if i == dim - 1 else 15.0) / k) for i, k in enumerate(shape)]
    mesh = TensorMesh(hs)
    if dim == 1:
        mesh.set_cell_gradient_BC("dirichlet")
    else:
        mesh.set_cell_gradient_BC(["neumann"] * (dim - 1) + ["dirichlet"])
    nC = mesh.n_cells
    if curve == "haverkamp":
        par = dict(alpha=1.611e6, beta=3.96, theta_r=0.075, theta_s=0.287, Ks=9.44e-03, A=1.175e6, gamma=4.74)
        k, th = richards.empirical.haverkamp(mesh, **par)
        hb, ht, dt = -61.5, -35.0, 15.0
        knames, tnames = ["Ks", "A", "gamma"], ["alpha", "beta", "theta_r", "theta_s"]
    else:
        par = dict(theta_r=0.05, theta_s=0.43, alpha=0.036, n=1.8, Ks=0.01, I=0.5)
        k, th = richards.empirical.van_genuchten(mesh, **par)
        hb, ht, dt = -60.0, -35.0, 30.0
        knames, tnames = ["Ks", "I", "k:n", "k:alpha"], ["theta_r", "theta_s", "t:n", "t:alpha"]
    if sat:
        ht = 5.0
    bc = np.array([hb, ht])
    if dim > 1:
        nb = mesh.cell_gradient_BC.shape[1]
        # boundary values in the order of the gradient's BC columns
        top = int(np.prod(shape[:-1]))
        vals = np.zeros(nb)
        vals[-2 * top : -top] = hb
        vals[-top:] = ht
        bc = vals
    h0 = hb + (rng.uniform(-1, 1, nC) * 3)
    names = list(props)
    if names == ["all"]:
        names = knames + tnames
    wires = maps.Wires(*[(f"p{i}", nC) for i in range(len(names))])
    m, sc = [], []
    for i, nm in enumerate(names):
        base = nm.split(":")[-1]
        v0 = par[base] * np.exp(spread * (0.2 if base in ("gamma", "beta", "n") else 1.0) * rng.uniform(-1, 1, nC))
        tgt = k if (nm in knames) else th
        mp = getattr(wires, f"p{i}")
        if base in ("Ks", "A", "alpha"):
            mp = maps.ExpMap(nP=nC) * mp
            m.append(np.log(v0))
            sc.append(np.ones(nC))
        else:
            m.append(v0)
            sc.append((0.02 if base in ("gamma", "beta", "n") else 0.2) * v0)
        setattr(tgt, base + "Map", mp)
    steps = dt * np.r_[1.0, 1.0, 1.5, 2.0]
    times = np.cumsum(np.r_[0, steps])
    ext = np.array([h.sum() for h in hs])

    def locs(nl):
        p = rng.uniform(0.15, 0.85, (nl, dim)) * ext
        return p

    rx = []
    if rxs in ("both", "h"):
        rx.append(richards.receivers.Pressure(locs(3), times=np.array([times[1], 0.4 * times[2] + 0.6 * times[3], times[-1]])))
    if rxs in ("both", "s"):
        rx.append(richards.receivers.Saturation(locs(2), times=np.array([0.5 * times[1], times[-1]])))
    if rxs == "both":
        rx.append(richards.receivers.Pressure(locs(1), times=times[2:4]))
    survey = richards.Survey(rx)
    sim = richards.SimulationNDCellCentered(
        mesh, survey=survey, hydraulic_conductivity=k, water_retention=th, root_finder_tol=tol, root_finder_max_iter=200,
        boundary_conditions=bc, initial_conditions=h0, do_newton=newton, method="head" if head else "mixed")
    sim.time_steps = steps
    blks, i = [], 0
    for j, r in enumerate(rx):
        blks.append((type(r).__name__ + f"[{j}]", np.arange(i, i + r.nD)))
        i += r.nD
    return Built(sim, np.concatenate(m), vscale=np.concatenate(sc), blks=blks, mesh=mesh, rtol=1e-5, eps=1e-11, names=names)


@scen("richards", lambda: (
    [dict(dim=1, curve="haverkamp", props=(p,), newton=nw) for p, nw in
     zip(["Ks", "A", "gamma", "alpha", "beta", "theta_r", "theta_s"], [False, True] * 4)]
    + [dict(dim=1, curve="vangenuchten", props=(p,), newton=nw) for p, nw in
       zip(["Ks", "I", "k:n", "k:alpha", "theta_r", "theta_s", "t:n", "t:alpha"], [True, False] * 4)]
    + [dict(dim=d, curve=c, props=("all",), newton=nw) for d in (1, 2, 3) for c, nw in (("haverkamp", True), ("vangenuchten", True))]
    + [dict(dim=2, curve="haverkamp", props=("Ks", "theta_s"), newton=False)]), "flow", getJ="Jfull", chunk=4, cost=9.0)
def richards_scen(rng, **kw):
    kw = dict(kw)
    return richards_case(rng, **kw)


# ------------------------------------------------------------------ tomography
@scen("tomo", grid(map=["id", "exp", "recip", "surject"], share=[False, True]), "seis", linear=True)
def tomo(rng, map="id", share=False):
    from discretize import TensorMesh
    from simpeg import maps
    from simpeg.seismic import straight_ray_tomography as tomo

    hs = [hvec(rng, 6, 1.0), hvec(rng, 5, 1.0)]
    mesh = TensorMesh(hs, origin=rng.uniform(-2, 2, 2))
    nC = mesh.n_cells
    lo, hi = mesh.origin, mesh.origin + [h.sum() for h in hs]
    nsrc = 3
    rxs = [tomo.Rx(rng.uniform(lo, hi, (k, 2))) for k in (3, 1, 2)]
    srcs = []
    for i in range(nsrc):
        rl = [rxs[0], rxs[1]] if share else [tomo.Rx(rng.uniform(lo, hi, (k, 2))) for k in rng.integers(1, 4, 2)]
        srcs.append(tomo.Src(location=rng.uniform(lo, hi), receiver_list=rl))
    survey = tomo.Survey(srcs)
    if map == "id":
        mp, m = maps.IdentityMap(nP=nC), rough(rng, nC, 0.2, 2)
    elif map == "exp":
        mp, m = maps.ExpMap(nP=nC), np.log(rough(rng, nC, 0.2, 2))
    elif map == "recip":
        mp, m = maps.ReciprocalMap(nP=nC), rough(rng, nC, 0.2, 2)
    else:
        import scipy.sparse as sp

        ix = rng.integers(0, 5, nC)
        mp, m = maps.LinearMap(sp.csr_matrix((np.ones(nC), (np.arange(nC), ix)), shape=(nC, 5))), rough(rng, 5, 0.2, 2)
    sim = tomo.Simulation(mesh, survey=survey, slownessMap=mp)
    return Built(sim, m, vscale=0.3, mesh=mesh)


# ------------------------------------------------------------------ VRM
def vrm_survey(rng, nsrc=2, wave="square", locs=None, field=None):
    from simpeg.electromagnetics import viscous_remanent_magnetization as vrm

    W = vrm.waveforms
    ft = ["h", "b", "dhdt", "dbdt"]
    if wave == "step":
        w = W.StepOff(t0=float(rng.uniform(-1e-3, 1e-5)))
        ft = ["dhdt", "dbdt"]
    elif wave == "square":
        w = W.SquarePulse(delt=float(rng.uniform(0.005, 0.05)), t0=float(rng.uniform(-1e-3, 1e-5)))
    elif wave == "discrete":
        w = W.ArbitraryDiscrete(t_wave=np.r_[-0.011, -0.01, -0.005, -0.001, 0], I_wave=np.r_[0, 0.0, 1.0, 0.6, 0])
    elif wave == "piecewise":
        w = W.ArbitraryPiecewise(t_wave=np.r_[-0.012, -0.01, -0.005, -0.001, 0], I_wave=np.r_[0, 0.0, 1.0, 0.6, 0])
    else:
        w = W.Custom(lambda t: -1e-7 / t)
    src = []
    for i in range(nsrc):
        rxs = []
        for j in range(2):
            loc = np.c_[rng.uniform(-25, 25, (2 + j, 2)), rng.uniform(2, 15, 2 + j)]
            t = np.sort(rough(rng, int(rng.integers(2, 5)), 1e-4, 1e-2))
            f = field or str(rng.choice(ft))
            o = "xyz"[rng.integers(3)]
            if j == 1:
                rxs.append(vrm.Rx.SquareLoop(loc, times=t, field_type=f, orientation=o, width=float(rng.uniform(1, 5)), n_turns=int(rng.integers(1, 4)), quadrature_order=int(rng.integers(1, 8))))
            else:
                rxs.append(vrm.Rx.Point(loc, times=t, field_type=f, orientation=o))
        L = np.r_[rng.uniform(-15, 15, 2), rng.uniform(3, 10)]
        k = (i + int(rng.integers(3))) % 3
        if k == 0:
            src.append(vrm.Src.MagDipole(rxs, L, rng.standard_normal(3), w))
        elif k == 1:
            src.append(vrm.Src.CircLoop(rxs, L, float(rng.uniform(2, 8)), rng.uniform(-60, 60, 2), float(rng.uniform(0.5, 3)), w))
        else:
            p = np.c_[rng.uniform(-15, 15, (3, 2)), rng.uniform(3, 8, 3)]
            src.append(vrm.Src.LineCurrent(rxs, np.vstack([p, p[:1]]), float(rng.uniform(0.5, 3)), w))
    return vrm.Survey(src)


@scen("vrm", grid(mesh=["tensor", "tree"], wave=["step", "square", "discrete", "piecewise"], active=[False, True], map=["id", "exp"]), "vrm", linear=True, chunk=4)
def vrm_scen(rng, mesh="tensor", wave="square", active=False, map="id", refine=None, interval=None):
    from simpeg import maps
    from simpeg.electromagnetics import viscous_remanent_magnetization as vrm

    M = tensor3(rng, n=(4, 3, 3), h=12.0) if mesh == "tensor" else tree3(rng, h=8.0, n=8)
    act = np.ones(M.n_cells, bool)
    if active:
        act = rng.random(M.n_cells) < 0.6
        act[0] = True
    n = int(act.sum())
    survey = vrm_survey(rng, wave=wave)
    if interval if interval is not None else rng.random() < 0.5:
        survey.set_active_interval(3e-4, 5e-3)
    mp = maps.IdentityMap(nP=n) if map == "id" else maps.ExpMap(nP=n)
    m = rough(rng, n, 1e-4, 1e-2) if map == "id" else np.log(rough(rng, n, 1e-4, 1e-2))
    rf = refine if refine is not None else int(rng.integers(0, 3))
    kw = dict(refinement_factor=0, refinement_distance=np.zeros(0)) if rf == 0 else dict(refinement_factor=rf, refinement_distance=np.sort(rng.uniform(5, 25, rf)))
    sim = vrm.Simulation3DLinear(M, survey=survey, active_cells=act, xiMap=mp, **kw)
    return Built(sim, m, vscale=(m if map == "id" else 1.0), mesh=M, act=act)


# ------------------------------------------------------------------ generic linear problems
@scen("linear", grid(kind=["dense", "sparse", "expsin"], map=["id", "exp", "surject"]), "linear", getJ="getJ", linear=True)
def linear(rng, kind="dense", map="id"):
    import scipy.sparse as sp
    from discretize import TensorMesh
    from simpeg import maps, simulation, survey

    mesh = TensorMesh([hvec(rng, 9, 1 / 9)])
    nC, nD = 9, 6
    if map == "id":
        mp, m = maps.IdentityMap(nP=nC), rng.standard_normal(nC)
    elif map == "exp":
        mp, m = maps.ExpMap(nP=nC), rng.standard_normal(nC)
    else:
        ix = rng.integers(0, 4, nC)
        mp, m = maps.LinearMap(sp.csr_matrix((np.ones(nC), (np.arange(nC), ix)), shape=(nC, 4))), rng.standard_normal(4)
    if kind == "expsin":
        sim = simulation.ExponentialSinusoidSimulation(mesh, n_kernels=nD, p=-0.4, q=0.3, j0=0.5, jn=8.0, model_map=mp)
    else:
        G = rng.standard_normal((nD, nC))
        if kind == "sparse":
            G = sp.csr_matrix(G * (rng.random(G.shape) < 0.4))
        sim = simulation.LinearSimulation(G=G, model_map=mp)
    return Built(sim, m)
