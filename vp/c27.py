"""C27: unsaturated flow conserves mass and its constitutive curves are consistent.

Curves with random parameters are sampled over many decades of head on both sides of saturation and compared with the
published formulas, their bounds, monotonicity and numerical derivatives. Simulations in one to three dimensions with
random cells, parameters, boundary and initial conditions are run, and the water balance of every cell and step is
evaluated by loops written from the equation rather than with the operators of the simulation.
"""
import numpy as np

from vp.core import case, quiet
from vp.scen import hvec

RULE = "curve values, bounds, monotonicity, derivatives; (theta_new - theta_old) volume / dt == net inflow of every cell; hydrostatic heads are steady; columns of any dimension agree"
REQUIRED = {"curve values": 20000, "curve derivatives": 6000, "steps": 80, "cell balances": 1000, "hydrostatic steps": 40, "columns": 8}


def theta_h(u, theta_r, theta_s, alpha, beta):
    return np.where(u >= 0, theta_s, alpha * (theta_s - theta_r) / (alpha + np.abs(u) ** beta) + theta_r)


def k_h(u, Ks, A, gamma):
    return np.where(u >= 0, Ks, Ks * A / (A + np.abs(u) ** gamma))


def theta_v(u, theta_r, theta_s, alpha, n):
    return np.where(u >= 0, theta_s, (theta_s - theta_r) / (1 + np.abs(alpha * u) ** n) ** (1 - 1 / n) + theta_r)


def k_v(u, Ks, alpha, I, n):
    m = 1 - 1 / n
    te = 1 / (1 + np.abs(alpha * u) ** n) ** m
    return np.where(u >= 0, Ks, Ks * te**I * (1 - (1 - te ** (1 / m)) ** m) ** 2)


def params(rng, kind, n=None):
    U = lambda a, b: rng.uniform(a, b, n) if n else float(rng.uniform(a, b))
    L = lambda a, b: np.exp(U(np.log(a), np.log(b)))
    if kind == "haverkamp":
        return (dict(theta_r=U(0.02, 0.1), theta_s=U(0.25, 0.5), alpha=L(1e5, 5e6), beta=U(2.5, 4.5)),
                dict(Ks=L(1e-3, 1e-1), A=L(1e5, 5e6), gamma=U(3, 5)))
    al, nn = L(0.01, 0.15), U(1.3, 2.8)
    return (dict(theta_r=U(0.02, 0.1), theta_s=U(0.25, 0.5), alpha=al, n=nn), dict(Ks=L(1e-3, 1e-1), alpha=al, I=U(0.2, 1.0), n=nn))


def curves(mesh, kind, pt, pk):
    from simpeg.flow.richards import empirical as E

    if kind == "haverkamp":
        return E.Haverkamp_theta(mesh, **pt), E.Haverkamp_k(mesh, **pk), theta_h, k_h
    return E.Vangenuchten_theta(mesh, **pt), E.Vangenuchten_k(mesh, **pk), theta_v, k_v


@case("C27", "curves", quick=16, thorough=150)
def curve(ctx):
    from discretize import TensorMesh

    rng = ctx.rng
    for kind in ("haverkamp", "vangenuchten"):
        for array in (False, True):
            N = 240
            mesh = TensorMesh([N])
            pt, pk = params(rng, kind, N if array else None)
            th, kk, ft, fk = curves(mesh, kind, pt, pk)
            u = -(10.0 ** rng.uniform(-4, 3.5, N))
            u[rng.random(N) < 0.15] *= -1
            u[:3] = 0.0, -1e-12, 1e-12
            u = rng.permutation(u)
            ctx.label(f"{kind} {'array' if array else 'scalar'} parameters")
            keep = u.copy()
            T, K = th(u), kk(u)
            ctx.check(np.array_equal(u, keep), "heads changed", "")
            ctx.event("curve values", 2 * N)
            ctx.close(T, ft(u, **pt), f"{kind} water content", rtol=1e-12)
            ctx.close(K / pk["Ks"], fk(u, **pk) / pk["Ks"], f"{kind} conductivity", rtol=1e-9)
            ctx.check(np.all(T >= pt["theta_r"] - 1e-15) and np.all(T <= pt["theta_s"] + 1e-15), f"{kind} water content out of bounds", "")
            ctx.check(np.all(K >= 0) and np.all(K <= pk["Ks"] * (1 + 1e-12)), f"{kind} conductivity out of bounds", "")
            sat = u >= 0
            ctx.check(np.array_equal(T[sat], np.broadcast_to(pt["theta_s"], (N,))[sat]), f"{kind} saturated water content", "")
            ctx.check(np.array_equal(K[sat], np.broadcast_to(pk["Ks"], (N,))[sat]), f"{kind} saturated conductivity", "")
            u2 = u + np.abs(u) * rng.uniform(0, 0.5, N)
            ctx.check(np.all(th(u2) >= T - 1e-14) and np.all(kk(u2) >= K * (1 - 1e-11) - 1e-300), f"{kind} not monotone", "")
            # derivative with head
            # closer to saturation the formula of the conductivity loses its digits
            ok = (u >= 0) | (np.abs(u) > 1e-3)
            if kind == "vangenuchten":
                ok = (u >= 0) | (np.abs(pk["alpha"] * u) ** pk["n"] > 1e-3)
            h = np.where(u < 0, 1e-4 * np.abs(u), 1e-14) + 1e-300
            for nm, c, f, p in (("water content", th, ft, pt), ("conductivity", kk, fk, pk)):
                num = (8 * (f(u + h, **p) - f(u - h, **p)) - (f(u + 2 * h, **p) - f(u - 2 * h, **p))) / (12 * h)
                got = c.derivU(u).diagonal()
                ctx.check(np.all(np.isfinite(got[ok])), f"{kind} derivative of {nm} not finite", "")
                ctx.event("curve derivatives", int(ok.sum()))
                s = np.abs(f(u, **p)) / np.maximum(np.abs(u), 1e-12)
                num[u >= 0] = 0
                rel = np.where(ok, (got - num) / s, 0)
                ctx.close(rel, 0 * rel, f"{kind} derivative of {nm} with head", rtol=0, atol=3e-5)
                ctx.check(np.all(got[ok] >= 0), f"{kind} derivative of {nm} negative", "")
                ctx.check(np.all(got[u >= 0] == 0), f"{kind} derivative of saturated {nm}", "")


@case("C27", "parameters", quick=12, thorough=100)
def parameters(ctx):
    """derivatives with the parameters"""
    from discretize import TensorMesh
    from simpeg import maps

    rng = ctx.rng
    N = 30
    mesh = TensorMesh([N])
    for kind in ("haverkamp", "vangenuchten"):
        pt, pk = params(rng, kind, N)
        th, kk, ft, fk = curves(mesh, kind, pt, pk)
        u = -(10.0 ** rng.uniform(-2, 3, N))
        u[:4] = 0.0, 3.0, 1e-5, -1.0
        u = rng.permutation(u)
        for nm, c, f, p in (("water content", th, ft, pt), ("conductivity", kk, fk, pk)):
            names = list(p)
            if rng.integers(2):
                names = [str(x) for x in rng.permutation(names)[: int(rng.integers(1, len(names) + 1))]]
            order = [str(x) for x in rng.permutation(names)]
            w = maps.Wires(*[(x, N) for x in order])
            for x in names:
                setattr(c, x + "Map", getattr(w, x))
            m = np.concatenate([p[x] for x in order])
            c.model = m
            ctx.label(f"{kind} {nm} derivative with {order}")
            D = c.derivM(u)
            D = np.asarray(D.todense() if hasattr(D, "todense") else D)
            ctx.check(D.shape == (N, m.size) and np.all(np.isfinite(D)), f"{kind} {nm} parameter derivative", f"{D.shape}")
            ctx.close(c(u), f(u, **p), f"{kind} {nm} of a model", rtol=1e-12)
            for i, x in enumerate(order):
                h = 1e-4 * np.abs(p[x])
                g = lambda s: f(u, **{**p, x: p[x] + s * h})
                num = (8 * (g(1) - g(-1)) - (g(2) - g(-2))) / (12 * h)
                blk = D[:, i * N : (i + 1) * N]
                ctx.event("curve derivatives", N)
                s = np.abs(f(u, **p) / p[x]) + 1e-300
                ctx.close(np.diag(blk) / s, num / s, f"{kind} {nm} derivative with {x}", rtol=1e-6, atol=1e-6)
                ctx.check(np.all(blk - np.diag(np.diag(blk)) == 0), f"{kind} {nm} derivative with {x} of other cells", "")


def vertical(mesh, h):
    return h.reshape(mesh.shape_cells if mesh.dim > 1 else (-1,), order="F")


def inflow(mesh, h, K, bcs, fb):
    """net inflow per volume of every cell; bcs = ((kind, values), (kind, values)) at the bottom and the top"""
    sh = mesh.shape_cells if mesh.dim > 1 else (mesh.n_cells,)
    H, KK = h.reshape(sh, order="F"), K.reshape(sh, order="F")
    out = np.zeros(sh)
    for ax in range(mesh.dim):
        d = mesh.h[ax]
        H_, K_, o = np.moveaxis(H, ax, 0), np.moveaxis(KK, ax, 0), np.moveaxis(out, ax, 0)
        g = 1.0 if ax == mesh.dim - 1 else 0.0
        for i in range(len(d) - 1):
            kf = 2.0 / (1.0 / K_[i] + 1.0 / K_[i + 1])
            q = kf * ((H_[i + 1] - H_[i]) / (0.5 * (d[i] + d[i + 1])) + g)  # towards the lower index
            o[i] += q / d[i]
            o[i + 1] -= q / d[i + 1]
        if ax == mesh.dim - 1:
            for i, (kind, v), s in ((0, bcs[0], -1), (-1, bcs[1], 1)):
                gr = 0.0 if kind == "neumann" else s * (v.reshape(H_[i].shape, order="F") - H_[i]) / (0.5 * d[i])
                q = fb * K_[i] * (gr + g)
                o[i] += s * q / d[i]
    return out.reshape(-1, order="F")


def setup(rng, dim, kind, bckind, hydro=False, newton=False, uniform=False, shape=None, tol=1e-9):
    from discretize import TensorMesh
    from simpeg.flow import richards

    shape = shape or {1: (int(rng.integers(3, 16)),), 2: (int(rng.integers(2, 5)), int(rng.integers(3, 8))), 3: (2, 3, int(rng.integers(3, 6)))}[dim]
    hs = [hvec(rng, k, (40.0 if i == dim - 1 else 12.0) / k) for i, k in enumerate(shape)]
    mesh = TensorMesh(hs, origin=rng.uniform(-50, 50, dim))
    mesh.set_cell_gradient_BC((["neumann"] * (dim - 1) + [bckind]) if dim > 1 else bckind)
    n = mesh.n_cells
    pt, pk = params(rng, kind, None if uniform else n)
    return hs, mesh, n, pt, pk


def run(ctx, rng, mesh, kind, pt, pk, bc, h0, steps, newton, tol, rx=None):
    from simpeg.flow import richards

    th, kk, ft, fk = curves(mesh, kind, pt, pk)
    sim = richards.SimulationNDCellCentered(
        mesh, survey=richards.Survey(rx or [richards.receivers.Pressure(np.reshape(mesh.cell_centers, (mesh.n_cells, -1))[:1], times=np.cumsum(steps)[-1:])]),
        hydraulic_conductivity=kk, water_retention=th, boundary_conditions=bc, initial_conditions=h0, do_newton=newton,
        root_finder_tol=tol, root_finder_max_iter=150)
    sim.time_steps = steps
    rf = sim.root_finder
    root = rf.root

    def monitored(*a, **k):
        x = root(*a, **k)
        if x is None:  # the line search gave up
            raise LookupError("not converged")
        return x

    rf.root = monitored
    with quiet():
        u = sim.fields(None)
    return sim, u, ft, fk


@case("C27", "balance", quick=32, thorough=160, cost=3.0)
def balance(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    kind = str(rng.choice(["haverkamp", "vangenuchten"]))
    bck = str(rng.choice(["dirichlet", "dirichlet", "neumann"]))
    hs, mesh, n, pt, pk = setup(rng, dim, kind, bck)
    if rng.integers(2):
        pt = {k: float(np.mean(v)) for k, v in pt.items()}
        pk = {k: float(np.mean(v)) for k, v in pk.items()}
    top = int(np.prod(mesh.shape_cells[:-1])) if dim > 1 else 1
    hb, ht = rng.uniform(-60, -20, top), rng.uniform(-50, 5, top)
    bc = np.zeros(mesh.cell_gradient_BC.shape[1])
    if bck == "dirichlet":
        bc[-2 * top : -top], bc[-top:] = hb, ht
    h0 = rng.uniform(-60, -15, n)
    newton = bool(rng.integers(2))
    steps = 10.0 ** rng.uniform(-1, 1.3, 4)
    from simpeg.flow import richards

    tn = np.r_[0, np.cumsum(steps)]
    ci, ti = rng.integers(0, n, 3), np.sort(rng.choice(len(tn), 2, replace=False))
    xyz = np.reshape(mesh.cell_centers, (n, -1))[ci]
    rx = [richards.receivers.Pressure(xyz, times=tn[ti]), richards.receivers.Saturation(xyz, times=tn[ti])]
    tol = 1e-9
    ctx.label(f"{dim}D {kind} {bck} {'newton' if newton else 'picard'} {mesh.shape_cells}")
    bck_, h0_ = bc.copy(), h0.copy()
    try:
        sim, u, ft, fk = run(ctx, rng, mesh, kind, pt, pk, bc, h0, steps, newton, tol, rx)
    except LookupError:
        ctx.event("steps not converged")
        return
    ctx.check(np.array_equal(bc, bck_) and np.array_equal(h0, h0_), "conditions changed", "")
    ctx.check(len(u) == len(steps) + 1 and np.array_equal(u[0], h0), "initial heads", "")
    bcs = ((bck, hb), (bck, ht))
    edge = np.zeros(mesh.shape_cells if dim > 1 else (n,), bool)
    edge[..., 0] = edge[..., -1] = True
    edge = edge.reshape(-1, order="F")
    for i, dt in enumerate(steps):
        with quiet():
            conv = np.linalg.norm(sim.getResidual(None, u[i], u[i + 1], dt, bc, return_g=False)) < tol
        if not conv or not np.all(np.isfinite(u[i + 1])):
            ctx.event("steps not converged")
            continue
        ctx.event("steps")
        ctx.event("cell balances", n)
        K = fk(u[i + 1], **pk)
        acc = (ft(u[i + 1], **pt) - ft(u[i], **pt)) / dt
        r1 = acc - inflow(mesh, u[i + 1], K, bcs, 1.0)
        r2 = acc - inflow(mesh, u[i + 1], K, bcs, 2.0)
        s = 10 * tol + 1e-9 * np.abs(acc).max()
        ctx.check(np.abs(r1[~edge]).max(initial=0) < s, "water balance", f"imbalance {np.abs(r1[~edge]).max(initial=0):.3e}, storage {np.abs(acc).max():.3e}")
        if np.abs(r1[edge]).max() >= s:
            two = np.abs(r2[edge]).max() < s
            ctx.check(False, "water balance of boundary cells with twice the conductivity" if two else "water balance of boundary cells", f"imbalance {np.abs(r1[edge]).max():.3e}, storage {np.abs(acc).max():.3e}")
    with quiet():
        d = sim.dpred(None, f=u)
    P = np.array([u[t][ci] for t in ti])
    S = np.array([ft(u[t], **pt)[ci] for t in ti])
    ctx.close(np.sort(d[: P.size]), np.sort(P.ravel()), "pressure data", rtol=1e-9)
    ctx.close(np.sort(d[P.size :]), np.sort(S.ravel()), "saturation data", rtol=1e-9)


@case("C27", "hydrostatic", quick=16, thorough=120, cost=2.0)
def hydrostatic(ctx):
    rng = ctx.rng
    dim = int(rng.integers(1, 4))
    kind = str(rng.choice(["haverkamp", "vangenuchten"]))
    hs, mesh, n, pt, pk = setup(rng, dim, kind, "dirichlet")
    z0 = mesh.origin[-1]
    c = z0 + rng.uniform(-60, 30)
    h0 = c - np.reshape(mesh.cell_centers, (n, -1))[:, -1]
    top = int(np.prod(mesh.shape_cells[:-1])) if dim > 1 else 1
    bc = np.zeros(mesh.cell_gradient_BC.shape[1])
    bc[-2 * top : -top] = c - z0
    bc[-top:] = c - z0 - hs[-1].sum()
    newton = bool(rng.integers(2))
    steps = 10.0 ** rng.uniform(0, 3, 3)
    ctx.label(f"hydrostatic {dim}D {kind} {'newton' if newton else 'picard'}")
    sim, u, ft, fk = run(ctx, rng, mesh, kind, pt, pk, bc, h0, steps, newton, 1e-10)
    for x in u[1:]:
        ctx.event("hydrostatic steps")
        ctx.close(x, h0, "hydrostatic heads moved", rtol=0, atol=1e-4 * np.abs(h0).max() + 1e-4)
        ctx.close(ft(x, **pt), ft(h0, **pt), "hydrostatic water content changed", rtol=1e-7)


@case("C27", "columns", quick=6, thorough=50, cost=4.0)
def columns(ctx):
    """laterally uniform problems do not depend on the number of dimensions"""
    from discretize import TensorMesh

    rng = ctx.rng
    kind = str(rng.choice(["haverkamp", "vangenuchten"]))
    hs, mesh, n, pt, pk = setup(rng, 1, kind, "dirichlet")
    hb, ht = float(rng.uniform(-60, -30)), float(rng.uniform(-50, -20))
    h0 = rng.uniform(-60, -25, n)
    steps = 10.0 ** rng.uniform(-1, 1, 3)
    newton = False
    _, u1, ft, fk = run(ctx, rng, mesh, kind, pt, pk, np.r_[hb, ht], h0, steps, newton, 1e-10)
    for dim in (2, 3):
        lat = [hvec(rng, int(rng.integers(2, 4)), 3.0) for _ in range(dim - 1)]
        m2 = TensorMesh(lat + [mesh.h[0]], origin=np.r_[rng.uniform(-5, 5, dim - 1), mesh.origin])
        m2.set_cell_gradient_BC(["neumann"] * (dim - 1) + ["dirichlet"])
        k = int(np.prod([len(x) for x in lat]))
        rep = lambda x: np.repeat(x, k)
        bc = np.zeros(m2.cell_gradient_BC.shape[1])
        bc[-2 * k : -k], bc[-k:] = hb, ht
        ctx.label(f"columns {dim}D {kind} {'newton' if newton else 'picard'}")
        s, u2, _, _ = run(ctx, rng, m2, kind, {a: rep(b) for a, b in pt.items()}, {a: rep(b) for a, b in pk.items()}, bc, rep(h0), steps, newton, 1e-10)
        for i in range(len(steps)):
            with quiet():
                conv = np.linalg.norm(s.getResidual(None, u2[i], u2[i + 1], steps[i], bc, return_g=False)) < 1e-9
            if not conv:
                ctx.event("steps not converged")
                break
            ctx.close(u2[i + 1], rep(u1[i + 1]), "column of more dimensions", rtol=1e-4)
        else:
            ctx.event("columns")
