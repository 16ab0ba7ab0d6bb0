"""C17: gravity and magnetic predictions against prism quadrature and their own identities.

Oracle: Gauss quadrature of the point-source kernels over every active cell (independent of the closed forms used by the
code), for every component, engine, mesh kind, model type and equivalent layer. Metamorphic monitors: cells subdivided,
joint translation, traces outside and inside bodies, derived components, model variants that must coincide.
"""
import numpy as np

from .core import case, quiet
from . import scen_pf
from .scen import tensor3, tree3

RULE = "data == sum over cells of quadrature of point-source kernels; identities between components"
REQUIRED = {"quadrature data": 400, "identities": 300, "differential": 4}
G_COMP, M_COMP = scen_pf.G_COMP, scen_pf.M_COMP
GN = 6.67430e-11
AX = "xyz"


def gauss(nodes, n):
    x, w = np.polynomial.legendre.leggauss(n)
    return x, w


def boxes_of(mesh, act):
    c, h = mesh.cell_centers[act], mesh.h_gridded[act]
    return np.c_[c - h / 2, c + h / 2]


def potential_derivs(box, p, n=9):
    """derivatives (orders 1 to 3) at p of the integral over each box of 1/r"""
    x, w = gauss(None, n)
    X, Y, Z = np.meshgrid(x, x, x, indexing="ij")
    q = np.c_[X.ravel(), Y.ravel(), Z.ravel()]
    W = np.einsum("i,j,k->ijk", w, w, w).ravel()
    c, hh = 0.5 * (box[:, :3] + box[:, 3:]), 0.5 * (box[:, 3:] - box[:, :3])
    pts = c[:, None, :] + hh[:, None, :] * q[None]
    wt = W[None] * hh.prod(axis=1)[:, None]
    d = p - pts  # from the source to the observer
    r2 = (d * d).sum(-1)
    r = np.sqrt(r2)
    g = -np.einsum("bq,bqi->bi", wt / r**3, d)
    e = np.eye(3)
    t = 3 * np.einsum("bq,bqi,bqj->bij", wt / r**5, d, d) - np.einsum("bq,ij->bij", wt / r**3, e)
    s1 = np.einsum("bq,bqi->bi", wt / r**5, d)
    k = -15 * np.einsum("bq,bqi,bqj,bqk->bijk", wt / r**7, d, d, d) + 3 * (
        np.einsum("bi,jk->bijk", s1, e) + np.einsum("bj,ik->bijk", s1, e) + np.einsum("bk,ij->bijk", s1, e)
    )
    return g, t, k


def split(box, p, lim=1.5, depth=0):
    """boxes cut across their longest side until each is far from p compared with its size"""
    c, hh = 0.5 * (box[:, :3] + box[:, 3:]), 0.5 * (box[:, 3:] - box[:, :3])
    d = np.linalg.norm(np.maximum(np.abs(p - c) - hh, 0.0), axis=1)
    near = d < lim * hh.max(axis=1)
    if depth > 15 or not near.any():
        return box, np.arange(len(box))
    b = box[near]
    k = np.argmax(hh[near], axis=1)
    r = np.arange(len(b))
    lo, hi = b.copy(), b.copy()
    lo[r, 3 + k] = hi[r, k] = c[near][r, k]
    s, i = split(np.vstack([lo, hi]), p, lim, depth + 1)
    j = np.flatnonzero(near)
    return np.vstack([box[~near], s]), np.concatenate([np.flatnonzero(~near), np.concatenate([j, j])[i]])


def kernels(box, p):
    b, i = split(box, p)
    g, t, k = potential_derivs(b, p)
    n = len(box)
    G, T, K = np.zeros((n, 3)), np.zeros((n, 3, 3)), np.zeros((n, 3, 3, 3))
    np.add.at(G, i, g)
    np.add.at(T, i, t)
    np.add.at(K, i, k)
    return G, T, K


def grav_value(comp, G, T, rho):
    """mGal and Eotvos of densities in g/cc, z upwards"""
    if comp == "guv":
        return 0.5 * (grav_value("gyy", G, T, rho) - grav_value("gxx", G, T, rho))
    if len(comp) == 2:
        return GN * 1e3 * 1e5 * (rho @ G[:, AX.index(comp[1])])
    return GN * 1e3 * 1e9 * (rho @ T[:, AX.index(comp[1]), AX.index(comp[2])])


def mag_value(comp, T, K, m, u):
    """nT (and nT/m) of effective magnetisations m (nC x 3) in nT; u direction of the inducing field"""
    b = np.einsum("cij,cj->i", T, m) / (4 * np.pi)
    if comp == "tmi":
        return b @ u
    if len(comp) == 2:
        return b[AX.index(comp[1])]
    db = np.einsum("cijk,ck->ij", K, m) / (4 * np.pi)
    if comp.startswith("tmi_"):
        return db[AX.index(comp[-1])] @ u
    return db[AX.index(comp[1]), AX.index(comp[2])]


def direction(inc, dec):
    i, d = np.deg2rad(inc), np.deg2rad(dec)
    return np.r_[np.cos(i) * np.sin(d), np.cos(i) * np.cos(d), -np.sin(i)]


def hostile_locs(rng, mesh, box, n):
    """above the mesh, some on planes of nodes and centres of cells, some below and beside"""
    nx, ny, nz = mesh.nodes_x if hasattr(mesh, "nodes_x") else None, mesh.nodes_y, mesh.nodes_z
    lo, hi = box[:, :3].min(0), box[:, 3:].max(0)
    size = (box[:, 3:] - box[:, :3]).min()
    out = []
    for i in range(n):
        p = rng.uniform(lo - 20, hi + 20)
        side = rng.integers(5)
        if side < 3:
            p[2] = hi[2] + size * rng.uniform(0.4, 2)
        elif side == 3:
            p[2] = lo[2] - size * rng.uniform(0.4, 2)
        else:
            p[0] = hi[0] + size * rng.uniform(0.4, 2)
        for a in (0, 1):
            k = rng.integers(4)
            if k == 0 and not (side == 4 and a == 0):
                p[a] = rng.choice((nx, ny)[a])
            elif k == 1 and not (side == 4 and a == 0):
                p[a] = rng.choice(box[:, a] + box[:, 3 + a]) / 2
        out.append(p)
    return np.array(out)


def comps_for(rng, eng, comps, n):
    if eng == "choclo":
        return [str(c) for c in rng.permutation(comps)[:n]]
    return [str(c) for c in rng.permutation(comps)]


def compare(ctx, d, ref, names, key, rtol=2e-7):
    """names: component of every datum; errors relative to the largest value of the component"""
    d, ref = np.asarray(d), np.asarray(ref)
    if not ctx.check(d.shape == ref.shape, key + " number of data", f"{d.shape} {ref.shape}"):
        return
    for c in sorted(set(names)):
        i = np.array([k for k, n in enumerate(names) if n == c])
        ctx.event("quadrature data", i.size)
        ctx.close(d[i], ref[i], f"{key} {c}", rtol=rtol, scale=np.abs(ref[i]).max() + 1e-12)


def one_survey(rng, box, mesh, mod, comps, ngrp=2):
    rx, names, locs = [], [], []
    cut = np.array_split(np.array(comps), ngrp)
    for g in cut:
        g = [str(x) for x in g]
        if not g:
            continue
        L = hostile_locs(rng, mesh, box, int(rng.integers(2, 4)))
        rx.append((L, g))
        for p in L:
            for c in g:
                names.append(c)
                locs.append(p)
    return rx, names, locs


GV = [("tensor", "geoana", "3d"), ("tree", "geoana", "3d"), ("tensor", "geoana", "layer"), ("tensor", "choclo", "3d"), ("tree", "choclo", "3d"), ("tensor", "choclo", "layer")]


def build_mesh(rng, kind, form):
    if form == "3d":
        mesh = tensor3(rng, n=(4, 3, 3), h=20.0) if kind == "tensor" else tree3(rng, h=20.0, n=4)
        act = rng.random(mesh.n_cells) < 0.7
        act[:2] = True
        return mesh, act, boxes_of(mesh, act), mesh, {}
    import discretize

    hs = [rng.uniform(10, 25, 5), rng.uniform(10, 25, 4)]
    m2 = discretize.TensorMesh(hs, origin=[-40.0, -40.0])
    act = rng.random(m2.n_cells) < 0.8
    act[:2] = True
    n = int(act.sum())
    top = -rng.uniform(0, 5, n)
    bot = top - rng.uniform(8, 12, n)
    c, h = m2.cell_centers[act], m2.h_gridded[act]
    box = np.c_[c - h / 2, bot, c + h / 2, top]
    m3 = discretize.TensorMesh([hs[0], hs[1], [10.0]], origin=[-40.0, -40.0, -10.0])
    return m2, act, box, m3, dict(top=top, bot=bot)


@case("C17", "gravity", quick=18, thorough=90, cost=3)
def gravity_(ctx):
    from simpeg import maps
    from simpeg.potential_fields import gravity as gr

    rng = ctx.rng
    kind, eng, form = GV[ctx.rep % len(GV)]
    ctx.label(f"gravity {kind} {eng} {form}")
    mesh, act, box, m3, kw = build_mesh(rng, kind, form)
    n = int(act.sum())
    rx, names, locs = one_survey(rng, box, m3, gr, comps_for(rng, eng, G_COMP, 4))
    sv = gr.Survey(gr.SourceField([gr.Point(L, components=g) for L, g in rx]))
    store = str(rng.choice(["ram", "forward_only"]))
    args = dict(survey=sv, rhoMap=maps.IdentityMap(nP=n), active_cells=act, engine=eng, store_sensitivities=store, sensitivity_dtype=np.float64)
    with quiet():
        sim = gr.Simulation3DIntegral(mesh, **args) if form == "3d" else gr.SimulationEquivalentSourceLayer(mesh, kw["top"], kw["bot"], **args)
        rho = rng.uniform(-2, 3, n)
        if rng.random() < 0.4:  # a single body
            rho = np.zeros(n)
            rho[rng.integers(n)] = 2.5
        d = sim.dpred(rho)
    ref = []
    cache = {}
    for c, p in zip(names, locs):
        k = tuple(p)
        if k not in cache:
            cache[k] = kernels(box, p)
        ref.append(grav_value(c, cache[k][0], cache[k][1], rho))
    compare(ctx, d, ref, names, f"gravity ({eng}, {form})")


MV = [("tensor", "geoana", "3d", "scalar"), ("tree", "geoana", "3d", "vector"), ("tensor", "geoana", "3d", "amp"), ("tensor", "geoana", "layer", "scalar"), ("tensor", "geoana", "layer", "vector"), ("tensor", "geoana", "3d", "vecamp"),
      ("tensor", "choclo", "3d", "scalar"), ("tree", "choclo", "3d", "vector"), ("tensor", "choclo", "layer", "scalar"), ("tree", "choclo", "3d", "amp")]


@case("C17", "magnetics", quick=20, thorough=100, cost=4)
def magnetics_(ctx):
    from simpeg import maps
    from simpeg.potential_fields import magnetics as mg

    rng = ctx.rng
    kind, eng, form, typ = MV[ctx.rep % len(MV)]
    ctx.label(f"magnetics {kind} {eng} {form} {typ}")
    mesh, act, box, m3, kw = build_mesh(rng, kind, form)
    n = int(act.sum())
    amp = typ in ("amp", "vecamp")
    vec = typ in ("vector", "vecamp")
    comps = ["bx", "by", "bz"] if amp else comps_for(rng, eng, M_COMP, 4)
    rx, names, locs = one_survey(rng, box, m3, mg, comps, 1 if amp else 2)
    inc, dec, B = float(rng.choice([rng.uniform(-90, 90), 90.0, 0.0, -90.0], p=[0.7, 0.1, 0.1, 0.1])), float(rng.uniform(-180, 360)), float(rng.uniform(2e4, 6e4))
    sv = mg.Survey(mg.UniformBackgroundField([mg.receivers.Point(L, components=g) for L, g in rx], amplitude=B, inclination=inc, declination=dec))
    store = str(rng.choice(["ram", "forward_only"]))
    args = dict(survey=sv, chiMap=maps.IdentityMap(nP=n * (3 if vec else 1)), active_cells=act, engine=eng, store_sensitivities=store, sensitivity_dtype=np.float64, model_type="vector" if vec else "scalar")
    with quiet():
        if form == "3d":
            sim = mg.Simulation3DIntegral(mesh, is_amplitude_data=amp, **args)
        else:
            sim = mg.SimulationEquivalentSourceLayer(mesh, kw["top"], kw["bot"], **args)
        chi = rng.uniform(-0.05, 0.1, n * (3 if vec else 1))
        d = sim.dpred(chi)
    u = direction(inc, dec)
    m = (chi.reshape(3, n).T if vec else chi[:, None] * u) * B
    ref, cache = [], {}
    for c, p in zip(names, locs):
        k = tuple(p)
        if k not in cache:
            cache[k] = kernels(box, p)
        ref.append(mag_value(c, cache[k][1], cache[k][2], m, u))
    if amp:
        pts = {}
        for c, p, r in zip(names, locs, ref):
            pts.setdefault(tuple(p), []).append(r)
        ref = [np.sqrt(np.sum(np.square(v))) for v in pts.values()]
        names = ["amplitude"] * len(ref)
    compare(ctx, d, ref, names, f"magnetics ({eng}, {form}, {typ})", rtol=5e-7)


@case("C17", "identities", quick=10, thorough=60, cost=2)
def identities(ctx):
    """subdivision, translation, traces and combined components, with receivers anywhere outside cell boundaries"""
    import discretize
    from simpeg import maps
    from simpeg.potential_fields import gravity as gr, magnetics as mg

    rng = ctx.rng
    hs = [rng.uniform(10, 25, k) for k in (3, 3, 2)]
    org = rng.uniform(-60, -20, 3)
    mesh = discretize.TensorMesh(hs, origin=org)
    fine = discretize.TensorMesh([np.repeat(h / 2, 2) for h in hs], origin=org)
    far = rng.uniform(-2000, 2000, 3)
    moved = discretize.TensorMesh(hs, origin=org + far)
    nC = mesh.n_cells
    ijk = [np.floor((fine.cell_centers[:, a] - org[a] < np.cumsum(hs[a])[:, None]).sum(0)) for a in range(3)]
    own = sum(((hs[a].size - ijk[a].astype(int)) * [1, hs[0].size, hs[0].size * hs[1].size][a]) for a in range(3))
    val = rng.uniform(-1, 2, nC)
    # inside cells (away from faces of the fine mesh) and outside
    lo, hi = org, org + np.array([h.sum() for h in hs])
    inside = fine.cell_centers[rng.choice(fine.n_cells, 3, replace=False)] + rng.uniform(-1, 1, (3, 3))
    outside = np.array([np.where(np.arange(3) == rng.integers(3), hi + rng.uniform(1, 30, 3), rng.uniform(lo, hi)) for _ in range(3)])
    locs = np.vstack([inside, outside])
    n = len(locs)
    inc, dec, B = float(rng.uniform(-85, 85)), float(rng.uniform(-180, 180)), 5e4
    u = direction(inc, dec)

    def grav(msh, v, L):
        sv = gr.Survey(gr.SourceField([gr.Point(L, components=G_COMP)]))
        with quiet():
            s = gr.Simulation3DIntegral(msh, survey=sv, rhoMap=maps.IdentityMap(nP=msh.n_cells), sensitivity_dtype=np.float64, engine="geoana")
            return dict(zip(G_COMP, s.dpred(v).reshape(len(L), -1).T))

    def magn(msh, v, L, comps=M_COMP, **kw):
        sv = mg.Survey(mg.UniformBackgroundField([mg.receivers.Point(L, components=comps)], amplitude=B, inclination=inc, declination=dec))
        with quiet():
            s = mg.Simulation3DIntegral(msh, survey=sv, chiMap=maps.IdentityMap(nP=v.size), sensitivity_dtype=np.float64, engine="geoana", **kw)
            d = s.dpred(v)
        return dict(zip(comps, d.reshape(len(L), -1).T)) if not kw.get("is_amplitude_data") else d

    def same(a, b, key, rtol):
        for c in a:
            ctx.event("identities")
            ctx.close(a[c], b[c], f"{key}: {c}", rtol=rtol, scale=np.abs(a[c]).max() + 1e-12)

    g, gf, gm = grav(mesh, val, locs), grav(fine, val[own], locs), grav(moved, val, locs + far)
    same(g, gf, "gravity of subdivided cells", 1e-7)
    same(g, gm, "gravity of a translated survey", 1e-6)
    chi = val * 0.05
    m, mf, mm = magn(mesh, chi, locs), magn(fine, chi[own], locs), magn(moved, chi, locs + far)
    same(m, mf, "magnetics of subdivided cells", 1e-6)
    same(m, mm, "magnetics of a translated survey", 1e-5)
    ctx.event("identities", 6)
    cell = mesh.point2index(inside)
    poisson = np.r_[-4 * np.pi * GN * 1e12 * val[cell], np.zeros(3)]
    sc = max(np.abs(g[c]).max() for c in ("gxx", "gyy", "gzz"))
    ctx.close(g["gxx"] + g["gyy"] + g["gzz"], poisson, "trace of gravity gradients", rtol=1e-7, scale=sc)
    ctx.close(g["guv"], 0.5 * (g["gyy"] - g["gxx"]), "guv", rtol=1e-9, scale=sc)
    ctx.close(m["tmi"], m["bx"] * u[0] + m["by"] * u[1] + m["bz"] * u[2], "tmi of field components", rtol=1e-9, scale=np.abs(m["bz"]).max())
    sc = max(np.abs(m[c]).max() for c in ("bxx", "byy", "bzz"))
    ctx.close(m["bxx"] + m["byy"] + m["bzz"], np.zeros(n), "trace of magnetic gradients", rtol=1e-7, scale=sc)
    for a, cs in (("x", ("bxx", "bxy", "bxz")), ("y", ("bxy", "byy", "byz")), ("z", ("bxz", "byz", "bzz"))):
        ctx.event("identities")
        ctx.close(m["tmi_" + a], sum(m[c] * u[i] for i, c in enumerate(cs)), f"tmi_{a} of gradient components", rtol=1e-8, scale=sc)
    # derivatives of the fields in space
    h = 1e-2
    for a in range(3):
        e = np.zeros(3)
        e[a] = h
        p, q = grav(mesh, val, locs + e), grav(mesh, val, locs - e)
        P, Q = magn(mesh, chi, locs + e), magn(mesh, chi, locs - e)
        for b in range(3):
            c = "".join(sorted(AX[a] + AX[b]))
            ctx.event("identities", 2)
            num = (p["g" + AX[b]] - q["g" + AX[b]]) / (2 * h) * 1e4
            ctx.close(g["g" + c], num, f"g{c} is not the derivative of g{AX[b]} along {AX[a]}", rtol=1e-4, scale=np.abs(num).max())
            num = (P["b" + AX[b]] - Q["b" + AX[b]]) / (2 * h)
            ctx.close(m["b" + c], num, f"b{c} is not the derivative of b{AX[b]} along {AX[a]}", rtol=1e-4, scale=np.abs(num).max())
        num = (P["tmi"] - Q["tmi"]) / (2 * h)
        ctx.close(m["tmi_" + AX[a]], num, f"tmi_{AX[a]} is not the derivative of tmi", rtol=1e-4, scale=np.abs(num).max())
    # variants that coincide
    v3 = np.concatenate([chi * u[i] for i in range(3)])
    same(m, magn(mesh, v3, locs, model_type="vector"), "vector model along the inducing field", 1e-9)
    xyz = ["bx", "by", "bz"]
    amp = magn(mesh, chi, locs, comps=xyz, is_amplitude_data=True)
    ctx.close(amp, np.sqrt(sum(m[c] ** 2 for c in xyz)), "amplitude data", rtol=1e-9, scale=np.abs(amp).max())
    # additivity
    a = rng.random(nC) < 0.5
    s1, s2 = grav(mesh, val * a, locs), grav(mesh, val * ~a, locs)
    same(g, {c: s1[c] + s2[c] for c in g}, "superposition of gravity", 1e-9)


@case("C17", "differential", quick=4, thorough=16, cost=4)
def differential(ctx):
    """magnetics by finite volumes: no divergence, additive remanence, weak bodies agree with the integral simulation"""
    import discretize
    from scipy.constants import mu_0
    from simpeg import maps
    from simpeg.potential_fields import magnetics as mg

    rng = ctx.rng
    pad = 10 * 1.4 ** np.arange(1, 7)
    h = np.r_[pad[::-1], np.full(14, 10.0), pad]
    mesh = discretize.TensorMesh([h, h, h], "CCC")
    c = mesh.cell_centers
    w = rng.choice([20.0, 30.0], 3)
    s = rng.choice([-10.0, 0.0, 10.0], 3)
    body = np.all(np.abs(c - s) < w, axis=1)
    L = np.array([[rng.uniform(-40, 40), rng.uniform(-40, 40), s[2] + w[2] + rng.uniform(22, 30)] for _ in range(6)])
    inc, dec, B = float(rng.uniform(-85, 85)), float(rng.uniform(-180, 180)), 5e4
    u = direction(inc, dec)
    comps = ["bx", "by", "bz", "tmi"]

    def surv():
        return mg.Survey(mg.UniformBackgroundField([mg.receivers.Point(L, components=[k]) for k in comps], amplitude=B, inclination=inc, declination=dec))

    chi = 1e-4 * body
    rem = rng.normal(size=3)[None] * body[:, None] * 5.0
    nC = mesh.n_cells

    def fv(**kw):
        with quiet():
            sim = mg.Simulation3DDifferential(mesh=mesh, survey=surv(), **kw)
            f = sim.fields(None)
            d = sim.dpred(None, f=f)
        div = mesh.face_divergence @ f["b"]
        ctx.close(div, np.zeros(nC), "flux through the faces of cells", rtol=1e-6, scale=np.abs(f["b"]).max() / 10.0)
        return np.asarray(d).reshape(4, -1), sim

    ctx.event("differential")
    d_ind, _ = fv(mu=mu_0 * (1 + chi))
    d_rem, _ = fv(mu=mu_0, rem=rem.T.ravel())
    d_rem2, _ = fv(mu=mu_0, rem=-3 * rem.T.ravel())
    sc = np.abs(d_rem[:3]).max()
    ctx.close(d_rem2[:3], -3 * d_rem[:3], "remanence is not linear", rtol=1e-8, scale=3 * sc)
    with quiet():
        si = mg.Simulation3DIntegral(mesh, survey=surv(), chiMap=maps.IdentityMap(nP=int(body.sum())), active_cells=body, sensitivity_dtype=np.float64, engine="geoana")
        i_ind = si.dpred(chi[body]).reshape(4, -1)
        sr = mg.Simulation3DIntegral(mesh, survey=surv(), chiMap=maps.IdentityMap(nP=3 * int(body.sum())), active_cells=body, sensitivity_dtype=np.float64, engine="geoana", model_type="vector")
        i_rem = sr.dpred((rem[body] / B).T.ravel()).reshape(4, -1)
    for k, a in enumerate(comps):
        ctx.close(d_ind[k], i_ind[k], f"finite-volume and integral {a} of weak bodies", rtol=0.25, scale=np.abs(i_ind[:3]).max())
        ctx.close(d_rem[k], i_rem[k], f"finite-volume and integral {a} of remanent bodies", rtol=0.25, scale=np.abs(i_rem[:3]).max())
    # both together
    d_both, _ = fv(mu=mu_0 * (1 + chi), rem=rem.T.ravel())
    ctx.close(d_both[:3], d_ind[:3] + d_rem[:3], "induced and remanent fields of weak bodies do not add", rtol=2e-3, scale=max(sc, np.abs(d_ind[:3]).max()))
