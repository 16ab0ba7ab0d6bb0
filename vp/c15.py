"""C15: composite simulations.  A composite is driven through a random history of models, weights and kept
fields; every result is compared with the assembly of results of newly built members at explicitly mapped models."""
import warnings

import numpy as np
import scipy.sparse as sp

from . import scen
from .core import case

RULE = "composite type x member modalities x mapping kinds x history step; distinct when the composite, the member set and the compared quantity are new"
REQUIRED = {"compared": 300, "histories": 35, "splits": 15, "rejected": 20}
POOL = ["linear", "grav3d", "mag3d", "dc1d", "nsem1d", "em1d_fd", "dc2d", "dc3d", "tomo", "vrm", "fdem", "em1d_td", "eqlayer", "ip", "tdem", "nsem2d", "magdiff"]
TOL = 1e-7


def draw(rng, names=POOL, **flt):
    """a scenario (geoana engine only: no kernels to compile)."""
    while True:
        n = str(rng.choice(names))
        vs = scen.variants_of(n)
        o = vs[int(rng.integers(len(vs)))]
        if o.get("eng") == "choclo" or o.get("store") == "disk":
            continue
        if o.get("typ") in ("amp", "vecamp"):
            # the survey of amplitude data declares the components of the field, not the data
            continue
        return scen.Scn(n, o, int(rng.integers(2**31)))


class Member:
    """A scenario and the affine map from the common model to its model, known to the harness as a matrix."""

    def __init__(self, rng, s, N, kind, shift=0.0):
        from simpeg import maps

        self.s = s
        b = s.build()
        self.n = b.m.size
        sc = np.broadcast_to(np.asarray(b.kw.get("vscale", 1.0), float), b.m.shape)
        self.D = sp.diags(0.15 * sc) @ pick(rng, self.n, N, kind)
        self.m0 = b.m + shift * sc
        self.D = sp.csr_matrix(self.D)
        self.mk = lambda: maps.LinearMap(self.D, self.m0)

    def model(self, x):
        return self.m0 + self.D @ x

    def sim(self):
        return self.s.build().sim

    def memo(self, what, *args):
        sim = self.sim()
        return np.asarray(getattr(sim, what)(*args))


def pick(rng, n, N, kind):
    if kind == "one":  # every common parameter feeds at most one parameter of the member
        if n <= N:
            cols = rng.permutation(N)[:n]
        else:
            cols = np.r_[rng.permutation(N), np.full(n - N, -1)]
        ok = cols >= 0
        return sp.csr_matrix((rng.uniform(0.5, 1.5, ok.sum()), (np.arange(n)[ok], cols[ok])), shape=(n, N))
    M = sp.random(n, N, density=min(1.0, 3 / N), random_state=np.random.RandomState(int(rng.integers(2**31))), data_rvs=lambda k: rng.uniform(-1, 1, k), format="csr")
    return M


def gtg_ref(mem, x, W):
    sim = mem.sim()
    d = np.asarray(sim.getJtJdiag(mem.model(x), W))
    return np.asarray((sp.diags(np.sqrt(d)) @ mem.D).power(2).sum(axis=0)).ravel()


def drive(ctx, comp, mems, mode, N, key, tag, dense_one):
    rng = ctx.rng
    ctx.event("histories")
    off = None
    xs = [rng.standard_normal(N), rng.standard_normal(N), None]
    xs[2] = xs[0] + 1e-5 * rng.standard_normal(N)
    v = rng.standard_normal(N)
    memo = {}
    nds = [mem.memo("dpred", mem.model(xs[0])).size for mem in mems]
    nD = nds[0] if mode == "sum" else int(np.sum(nds))
    ctx.check(comp.survey.nD == nD, f"{key} nD", f"{tag}: {comp.survey.nD} != {nD}")
    off = np.r_[0, np.cumsum(nds)]
    w = rng.standard_normal(nD)
    Ws = [None, sp.diags(rng.uniform(0.5, 2, nD), format="csr"), sp.diags(rng.uniform(0.1, 5, nD))]

    def sl(a, i):
        return a if mode == "sum" else a[off[i] : off[i + 1]]

    def ref(what, k, iw=0):
        q = (what, k, iw)
        if q in memo:
            return memo[q]
        x = xs[k]
        if what == "dpred":
            r = [m.memo("dpred", m.model(x)) for m in mems]
        elif what == "Jvec":
            r = [m.memo("Jvec", m.model(x), m.D @ v) for m in mems]
        elif what == "Jtvec":
            memo[q] = sum(m.D.T @ m.memo("Jtvec", m.model(x), sl(w, i)) for i, m in enumerate(mems))
            return memo[q]
        else:
            memo[q] = sum(gtg_ref(m, x, sp.diags(sl(Ws[iw].diagonal() if iw else np.ones(nD), i))) for i, m in enumerate(mems))
            return memo[q]
        memo[q] = sum(r) if mode == "sum" else np.concatenate(r)
        return memo[q]

    kept = {}
    gtg = all(m.s.info["flags"].get("gtg") for m in mems)
    for step in range(ctx.n(8, 30)):
        k = int(rng.integers(3))
        what = str(rng.choice(["dpred", "Jvec", "Jtvec"] + (["gtg"] * 2 if gtg else [])))
        x = xs[k].copy()
        iw = 0
        f = None
        if rng.random() < 0.25:
            kept[k] = comp.fields(x)
        if k in kept and rng.random() < 0.5:
            f = kept[k]
        if what == "dpred":
            got = comp.dpred(x, f=f)
        elif what == "Jvec":
            got = comp.Jvec(x, v.copy(), f=f)
        elif what == "Jtvec":
            got = comp.Jtvec(x, w.copy(), f=f)
        else:
            iw = int(rng.integers(3))
            got = comp.getJtJdiag(x, W=Ws[iw], f=f)
        a = ref(what, k, iw)
        ctx.event("compared")
        ctx.distinct((key, tag, what, f is None, iw > 0))
        if not ctx.close(np.asarray(got), a, f"{key}.{what}", rtol=TOL, msg=f"{tag} step {step}{' with fields' if f is not None else ''}"):
            break


@case("C15", "meta", quick=14, thorough=80, cost=3)
def meta(ctx):
    from simpeg.meta import MetaSimulation

    rng = ctx.rng
    N = int(rng.integers(4, 40))
    k = int(rng.integers(1, 5))
    mems = [Member(rng, draw(rng), N, str(rng.choice(["one", "dense"]))) for _ in range(k)]
    tag = "+".join(m.s.name for m in mems)
    ctx.label(tag)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        comp = MetaSimulation([m.sim() for m in mems], [m.mk() for m in mems])
    drive(ctx, comp, mems, "stack", N, "MetaSimulation", tag, False)


@case("C15", "sum", quick=12, thorough=60, cost=3)
def summed(ctx):
    from simpeg.meta import SumMetaSimulation

    rng = ctx.rng
    N = int(rng.integers(4, 40))
    s = draw(rng)
    k = int(rng.integers(1, 4))
    mems = [Member(rng, s, N, str(rng.choice(["one", "dense"])), shift=0.05 * i) for i in range(k)]
    ctx.label(f"{k}x{s.name}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        comp = SumMetaSimulation([m.sim() for m in mems], [m.mk() for m in mems])
    drive(ctx, comp, mems, "sum", N, "SumMetaSimulation", s.name, False)


@case("C15", "repeated", quick=14, thorough=80, cost=3)
def repeated(ctx):
    from simpeg.meta import RepeatedSimulation

    rng = ctx.rng
    N = int(rng.integers(4, 40))
    s = draw(rng)
    k = int(rng.integers(1, 5))
    mems = [Member(rng, s, N, str(rng.choice(["one", "dense"])), shift=0.05 * i) for i in range(k)]
    ctx.label(f"{k}x{s.label}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        comp = RepeatedSimulation(mems[0].sim(), [m.mk() for m in mems])
    drive(ctx, comp, mems, "stack", N, "RepeatedSimulation", s.name, False)


@case("C15", "nested", quick=3, thorough=20, cost=3)
def nested(ctx):
    """a composite of composites equals the flat one"""
    from simpeg.meta import MetaSimulation, RepeatedSimulation, SumMetaSimulation
    from simpeg import maps

    rng = ctx.rng
    N = int(rng.integers(5, 20))
    light = ["linear", "grav3d", "dc1d", "nsem1d", "tomo", "em1d_fd"]
    A = [Member(rng, draw(rng, light), N, "dense") for _ in range(3)]
    ctx.label("+".join(m.s.name for m in A))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        inner = MetaSimulation([m.sim() for m in A[:2]], [m.mk() for m in A[:2]])
        comp = MetaSimulation([inner, A[2].sim()], [maps.IdentityMap(nP=N), A[2].mk()])
    drive(ctx, comp, A, "stack", N, "nested MetaSimulation", "nested", False)


SPLIT = ["fdem", "tdem", "dc3d", "dc2d", "em1d_fd", "nsem1d", "em1d_td", "nsem3d"]


@case("C15", "split", quick=10, thorough=60, cost=3)
def split(ctx):
    """the survey divided over members by source"""
    from simpeg import maps
    from simpeg.meta import MetaSimulation

    rng = ctx.rng
    for _ in range(3):
        s = draw(rng, SPLIT)
        if s.opts.get("mini") or s.opts.get("prop") == "h":  # (heights: a parameter per source)
            continue
        ctx.label(s.label)
        b = s.build()
        srcs = b.sim.survey.source_list
        if len(srcs) < 2:
            continue
        cut = int(rng.integers(1, len(srcs)))
        parts = [slice(0, cut), slice(cut, None)]
        sims = []
        for p in parts:
            c = s.build().sim
            sv = c.survey
            lst = sv.source_list[p]
            try:
                new = type(sv)(lst)
            except TypeError:
                break
            if hasattr(sv, "survey_type") and getattr(sv, "_survey_type", None) is not None:
                new = type(sv)(lst, survey_type=sv.survey_type)
            c.survey = new
            sims.append(c)
        if len(sims) < 2:
            continue
        n = b.m.size
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            comp = MetaSimulation(sims, [maps.IdentityMap(nP=n)] * 2)
        full = s.build().sim
        d = np.asarray(full.dpred(b.m))
        v, w = b.direction(rng), rng.standard_normal(d.size)
        ctx.event("splits")
        # layered responses in time are interpolated from samples that depend on the survey
        tol = 1e-3 if s.name == "em1d_td" else 1e-6
        ctx.close(comp.dpred(b.m), d, "split survey.dpred", rtol=tol, msg=s.label)
        ctx.close(comp.Jvec(b.m, v), full.Jvec(b.m, v), "split survey.Jvec", rtol=tol, msg=s.label)
        ctx.close(comp.Jtvec(b.m, w), full.Jtvec(b.m, w), "split survey.Jtvec", rtol=tol, msg=s.label)
        ctx.event("compared", 3)
        ctx.distinct(("split", s.label))


@case("C15", "tiles", quick=6, thorough=40, cost=2)
def tiles(ctx):
    """gravity and magnetics: the mesh divided over summed members; the survey over stacked members on copies of the mesh"""
    from simpeg import maps
    from simpeg.meta import MetaSimulation, SumMetaSimulation
    from simpeg.potential_fields import gravity, magnetics
    from .scen_pf import G_COMP, M_COMP, mag_survey, pf_locs

    rng = ctx.rng
    mag = bool(rng.integers(2))
    mesh = scen.tree3(rng) if rng.integers(2) else scen.tensor3(rng)
    nC = mesh.n_cells
    ctx.label(f"{'mag' if mag else 'grav'} {type(mesh).__name__}")
    comps = [str(c) for c in rng.permutation(M_COMP if mag else G_COMP)[:3]]
    locs = pf_locs(rng, 7)
    incl = dict(amplitude=5e4, inclination=float(rng.uniform(-80, 80)), declination=20.0)

    def survey(ix):
        if mag:
            return magnetics.Survey(magnetics.UniformBackgroundField(receiver_list=[magnetics.Point(locs[ix], components=comps)], **incl))
        return gravity.Survey(gravity.SourceField([gravity.Point(locs[ix], components=comps)]))

    def sim(ix, act, msh=None, mp=None):
        n = int(act.sum())
        kw = dict(active_cells=act, store_sensitivities="ram", engine="geoana", sensitivity_dtype=np.float64)
        mp = mp or maps.IdentityMap(nP=n)
        if mag:
            return magnetics.Simulation3DIntegral(msh or mesh, survey=survey(ix), chiMap=mp, **kw)
        return gravity.Simulation3DIntegral(msh or mesh, survey=survey(ix), rhoMap=mp, **kw)

    act = rng.random(nC) < 0.8
    act[:4] = True
    n = int(act.sum())
    allr = np.arange(7)
    full = sim(allr, act)
    m = rng.uniform(0, 0.1, n)
    v = rng.standard_normal(n)
    d = np.asarray(full.dpred(m))
    w = rng.standard_normal(d.size)
    W = sp.diags(rng.uniform(0.5, 2, d.size))
    # mesh divided
    part = rng.integers(0, 3, n)
    part[:3] = [0, 1, 2]
    act_ix = np.where(act)[0]
    sims, mps = [], []
    for p in range(3):
        a = np.zeros(nC, bool)
        a[act_ix[part == p]] = True
        sims.append(sim(allr, a))
        mps.append(maps.Projection(n, np.where(part == p)[0]))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        comps_ = {"sum of parts": SumMetaSimulation(sims, mps)}
        cut = int(rng.integers(1, 7))
        comps_["stack of stations"] = MetaSimulation([sim(allr[:cut], act), sim(allr[cut:], act)], [maps.IdentityMap(nP=n)] * 2)
        if hasattr(mesh, "cell_levels_by_index"):
            tm = [maps.TileMap(mesh, act, mesh.copy()) for _ in range(2)]
            comps_["tiles"] = MetaSimulation([sim(allr[i], t.local_active, t.local_mesh) for i, t in zip((slice(0, cut), slice(cut, None)), tm)], tm)
    for nm, c in comps_.items():
        ctx.event("splits")
        ctx.event("compared", 4)
        ctx.close(c.dpred(m), d, f"{nm}.dpred", rtol=1e-9)
        ctx.close(c.Jvec(m, v), full.Jvec(m, v), f"{nm}.Jvec", rtol=1e-9)
        ctx.close(c.Jtvec(m, w), full.Jtvec(m, w), f"{nm}.Jtvec", rtol=1e-9)
        ctx.close(c.getJtJdiag(m, W=W), full.getJtJdiag(m, W=W), f"{nm}.JtJdiag", rtol=1e-9)
        ctx.close(c.getJtJdiag(m), full.getJtJdiag(m), f"{nm}.JtJdiag", rtol=1e-9)
        ctx.distinct((nm, mag, tuple(comps)))


@case("C15", "rejects", quick=4, thorough=10, cost=1)
def rejects(ctx):
    from simpeg import maps, simulation
    from simpeg.meta import MetaSimulation, RepeatedSimulation, SumMetaSimulation

    rng = ctx.rng
    ctx.label("members that do not fit")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ss = [draw(rng, ["linear"]) for _ in range(2)]
        M = [Member(rng, s, 6, "dense") for s in ss]
        M7 = Member(rng, ss[1], 7, "dense")
        a, b = M
        for cls in (MetaSimulation, SumMetaSimulation):
            ctx.event("rejected", 4)
            ctx.raises(ValueError, lambda: cls([a.sim(), a.sim()], [a.mk()]), f"{cls.__name__} number of mappings")
            ctx.raises(ValueError, lambda: cls([a.sim(), a.sim()], [a.mk(), maps.LinearMap(sp.random(a.n, 7, 0.5), None)]), f"{cls.__name__} input lengths")
            ctx.raises(ValueError, lambda: cls([a.sim()], [maps.LinearMap(sp.random(a.n + 1, 7, 0.5), None)]), f"{cls.__name__} output length")
            s = a.sim()
            ctx.raises((ValueError, TypeError), lambda: cls([s, s], [a.mk(), a.mk()]), f"{cls.__name__} repeated member")
        if a.memo("dpred", a.model(np.ones(6))).size != b.memo("dpred", b.model(np.ones(6))).size:
            ctx.raises(ValueError, lambda: SumMetaSimulation([a.sim(), b.sim()], [a.mk(), b.mk()]), "SumMetaSimulation data numbers")
        ctx.raises((ValueError, TypeError), lambda: RepeatedSimulation(a.sim(), [maps.LinearMap(sp.random(a.n + 1, 7, 0.5), None)]), "RepeatedSimulation output length")
        comp = MetaSimulation([a.sim()], [a.mk()])
        ctx.raises(ValueError, lambda: comp.dpred(np.ones(9)), "model of wrong length")


scen.load_all()
