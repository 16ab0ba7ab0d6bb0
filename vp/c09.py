"""C09: bookkeeping of surveys and data.

(1) every scenario's survey: counts and slices at all levels; predicted data of the whole survey against
fresh simulations with one source-receiver pair each; reads and writes of Data through pairs watched on
the whole vector.  (2) random surveys of every receiver class with shared receivers, changed sources and
receivers.  (3) uncertainties through random sequences of settings against their definition."""
import numpy as np

from . import scen
from .c01 import register
from .core import case

RULE = "scenarios x options x source-receiver pairs, random surveys and data histories; distinct when the pair's classes and options are new"
REQUIRED = {"surveys": 80, "pairs_predicted": 150, "pair_writes": 150, "uncertainties": 120, "survey_changes": 100}


def tiling(ctx, survey, nD=None):
    """the laws of counts and slices; returns the list of (source, receiver, slice)."""
    out, i = [], 0
    pairs = [(s, r) for s in survey.source_list for r in s.receiver_list]
    for s in survey.source_list:
        ctx.check(int(s.nD) == sum(int(r.nD) for r in s.receiver_list), "count of a source", f"{s.nD}")
        ctx.check([int(x) for x in s.vnD] == [int(r.nD) for r in s.receiver_list], "counts of a source's receivers")
    ctx.check(int(survey.nD) == sum(int(r.nD) for _, r in pairs), "count of the survey", f"{survey.nD} {[r.nD for _, r in pairs]}")
    ctx.check(int(np.sum(survey.vnD)) == int(survey.nD), "counts per source", f"{survey.vnD} {survey.nD}")
    ctx.check(survey.nSrc == len(survey.source_list), "number of sources")
    if nD is not None:
        ctx.check(int(survey.nD) == nD, "count of predicted data", f"{survey.nD} {nD}")
    allsl = survey.get_all_slices()
    ctx.check(list(allsl) == pairs, "pairs of all slices")
    for s, r in pairs:
        sl = survey.get_slice(s, r)
        ctx.check((sl.start, sl.stop) == (i, i + int(r.nD)) and allsl[(s, r)] == sl, "slice of a pair", f"{sl} expected {i}:{i + r.nD}")
        i += int(r.nD)
        out.append((s, r, sl))
    return out


def access(ctx, survey, rng, cplx=False):
    from simpeg.data import Data

    nD = int(survey.nD)
    d = rng.standard_normal(nD)
    dat = Data(survey, dobs=d.copy())
    ref = d.copy()
    pairs = [(s, r) for s in survey.source_list for r in s.receiver_list]
    for k in rng.permutation(len(pairs))[:12]:
        s, r = pairs[k]
        i = sum(int(b.nD) for _, b in pairs[:k])
        n = int(r.nD)
        ctx.event("pair_writes")
        ctx.check(np.array_equal(dat[s, r], ref[i:i + n]), "data read through a pair")
        x = rng.standard_normal(n)
        dat[s, r] = x
        ref[i:i + n] = x
        ctx.check(np.array_equal(dat.dobs, ref), "data written through a pair")
    ctx.check(dat.nD == nD and dat.shape == (nD,), "count of data")
    ctx.check(np.array_equal(dat.tovec(), ref), "data as a vector")
    x = rng.standard_normal(nD)
    dat.fromvec(x)
    ctx.check(np.array_equal(dat.dobs, x), "data from a vector")


def judge(ctx, s):
    b = s.build()
    sim, m, rng = b.sim, b.m, ctx.rng
    ctx.label(s.label)
    survey = sim.survey
    if not hasattr(survey, "source_list") or not survey.source_list or not hasattr(survey.source_list[0], "receiver_list"):
        ctx.event("no_sources")
        return
    d = np.asarray(sim.dpred(m))
    ctx.event("surveys")
    try:
        n = sum(int(r.nD) for q in survey.source_list for r in q.receiver_list)
    except (AttributeError, TypeError, NotImplementedError):
        return
    if n == 0 or n != d.size and s.name in ("linear",):
        return
    if getattr(sim, "is_amplitude_data", False):  # one datum per location from any number of components
        return
    if s.name == "sip" or s.name == "vrm" and not np.all(survey.t_active):
        ctx.check(int(survey.nD) == d.size, "count of predicted data", f"{survey.nD} {d.size}")
        return
    pairs = tiling(ctx, survey, d.size)
    access(ctx, survey, rng)
    # one pair at a time, on fresh objects
    sel = rng.permutation(len(pairs))[: ctx.n(3, 6)]
    locate = {}
    k = 0
    for i, q in enumerate(survey.source_list):
        for j, _ in enumerate(q.receiver_list):
            locate[k] = (i, j)
            k += 1
    if len(pairs) == 1 or "prop=h" in s.label:  # (heights are per source)
        return
    for k in sel:
        i, j = locate[k]
        with reduced(type(sim), i, j) as got:
            b2 = s.build()
        if not got:
            ctx.event("survey_not_given")
            return
        q, r = got[0]
        d2 = np.asarray(b2.sim.dpred(m))
        ctx.event("pairs_predicted")
        ctx.distinct(f"{s.label} {type(q).__name__}/{type(r).__name__}")
        ctx.close(d2, d[pairs[k][2]], "data of a pair on its own", rtol=RTOL.get(s.name, 1e-6), atol=1e-9 * np.abs(d).max(), msg=f"pair {i},{j} {type(q).__name__}/{type(r).__name__}")


class reduced:
    """while active, simulations of the class get the survey's pair i, j only."""

    def __init__(self, cls, i, j):
        self.cls, self.i, self.j = cls, i, j

    def __enter__(self):
        got, i, j = [], self.i, self.j
        self.old = old = self.cls.__dict__.get("__init__")
        orig = self.cls.__init__

        def init(self, *a, **kw):
            sv = kw.get("survey")
            if sv is not None and not got:
                q = sv.source_list[i]
                r = q.receiver_list[j]
                got.append((q, r))
                q.receiver_list = [r]
                if "VRM" in type(sv).__name__:
                    kw["survey"] = type(sv)(source_list=[q], t_active=np.ones(int(r.nD), dtype=bool))
                else:
                    sv.source_list = [q]
            return orig(self, *a, **kw)

        self.cls.__init__ = init
        return got

    def __exit__(self, *a):
        if self.old is None:
            del self.cls.__init__
        else:
            self.cls.__init__ = self.old


# the digital filters' splines depend on the range of offsets and times of the whole survey
RTOL = {"em1d_td": 2e-2, "em1d_fd": 1e-5, "dc1d": 2e-2}
scen.load_all()
for _n in scen.REG:
    register("C09", _n, judge, quick=1)


# ---------------------------------------------------------------- random surveys
def families():
    from simpeg import survey as base
    from simpeg.electromagnetics import frequency_domain as fd, time_domain as td, natural_source as ns
    from simpeg.electromagnetics.static import resistivity as dc, induced_polarization as ip, self_potential as sp
    from simpeg.potential_fields import gravity as gr, magnetics as mg
    from simpeg.seismic import straight_ray_tomography as tomo

    def loc(rng, lo=1):
        return rng.uniform(-50, 50, (int(rng.integers(lo, 5)), 3))

    def pick(rng, xs):
        return xs[int(rng.integers(len(xs)))]

    def same(rng):
        a = loc(rng)
        return a, a + rng.uniform(1, 5, a.shape)

    def r_fd(rng):
        C = pick(rng, [fd.Rx.PointElectricField, fd.Rx.PointMagneticFluxDensity, fd.Rx.PointMagneticFluxDensitySecondary, fd.Rx.PointMagneticField, fd.Rx.PointCurrentDensity])
        a = loc(rng)
        c = pick(rng, ["real", "imag", "both"])
        return C(a, orientation=pick(rng, "xyz"), component=c), len(a) * (2 if c == "both" else 1)

    def r_td(rng):
        C = pick(rng, [td.Rx.PointElectricField, td.Rx.PointMagneticFluxDensity, td.Rx.PointMagneticFluxTimeDerivative, td.Rx.PointCurrentDensity])
        a = loc(rng)
        t = np.sort(rng.uniform(1e-5, 1e-3, int(rng.integers(1, 5))))
        return C(a, times=t, orientation=pick(rng, "xyz")), len(a) * len(t)

    def r_ns(rng):
        a = loc(rng)
        k = int(rng.integers(2))
        if k:
            return ns.Rx.Impedance(a, orientation=pick(rng, ["xx", "xy", "yx", "yy"]), component=pick(rng, ["real", "imag"])), len(a)
        return ns.Rx.Tipper(a, orientation=pick(rng, ["zx", "zy"]), component=pick(rng, ["real", "imag"])), len(a)

    def r_dc(rng, mod=dc):
        if rng.integers(2):
            a, b = same(rng)
            return mod.Rx.Dipole(a, b), len(a)
        a = loc(rng)
        return mod.Rx.Pole(a), len(a)

    def r_pf(rng, mod, comps):
        a = loc(rng)
        k = int(rng.integers(1, 4))
        c = [str(x) for x in rng.permutation(comps)[:k]]
        return mod.Point(a, components=c if k > 1 or rng.integers(2) else c[0]), len(a) * k

    def s_fd(rng, rx):
        f = float(pick(rng, [1.0, 10.0, 10.0, 30.0]))
        return pick(rng, [fd.Src.MagDipole, fd.Src.RawVec_e if False else fd.Src.MagDipole])(rx, frequency=f, location=rng.uniform(-5, 5, 3))

    def s_td(rng, rx):
        return td.Src.MagDipole(rx, location=rng.uniform(-5, 5, 3))

    def s_ns(rng, rx):
        return ns.Src.PlanewaveXYPrimary(rx, frequency=float(pick(rng, [1.0, 10.0, 30.0])), sigma_primary=np.ones(8))

    def s_dc(rng, rx):
        n = int(rng.integers(3))
        a, b = rng.uniform(-50, 50, (2, 3))
        if n == 0:
            return dc.Src.Pole(rx, location=a)
        if n == 1:
            return dc.Src.Dipole(rx, location_a=a, location_b=b)
        return dc.Src.Multipole(rx, location=rng.uniform(-50, 50, (4, 3)))

    gcomp = ["gx", "gy", "gz", "gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"]
    mcomp = ["tmi", "bx", "by", "bz", "bxx", "bxy", "bxz", "byy", "byz", "bzz"]
    return dict(
        fdem=(r_fd, s_fd, lambda q: fd.Survey(q), 4),
        tdem=(r_td, s_td, lambda q: td.Survey(q), 4),
        nsem=(r_ns, s_ns, lambda q: ns.Survey(q), 3),
        dc=(r_dc, s_dc, lambda q: dc.Survey(q), 5),
        ip=(r_dc, s_dc, lambda q: ip.Survey(q), 4),
        gravity=(lambda g: r_pf(g, gr, gcomp), lambda g, rx: gr.SourceField(receiver_list=rx), lambda q: gr.Survey(source_field=q[0]), 1),
        magnetics=(lambda g: r_pf(g, mg, mcomp), lambda g, rx: mg.UniformBackgroundField(rx, 50000, 60, 10), lambda q: mg.Survey(source_field=q[0]), 1),
        tomo=(lambda g: (lambda a: (tomo.Rx(a), len(a)))(loc(g)), lambda g, rx: tomo.Src(rx, location=g.uniform(-5, 5, 3)), lambda q: tomo.Survey(q), 4),
        times=(lambda g: (lambda a, t: (base.BaseTimeRx(a, times=t), len(a) * len(t)))(loc(g), g.permutation(6)[: int(g.integers(1, 4))] * 1e-3), lambda g, rx: base.BaseSrc(rx), lambda q: base.BaseTimeSurvey(q), 4),
        base=(lambda g: (lambda a: (base.BaseRx(a), len(a)))(loc(g)), lambda g, rx: base.BaseSrc(rx), lambda q: base.BaseSurvey(q), 5),
    )


@case("C09", "random_surveys", quick=2, thorough=20)
def random_surveys(ctx):
    rng = ctx.rng
    fam = families()
    for name in fam:
        rxf, srcf, svf, nmax = fam[name]
        for _ in range(ctx.n(8, 30)):
            with ctx.guard():
                one_survey(ctx, rng, name, rxf, srcf, svf, nmax)


def one_survey(ctx, rng, name, rxf, srcf, svf, nmax):
    ctx.label("random", name)
    pool = [rxf(rng) for _ in range(4)]
    cnt = {id(r): n for r, n in pool}

    def rxs():
        k = int(rng.integers(1, 4))
        return [pool[i][0] for i in rng.permutation(4)[:k]]

    def src():
        return srcf(rng, rxs())

    sv = svf([src() for _ in range(int(rng.integers(1, nmax + 1)))])
    for step in range(4):
        ctx.event("surveys")
        for q in sv.source_list:
            for j, r in enumerate(q.receiver_list):
                ctx.check(int(r.nD) == cnt[id(r)], "count of a receiver", f"{type(r).__name__} {r.nD} {cnt[id(r)]}")
                ctx.check(q.get_receiver_indices(r) == [j], "index of a receiver")
            perm = rng.permutation(len(q.receiver_list))
            ctx.check(q.get_receiver_indices([q.receiver_list[i] for i in perm]) == list(perm), "indices of receivers")
        off, first = 0, []
        for q in sv.source_list:
            nf = 2 if name == "nsem" else 1  # (the two polarizations of a plane wave)
            first.append(list(range(off, off + nf)))
            off += nf
        perm = rng.permutation(len(sv.source_list))
        ctx.check(sv.get_source_indices([sv.source_list[i] for i in perm]) == sum([first[i] for i in perm], []), "indices of sources")
        tiling(ctx, sv)
        access(ctx, sv, rng)
        stranger = srcf(rng, [pool[0][0]])
        ctx.raises(KeyError, lambda: sv.get_slice(stranger, pool[0][0]), "slice of a stranger")
        if name == "fdem":
            fs = sorted({q.frequency for q in sv.source_list})
            ctx.check(list(sv.frequencies) == fs, "frequencies", f"{sv.frequencies} {fs}")
            ctx.check(sv.num_frequencies == len(fs), "number of frequencies")
            for f in fs:
                ctx.check(sv.get_sources_by_frequency(f) == [q for q in sv.source_list if q.frequency == f], "sources by frequency")
        if name == "times":
            t = np.unique(np.concatenate([r.times for q in sv.source_list for r in q.receiver_list]))
            ctx.check(np.array_equal(sv.unique_times, t), "unique times")
        if name in ("gravity", "magnetics"):
            ctx.check(np.array_equal(sv.receiver_locations, np.vstack([r.locations for q in sv.source_list for r in q.receiver_list])), "receiver locations")
        # change the survey
        k = int(rng.integers(3))
        if k == 0 or nmax == 1:
            q = sv.source_list[int(rng.integers(len(sv.source_list)))]
            q.receiver_list = rxs()
        elif k == 1:
            sv.source_list = [src() for _ in range(int(rng.integers(1, nmax + 1)))]
        else:
            sv.source_list = [sv.source_list[i] for i in rng.permutation(len(sv.source_list))]
        ctx.event("survey_changes")


@case("C09", "uncertainties", quick=1, thorough=10)
def uncertainties(ctx):
    from simpeg.data import Data, SyntheticData
    from simpeg import simulation, survey, maps

    rng = ctx.rng
    for h in range(ctx.n(25, 80)):
        with ctx.guard():
            n = int(rng.integers(1, 8))
            sv = survey.BaseSurvey([survey.BaseSrc([survey.BaseRx(rng.standard_normal((n, 3)))])])

            def val():
                k = int(rng.integers(4))
                if k == 0:
                    return float(rng.uniform(0, 2))
                if k == 1:
                    return np.where(rng.random(n) < 0.3, 0.0, rng.uniform(0, 2, n))
                return rng.uniform(0, 2, n) if k == 2 else 0

            cplx = bool(rng.integers(2))

            def dat():
                d = rng.standard_normal(n) * 10.0 ** rng.integers(-9, 4, n)
                d[rng.random(n) < 0.2] = 0
                return d + 1j * rng.standard_normal(n) if cplx else d

            d = dat()
            re, nf, sd = [val() if rng.integers(2) else None for _ in range(3)]
            if sd is not None:
                re = nf = None
            ctx.label("uncertainties", f"re={type(re).__name__} nf={type(nf).__name__} sd={type(sd).__name__} complex={cplx}")
            D = Data(sv, dobs=d.copy(), relative_error=re, noise_floor=nf, standard_deviation=sd)
            if sd is not None or (re is None and nf is None):
                re, nf = 0.0, (0.0 if sd is None else sd)
            for step in range(6):
                ctx.event("uncertainties")
                want = np.sqrt((0 if re is None else re) ** 2 * np.abs(d) ** 2 + (np.zeros(n) if nf is None else nf) ** 2)
                if re is None and nf is None:
                    ctx.raises(TypeError, lambda: D.standard_deviation, "uncertainties undefined")
                else:
                    ctx.check(np.all(np.abs(D.standard_deviation - want) <= 1e-12 * want), "uncertainties, each")
                k = int(rng.integers(6))
                if k == 0:
                    re = val()
                    D.relative_error = re
                elif k == 1:
                    nf = val()
                    D.noise_floor = nf
                elif k == 2:
                    re, nf = 0.0, val()
                    D.standard_deviation = nf
                elif k == 3:
                    d = dat()
                    D.dobs = d.copy()
                elif k == 4:
                    re = None
                    D.relative_error = None
                else:
                    d = dat()
                    D[sv.source_list[0], sv.source_list[0].receiver_list[0]] = d
    # synthetic data
    for _ in range(ctx.n(6, 20)):
        with ctx.guard():
            from discretize import TensorMesh
            mesh = TensorMesh([9])
            sv = survey.BaseSurvey([survey.BaseSrc([survey.BaseRx(rng.standard_normal((5, 3)))])])
            sim = simulation.LinearSimulation(mesh, survey=sv, model_map=maps.IdentityMap(nP=9), G=rng.standard_normal((5, 9)))
            m = rng.standard_normal(9)
            re, nf = rng.uniform(0, 1, 2)
            seed = int(rng.integers(1000))
            S = sim.make_synthetic_data(m, relative_error=re, noise_floor=nf, add_noise=True, random_seed=seed)
            ctx.close(S.dclean, sim.G @ m, "clean synthetic data", rtol=1e-12)
            std = np.sqrt(re**2 * S.dclean**2 + nf**2)
            ctx.close(S.dobs - S.dclean, np.random.default_rng(seed).normal(loc=0, scale=std, size=5), "synthetic noise", rtol=1e-9)
            ctx.close(S.standard_deviation, np.sqrt(re**2 * S.dobs**2 + nf**2), "uncertainties of synthetic data", rtol=1e-12)
            S = sim.make_synthetic_data(m, relative_error=re, noise_floor=nf, add_noise=False)
            ctx.close(S.dobs, sim.G @ m, "synthetic data without noise", rtol=1e-12)
