"""C23: setters and constructors keep valid values exactly and reject invalid ones without side effects.

A table of public attributes with their documented domains drives generated assignments (boundary values, neighbours of
boundaries in floating point, NaN, wrong types, shapes, aliases, case, duplicates). A monitor reads every attribute of
the object in the table before and after each assignment. The validators themselves are run with random domains.
"""
import numpy as np

from .core import case, quiet

RULE = "in the domain: stored (canonically), others unchanged; outside: error, everything unchanged"
REQUIRED = {"valid values": 1500, "invalid values": 3000, "attributes": 180, "classes": 70, "validator calls": 1500, "constructor values": 300}
BAD_TYPES = ["abc", object(), [1.0, 2.0], 1j, {}]


class K:
    """a domain: valid(rng) -> [(value, stored)], invalid(rng) -> [value]"""

    none = False  # None has a meaning
    late = False


class F(K):
    def __init__(s, lo=-np.inf, hi=np.inf, ilo=True, ihi=True, none=False):
        s.lo, s.hi, s.ilo, s.ihi, s.none = lo, hi, ilo, ihi, none

    def ok(s, v):
        return (v >= s.lo if s.ilo else v > s.lo) and (v <= s.hi if s.ihi else v < s.hi)

    def valid(s, rng):
        c = [0, 1, 1.0, np.float64(0.3), np.float32(0.5), np.int64(2), 1e-9, 1e8, rng.uniform(-100, 100), float(rng.lognormal(0, 3)), -1e-3, 45.5]
        for b in (s.lo, s.hi):
            if np.isfinite(b):
                c += [b, np.nextafter(b, np.inf), np.nextafter(b, -np.inf)]
        return [(v, float(v)) for v in c if s.ok(v)]

    def invalid(s, rng):
        c = list(BAD_TYPES)
        n = []
        for b, sgn in ((s.lo, -1), (s.hi, 1)):
            if np.isfinite(b):
                n += [b, np.nextafter(b, sgn * np.inf), b + sgn * 0.1, b + sgn * 1e6, sgn * np.inf, float(b + sgn * rng.lognormal())]
        n = [v for v in n if not s.ok(v)]
        if n:
            n.append(np.nan)
        return c + n + ([] if s.none else [None])


class I(K):
    def __init__(s, lo=None, hi=None, none=False):
        s.lo, s.hi, s.none = lo, hi, none

    def ok(s, v):
        return (s.lo is None or v >= s.lo) and (s.hi is None or v <= s.hi)

    def valid(s, rng):
        c = [0, 1, 2, 3, np.int64(5), 7.0, int(rng.integers(1, 25))] + ([s.lo] if s.lo is not None else []) + ([s.hi] if s.hi is not None else [])
        return [(v, int(v)) for v in c if s.ok(v)]

    def invalid(s, rng):
        c = ["abc", object(), [1, 2], 1j, np.nan, np.inf]
        if s.lo is not None:
            c += [s.lo - 1, s.lo - 100, float(s.lo - 1)]
        if s.hi is not None:
            c += [s.hi + 1, s.hi + 100]
        return c + ([] if s.none else [None])


class S(K):
    def __init__(s, *choices, case=False, none=False, extra=()):
        s.ch = [c if isinstance(c, tuple) else (c,) for c in choices]
        s.case, s.none, s.extra = case, none, extra

    def valid(s, rng):
        out = []
        for c in s.ch:
            for a in c:
                out.append((a, c[0]))
                if not s.case:
                    out += [(a.upper(), c[0]), (a.title(), c[0])]
        return out

    def invalid(s, rng):
        al = {a.casefold() for c in s.ch for a in c}
        out = []
        for a in al:
            out += [a + "x", " " + a, a[:-1], a[1:], a + a]
        out = [o for o in out if o.casefold() not in al]
        if s.case:
            out += [a.upper() for c in s.ch for a in c if a.upper() != a]
        return out + ["", 1, 2.5, object(), [next(iter(al))]] + ([] if s.none else [None])


class A(K):
    """array of a shape (sizes or '*')"""

    def __init__(s, *shape, lo=-10, hi=10, none=False, sort=False, ints=True, cplx=False, loc=False, lists=True):
        s.lists = lists
        s.shape, s.lo, s.hi, s.none, s.sort, s.ints, s.cplx, s.loc = shape, lo, hi, none, sort, ints, cplx, loc

    def one(s, rng, shape=None):
        a = rng.uniform(s.lo, s.hi, [int(rng.integers(2, 5)) if k == "*" else k for k in (shape or s.shape)])
        return np.sort(a, axis=0) if s.sort else a

    def valid(s, rng):
        a, b = s.one(rng), s.one(rng)
        out = [(a, a), (b.tolist(), b), (a.astype(np.float32), a.astype(np.float32).astype(float))]
        if s.ints:
            i = np.round(10 * s.one(rng)).astype(int)
            out += [(i, i.astype(float)), (i.tolist(), i.astype(float))]
        return out if s.lists else [o for o in out if isinstance(o[0], np.ndarray)]

    def invalid(s, rng):
        a = s.one(rng)
        out = ["abc", object(), ["a", "b"]]
        if not s.cplx:
            out += [a + 1j, [1j, 2j]] if not s.loc else []
        if not s.loc:
            out += [a[None] if a.ndim < 3 else "x", a.astype(str), a[..., None] if a.ndim < 3 else "x"]
        if s.shape[-1] != "*":
            k = s.shape[-1]
            out += [s.one(rng, s.shape[:-1] + (k + 1,)), s.one(rng, s.shape[:-1] + (k + 3,))]
            if k > 2:
                out += [s.one(rng, s.shape[:-1] + (k - 1,))]
        return out


class DIR(K):
    def valid(s, rng):
        e = np.eye(3)
        out = [(c, e[i]) for i, c in enumerate("xyz")] + [(c, e[i]) for i, c in enumerate("XYZ")]
        for _ in range(3):
            v = rng.standard_normal(3) * 10 ** rng.uniform(-3, 3)
            out += [(v, v / np.linalg.norm(v)), (v.tolist(), v / np.linalg.norm(v))]
        return out + [([0, 0, 2], e[2])]

    def invalid(s, rng):
        return ["w", "xy", "", np.zeros(3), [0, 0, 0], [1.0, 0.0], np.ones(4), np.ones((3, 3)), 1j * np.ones(3), object(), ["x", "y", "z"]]


class ACT(K):
    def __init__(s, n, some=False):
        s.n = n
        s.some = some

    def valid(s, rng):
        b = rng.random(s.n) < 0.6
        b[rng.integers(s.n)] = True
        i = rng.permutation(np.flatnonzero(b))
        return [(b, b), (i, b), (i.tolist(), b), (b.tolist(), b), (b[:, None], b), (np.flatnonzero(b).astype(np.int32), b)]

    def invalid(s, rng):
        n = s.n
        return [np.ones(n + 1, bool), np.ones(n - 1, bool), np.r_[0, 0, 1], np.r_[0, n], np.ones(n), np.linspace(0, 1, n), np.ones((n, 2), bool), ["a"] * n, "abc"]


class L(K):
    def __init__(s, make, bad, unique=True, lo=0, hi=None):
        s.make, s.bad, s.unique, s.lo, s.hi = make, bad, unique, lo, hi

    def valid(s, rng):
        top = s.hi or 3
        out = []
        for k in range(s.lo, top + 1):
            v = [s.make() for _ in range(k)]
            out.append((v, v))
        one = s.make()
        return out + [(one, [one])]

    def invalid(s, rng):
        a, b = s.make(), s.make()
        out = [[a, s.bad()], [s.bad()], s.bad(), "abc", [a, None], [a, "x"], 5]
        if s.unique:
            out += [[a, b, a], [a, a]]
        if s.hi:
            out += [[s.make() for _ in range(s.hi + 1)]]
        if s.lo:
            out += [[]]
        return out


class T(K):
    def __init__(s, *vals, none=False, bad=()):
        s.vals, s.none, s.bad = vals, none, bad

    def valid(s, rng):
        return [(v, v) for v in s.vals]

    def invalid(s, rng):
        return ["abc", 3, object(), [1]] + list(s.bad) + ([] if s.none else [None])


class B(K):
    """flag that is cast"""

    def valid(s, rng):
        return [(True, True), (False, False), (1, True), (0, False), (np.bool_(True), True)]

    def invalid(s, rng):
        return []


class BS(B):
    """flag that is not cast"""

    def valid(s, rng):
        return [(True, True), (False, False)]

    def invalid(s, rng):
        return [1, 0, "abc", None, [True]]


class C(K):
    none = True

    def valid(s, rng):
        return [(np.sin, np.sin), (abs, abs)]

    def invalid(s, rng):
        return ["abc", 3, np.ones(3)]


POS = dict(lo=0.0, ilo=False)


def table():
    """[(name, factory(**kw), {attribute: domain}, constructor attributes, groups of linked attributes)]"""
    import discretize
    from scipy.constants import mu_0
    from simpeg import maps, directives, data_misfit, inverse_problem, inversion, optimization as opt, regularization as reg, simulation, survey, data, utils
    from simpeg.electromagnetics import frequency_domain as fdem, time_domain as tdem, natural_source as nsem, viscous_remanent_magnetization as vrm
    from simpeg.electromagnetics.static import resistivity as dc, induced_polarization as ip, self_potential as spot, spectral_induced_polarization as sip
    from simpeg.potential_fields import gravity as grav, magnetics as mag
    from simpeg.flow import richards
    from simpeg.seismic import straight_ray_tomography as tomo

    R = []

    def row(name, fac, attrs, ctor=(), linked=()):
        R.append((name, fac, attrs, set(attrs) if ctor is True else set(ctor), linked))

    h = np.ones(4)
    m1, m2, m3 = discretize.TensorMesh([h]), discretize.TensorMesh([h, h]), discretize.TensorMesh([h, h, h], "CCN")
    D = directives
    # ---- directives
    row("BetaSchedule", D.BetaSchedule, dict(coolingFactor=F(**POS), coolingRate=I(1), verbose=B()), ["coolingFactor", "coolingRate"])
    row("BetaEstimate_ByEig", D.BetaEstimate_ByEig, dict(beta0_ratio=F(**POS), n_pw_iter=I(1)), True)
    row("BetaEstimateMaxDerivative", D.BetaEstimateMaxDerivative, dict(beta0_ratio=F(**POS)), True)
    row("AlphasSmoothEstimate_ByEig", D.AlphasSmoothEstimate_ByEig, dict(n_pw_iter=I(1), alpha0_ratio=A("*", lo=0.1)), True)
    row("ScalingMultipleDataMisfits_ByEig", D.ScalingMultipleDataMisfits_ByEig, dict(n_pw_iter=I(1)), True)
    row("JointScalingSchedule", D.JointScalingSchedule, dict(warmingFactor=F(**POS), mode=I(1, 2), chimax=F(**POS), chimin=F(**POS), update_rate=I(1)), ["warmingFactor", "chimax", "chimin", "update_rate"])
    row("TargetMisfit", D.TargetMisfit, dict(chifact=F(**POS), phi_d_star=F(**POS, none=True)), ["chifact"])
    row("MultiTargetMisfits", D.MultiTargetMisfits, dict(WeightsInTarget=B(), chiSmall=F(), TriggerSmall=B(), TriggerTheta=B(), ToleranceTheta=F(0.0), distance_norm=F(0.0)), True)
    row("UpdatePreconditioner", D.UpdatePreconditioner, dict(update_every_iteration=B()), True)
    row("Update_Wj", D.Update_Wj, dict(k=I(1, none=True), itr=I(1, none=True)), True)
    row("UpdateSensitivityWeights", D.UpdateSensitivityWeights, dict(every_iteration=B(), threshold_value=F(0.0), threshold_method=S("global", "percentile", "amplitude"), normalization_method=S("minimum", "maximum", none=True)), True)
    row("UpdateIRLS", D.UpdateIRLS, dict(max_irls_iterations=I(0), misfit_tolerance=F(0.0), percentile=F(0.0, 100.0), chifact_start=F(**POS), chifact_target=F(**POS), cooling_factor=F(**POS), cooling_rate=I(1), irls_cooling_factor=F(**POS), f_min_change=F(**POS)), True)
    row("SaveEveryIteration", D.SaveOutputEveryIteration, dict(name=S2()), ["name"])
    # ---- inverse problem, optimization
    sv1 = survey.BaseSurvey([survey.BaseSrc([survey.BaseRx(np.zeros((4, 1)))])])
    lin = simulation.LinearSimulation(survey=sv1, G=np.eye(4), model_map=maps.IdentityMap(nP=4))
    dat = data.Data(sv1, dobs=np.ones(4), standard_deviation=np.ones(4))
    dm = data_misfit.L2DataMisfit(dat, lin)
    rg = reg.WeightedLeastSquares(m1)
    row("BaseInvProblem", lambda **k: inverse_problem.BaseInvProblem(dm, rg, opt.SteepestDescent(), **k), dict(beta=F(0.0), debug=B(), dmisfit=T(dm + dm), reg=T(rg), opt=T(opt.SteepestDescent()), init_bfgs=B()), ["beta", "debug"])
    row("L2DataMisfit", lambda **k: data_misfit.L2DataMisfit(**{**dict(data=dat, simulation=lin), **k}), dict(data=T(dat), simulation=T(lin), debug=B()), ["data", "simulation", "debug"])
    row("BaseInversion", lambda **k: inversion.BaseInversion(inverse_problem.BaseInvProblem(dm, rg, opt.SteepestDescent()), **k), dict(debug=B(), name=S2()), [])
    row("ProjectedGNCG", opt.ProjectedGNCG, dict(cg_atol=F(0.0, none=True), cg_rtol=F(0.0, none=True), cg_maxiter=I(1, none=True), step_active_set=B(), active_set_grad_scale=F(0.0)), True)
    row("InexactGaussNewton", opt.InexactGaussNewton, dict(cg_atol=F(0.0, none=True), cg_rtol=F(0.0, none=True), cg_maxiter=I(1, none=True)), True)
    # ---- data
    row("Data", lambda **k: data.Data(sv1, **k), dict(dobs=A(4, cplx=True), relative_error=A(4, lo=0.01), noise_floor=A(4, lo=0.01)), True)
    row("SyntheticData", lambda **k: data.SyntheticData(sv1, **{**dict(dobs=np.ones(4), dclean=np.ones(4)), **k}), dict(dobs=A(4, cplx=True), dclean=A(4, cplx=True)), True)
    # ---- simulations
    row("LinearSimulation", lambda **k: simulation.LinearSimulation(G=np.eye(4), **k), dict(survey=T(sv1, none=True), verbose=B()), ["survey"])
    row("ExponentialSinusoidSimulation", lambda **k: simulation.ExponentialSinusoidSimulation(mesh=m1, **k), dict(n_kernels=I(1), p=F(), q=F(), j0=F(), jn=F()), True)
    row("BaseTimeSimulation", lambda **k: simulation.BaseTimeSimulation(**k), dict(t0=F(), time_steps=A("*", lo=0.1)), True)
    row("BaseRx", lambda **k: survey.BaseRx(**{**dict(locations=np.zeros((2, 3))), **k}), dict(locations=A("*", "*")), True)
    row("BaseTimeRx", lambda **k: survey.BaseTimeRx(**{**dict(locations=np.zeros((2, 3)), times=np.ones(2)), **k}), dict(times=A("*")), True)
    mkrx = lambda: survey.BaseRx(np.zeros((1, 3)))
    mksrc = lambda: survey.BaseSrc([])
    row("BaseSrc", lambda **k: survey.BaseSrc(**k), dict(receiver_list=L(mkrx, mksrc)), True)
    row("BaseSurvey", lambda **k: survey.BaseSurvey(**{**dict(source_list=[]), **k}), dict(source_list=L(mksrc, mkrx)), True)
    # ---- maps
    row("ParametricCircleMap", lambda **k: maps.ParametricCircleMap(m2, **k), dict(slope=F(**POS), logSigma=B()), ["logSigma"])
    row("ParametricPolyMap", lambda **k: maps.ParametricPolyMap(m2, 2, **k), dict(slope=F(**POS), logSigma=B(), normal=S("x", "y", "z"), active_cells=ACT(16)), ["logSigma", "normal", "active_cells"])
    row("ParametricSplineMap", lambda **k: maps.ParametricSplineMap(m2, np.r_[0.5, 1.5, 2.5, 3.5], **k), dict(slope=F(**POS), logSigma=B(), normal=S("x", "y", "z"), order=I(1)), ["logSigma", "normal", "order"])
    row("ParametricLayer", lambda **k: maps.ParametricLayer(m2, **k), dict(slope=F(0.0), active_cells=ACT(16)), ["slope", "active_cells"])
    row("ParametricBlock", lambda **k: maps.ParametricBlock(m2, **k), dict(epsilon=F(0.0), p=F(0.0), slope=F(0.0)), True)
    row("SelfConsistentEffectiveMedium", lambda **k: maps.SelfConsistentEffectiveMedium(m2, **{**dict(sigma0=1e-2, sigma1=1.0), **k}), dict(sigma0=F(0.0), sigma1=F(0.0), alpha0=F(0.0), alpha1=F(0.0), orientation0=DIR(), orientation1=DIR(), random=B(), rel_tol=F(**POS), maxIter=I(0), sigstart=F(none=True)), ["sigma0", "sigma1", "alpha0", "alpha1", "orientation0", "orientation1", "random", "rel_tol", "maxIter"])
    row("Surject2Dto3D", lambda **k: maps.Surject2Dto3D(m3, **k), dict(normal=S("x", "y", "z")), True)
    row("InjectActiveCells", lambda **k: maps.InjectActiveCells(m2, **{**dict(active_cells=np.arange(16) < 12, value_inactive=1.0), **k}), dict(value_inactive=Inact()), ["value_inactive"])
    row("InjectActiveCells(cells)", lambda **k: maps.InjectActiveCells(m2, **{**dict(active_cells=np.arange(16) < 12, value_inactive=1.0), **k}), dict(active_cells=Ctor(ACT(16))), ["active_cells"])
    row("LinearMap", lambda **k: maps.LinearMap(np.eye(3), **k), dict(b=A(3, none=True)), True)
    # ---- regularization
    row("WeightedLeastSquares", lambda **k: reg.WeightedLeastSquares(m3, **k), {**{f"alpha_{c}": F(0.0, none=True) for c in ("s", "x", "y", "z", "xx", "yy", "zz")}, **{f"length_scale_{c}": LS() for c in "xyz"}, "reference_model": A(64, lists=False), "reference_model_in_smooth": BS()}, ["alpha_s", "alpha_x", "alpha_y", "alpha_z", "alpha_xx", "reference_model"], [["length_scale_x", "alpha_x"], ["length_scale_y", "alpha_y"], ["length_scale_z", "alpha_z"]])
    row("WeightedLeastSquares(cells)", lambda **k: reg.WeightedLeastSquares(m2, **k), dict(active_cells=Ctor(ACT(16))), True)
    row("Smallness", lambda **k: reg.Smallness(m2, **k), dict(reference_model=A(16), model=A(16)), ["reference_model"])
    row("SparseSmallness", lambda **k: reg.SparseSmallness(m2, **k), dict(irls_scaled=BS(), irls_threshold=F(**POS), norm=Norm(16)), ["irls_scaled", "irls_threshold"])
    row("Sparse", lambda **k: reg.Sparse(m2, **k), dict(irls_scaled=BS(), irls_threshold=F(**POS), gradient_type=S("total", "components")), True)
    row("SparseSmoothness", lambda **k: reg.SparseSmoothness(m2, orientation="x", **k), dict(gradient_type=S("total", "components"), irls_threshold=F(**POS)), True)
    w2 = maps.Wires(("a", 16), ("b", 16))
    row("LinearCorrespondence", lambda **k: reg.LinearCorrespondence(m2, w2, **k), dict(coefficients=A(3)), True)
    row("CrossGradient", lambda **k: reg.CrossGradient(m2, w2, **k), dict(approx_hessian=B()), True)
    row("RegularizationMesh", lambda **k: reg.RegularizationMesh(m2, **k), dict(active_cells=Ctor(ACT(16))), True)
    # ---- frequency domain
    FC = S(("real", "re", "in-phase", "in phase"), ("imag", "imaginary", "im", "out-of-phase", "out of phase", "quadrature"), "both", "complex")
    for n in ("PointElectricField", "PointMagneticFluxDensity", "PointMagneticField", "PointCurrentDensity", "PointMagneticFluxDensitySecondary"):
        row("fdem." + n, (lambda c: lambda **k: c(np.zeros((1, 3)), **k))(getattr(fdem.receivers, n)), dict(orientation=DIR(), component=FC, data_type=S("field", "ppm"), use_source_receiver_offset=B()) if n != "PointMagneticFluxDensity" else dict(orientation=DIR(), component=FC), ["orientation", "component"])
    fs = fdem.sources
    loc = np.r_[0.0, 0, 1]
    row("fdem.MagDipole", lambda **k: fs.MagDipole([], **{**dict(frequency=1.0, location=loc), **k}), dict(frequency=F(0.0), moment=F(0.0), orientation=DIR(), mu=F(mu_0), location=A(3, loc=True)), True)
    row("fdem.MagDipole_Bfield", lambda **k: fs.MagDipole_Bfield([], **{**dict(frequency=1.0, location=loc), **k}), dict(frequency=F(0.0), moment=F(0.0), orientation=DIR(), mu=F(mu_0)), True)
    row("fdem.CircularLoop", lambda **k: fs.CircularLoop([], **{**dict(frequency=1.0, location=loc), **k}), dict(frequency=F(0.0), radius=F(**POS), current=NZ(), n_turns=I(1), orientation=DIR(), mu=F(mu_0)), True)
    row("fdem.LineCurrent", lambda **k: fs.LineCurrent([], **{**dict(frequency=1.0, location=np.eye(3)), **k}), dict(frequency=F(0.0), current=NZ(), location=A("*", 3)), True)
    mkf = lambda: fs.RawVec_e([], 1.0, np.zeros(3))
    mkfr = lambda: fdem.receivers.PointElectricField(np.zeros((1, 3)))
    row("fdem.Survey", lambda **k: fdem.Survey(**{**dict(source_list=[]), **k}), dict(source_list=L(mkf, lambda: tdem.sources.RawVec_Grounded([], np.zeros(3)))), True)
    row("fdem.src receivers", lambda **k: fs.RawVec_e(**{**dict(receiver_list=[], frequency=1.0, s_e=np.zeros(3)), **k}), dict(receiver_list=L(mkfr, mkf), frequency=F(0.0)), True)
    fsv = fdem.Survey([mkf()])
    for n in ("Simulation3DElectricField", "Simulation3DMagneticFluxDensity", "Simulation3DMagneticField", "Simulation3DCurrentDensity"):
        row("fdem." + n, (lambda c: lambda **k: c(mesh=m3, sigma=1.0, **{**dict(survey=fsv), **k}))(getattr(fdem, n)), dict(survey=T(fsv, none=True, bad=[sv1]), forward_only=B(), verbose=B(), storeInnerProduct=B()), ["survey", "forward_only"])
    import libdlf

    HF = S(*[n for n in libdlf.hankel.__all__ if {"j0", "j1"} <= set(getattr(libdlf.hankel, n).values)])
    TF = S(*[n for n in libdlf.fourier.__all__ if "cos" in getattr(libdlf.fourier, n).values])
    fs1 = fdem.Survey([fs.MagDipole([fdem.receivers.PointMagneticField(np.r_[[[5.0, 0, 1]]])], 10.0, loc)])
    row("fdem.Simulation1DLayered", lambda **k: fdem.Simulation1DLayered(survey=fs1, thicknesses=np.ones(2), sigma=1.0, **k), dict(hankel_filter=HF, fix_Jmatrix=B(), n_points_per_path=I(1)), True)
    # ---- time domain
    ts = tdem.sources
    for n in ("PointElectricField", "PointMagneticFluxTimeDerivative", "PointMagneticFluxDensity", "PointMagneticField", "PointCurrentDensity", "PointMagneticFieldTimeDerivative"):
        row("tdem." + n, (lambda c: lambda **k: c(**{**dict(locations=np.zeros((1, 3)), times=np.r_[1e-3, 2e-3]), **k}))(getattr(tdem.receivers, n)), dict(orientation=DIR(), times=A("*", lo=1e-4), use_source_receiver_offset=B()), ["orientation", "times"])
    W = dict(off_time=F(), epsilon=F(0.0), has_initial_fields=B())
    row("tdem.StepOffWaveform", lambda **k: ts.StepOffWaveform(**k), dict(off_time=F()), [])
    row("tdem.RampOffWaveform", lambda **k: ts.RampOffWaveform(**{**dict(off_time=1.0), **k}), dict(ramp_end=F(0.0, ilo=False), epsilon=F(0.0)), [])
    row("tdem.RawWaveform", lambda **k: ts.RawWaveform(**{**dict(off_time=1.0, waveform_function=np.sin), **k}), dict(waveform_function=C(), off_time=F()), True)
    row("tdem.VTEMWaveform", lambda **k: ts.VTEMWaveform(**k), dict(peak_time=F(hi=4.2e-3), ramp_on_rate=F(**POS)), True)
    row("tdem.TrapezoidWaveform", lambda **k: ts.TrapezoidWaveform(**{**dict(ramp_on=np.r_[0.0, 1], ramp_off=np.r_[20.0, 31]), **k}), dict(ramp_on=A(2, lo=-9, hi=9, sort=True, ints=False)), True)
    row("tdem.TriangularWaveform", lambda **k: ts.TriangularWaveform(**{**dict(start_time=0.0, off_time=3.0, peak_time=1.0), **k}), dict(peak_time=F(hi=3.0)), [])
    row("tdem.ExponentialWaveform", lambda **k: ts.ExponentialWaveform(**{**dict(start_time=0.0, off_time=3.0, peak_time=1.0), **k}), dict(ramp_on_tau=F(**POS), start_time=F(hi=3.0, ihi=False), ), ["ramp_on_tau"])
    row("tdem.ExponentialWaveform(peak)", lambda **k: ts.ExponentialWaveform(**{**dict(start_time=0.0, off_time=3.0, peak_time=1.0), **k}), dict(peak_time=F(lo=0.0, ilo=False, hi=3.0)), True)
    row("tdem.MagDipole", lambda **k: ts.MagDipole([], **{**dict(location=loc), **k}), dict(moment=F(**POS), orientation=DIR(), mu=F(mu_0), location=A(3, loc=True), waveform=T(ts.StepOffWaveform(), ts.RampOffWaveform(1.0), none=True), srcType=S("inductive", "galvanic")), ["moment", "orientation", "mu", "location", "waveform"])
    row("tdem.CircularLoop", lambda **k: ts.CircularLoop([], **{**dict(location=loc), **k}), dict(radius=F(**POS), current=NZ(), n_turns=I(1), orientation=DIR()), True)
    row("tdem.LineCurrent", lambda **k: ts.LineCurrent([], **{**dict(location=np.eye(3)), **k}), dict(current=NZ(), location=A("*", 3)), True)
    mkt = lambda: ts.RawVec_Grounded([], np.zeros(3))
    row("tdem.Survey", lambda **k: tdem.Survey(**{**dict(source_list=[]), **k}), dict(source_list=L(mkt, mkf)), True)
    tsv = tdem.Survey([mkt()])
    for n in ("Simulation3DElectricField", "Simulation3DMagneticFluxDensity", "Simulation3DMagneticField", "Simulation3DCurrentDensity"):
        row("tdem." + n, (lambda c: lambda **k: c(mesh=m3, sigma=1.0, **{**dict(survey=tsv, time_steps=np.ones(2)), **k}))(getattr(tdem, n)), dict(survey=T(tsv, none=True, bad=[fsv]), dt_threshold=F(0.0), t0=F()), ["dt_threshold", "survey"])
    ts1 = tdem.Survey([ts.MagDipole([tdem.receivers.PointMagneticFluxTimeDerivative(np.r_[[[5.0, 0, 1]]], np.r_[1e-3], "z")], loc)])
    row("tdem.Simulation1DLayered", lambda **k: tdem.Simulation1DLayered(survey=ts1, thicknesses=np.ones(2), sigma=1.0, **k), dict(hankel_filter=HF, time_filter=TF, n_points_per_path=I(1)), ["time_filter", "hankel_filter", "n_points_per_path"])
    # ---- natural source
    CR, CI = ("real", "re", "in-phase", "in phase"), ("imag", "imaginary", "im", "out-of-phase", "out of phase")
    RHO = ("apparent_resistivity", "apparent resistivity", "appresistivity", "apparentresistivity", "apparent-resistivity", "appres", "app_res", "rho", "rhoa")
    nr = nsem.receivers
    row("nsem.Impedance", lambda **k: nr.Impedance(np.zeros((1, 3)), **k), dict(component=S(CR, CI, RHO, ("phase", "phi"), "complex"), orientation=S("xx", "xy", "yx", "yy")), True)
    row("nsem.Tipper", lambda **k: nr.Tipper(np.zeros((1, 3)), **k), dict(component=S(CR, CI, "complex"), orientation=S("zx", "zy", "xx", "xy", "yx", "yy")), True)
    row("nsem.Admittance", lambda **k: nr.Admittance(np.zeros((1, 3)), **k), dict(component=S(CR, CI, "complex"), orientation=S("xx", "xy", "yx", "yy", "zx", "zy")), True)
    # ---- static
    DT = S(("volt", "potential", "potentials", "v", "voltage", "voltages"), ("apparent_resistivity", "apparent resistivity", "appresistivity", "apparentresistivity", "apparent-resistivity", "appres"), ("apparent_chargeability", "apparent chargeability", "appchargeability", "apparentchargeability", "apparent-chargeability"))
    row("dc.rx.Pole", lambda **k: dc.receivers.Pole(np.zeros((1, 3)), **k), dict(data_type=DT, projField=S("phi", "e", "j"), orientation=S("x", "y", "z", none=True)), ["data_type"])
    row("dc.rx.Dipole", lambda **k: dc.receivers.Dipole(np.zeros((1, 3)), np.ones((1, 3)), **k), dict(data_type=DT), True)
    row("dc.src.Multipole", lambda **k: dc.sources.Multipole([], **{**dict(location=np.eye(3)), **k}), dict(current=A(3, ints=True)), True)
    mkd = lambda: dc.sources.Pole([], np.zeros(3))
    row("dc.Survey", lambda **k: dc.Survey(**{**dict(source_list=[]), **k}), dict(survey_geometry=S("surface", "borehole", "general"), source_list=L(mkd, mkrx)), True)
    dsv = dc.Survey([dc.sources.Pole([dc.receivers.Pole(np.zeros((1, 3)))], np.zeros(3))])
    row("dc.Simulation3DNodal", lambda **k: dc.Simulation3DNodal(m3, **{**dict(survey=dsv, sigma=1.0), **k}), dict(bc_type=S("Neumann", ("Robin", "Mixed")), storeJ=B(), surface_faces=Faces(96)), True)
    row("dc.Simulation3DCellCentered", lambda **k: dc.Simulation3DCellCentered(m3, **{**dict(survey=dsv, sigma=1.0), **k}), dict(bc_type=S("Dirichlet", "Neumann", ("Robin", "Mixed")), storeJ=B()), True)
    dsv2 = dc.Survey([dc.sources.Pole([dc.receivers.Pole(np.zeros((1, 2)))], np.zeros(2))])
    row("dc.Simulation2DNodal", lambda **k: dc.Simulation2DNodal(m2, **{**dict(survey=dsv2, sigma=1.0), **k}), dict(bc_type=S("Neumann", ("Robin", "Mixed")), nky=I(3), storeJ=B(), fix_Jmatrix=B()), True)
    row("dc.Simulation2DCellCentered", lambda **k: dc.Simulation2DCellCentered(m2, **{**dict(survey=dsv2, sigma=1.0), **k}), dict(bc_type=S("Dirichlet", "Neumann", ("Robin", "Mixed")), nky=I(3)), True)
    dsv1 = dc.Survey([dc.sources.Dipole([dc.receivers.Dipole(np.r_[[[2.0, 0, 0]]], np.r_[[[3.0, 0, 0]]])], np.r_[0.0, 0, 0], np.r_[1.0, 0, 0])])
    row("dc.Simulation1DLayers", lambda **k: dc.Simulation1DLayers(survey=dsv1, thicknesses=np.ones(2), rho=1.0, **k), dict(hankel_filter=HF, fix_Jmatrix=B()), True)
    row("dc.IO", lambda **k: dc.IO(**k), dict(survey_layout=S("SURFACE", "BOREHOLE", "GENERAL"), survey_type=S("dipole-dipole", "pole-dipole", "dipole-pole", "pole-pole"), dimension=I(2, 3), a_locations=A("*", "*"), dx=F(**POS, none=True), dy=F(**POS, none=True), dz=F(**POS, none=True), npad_x=I(0), npad_y=I(0), npad_z=I(0), ncell_per_dipole=I(0), pad_rate_x=F(), pad_rate_y=F(), pad_rate_z=F(), corezlength=F(none=True), space_type=S("half-space", "whole-space")), [])
    sr = sip.receivers
    row("sip.rx.Pole", lambda **k: sr.Pole(np.zeros((1, 3)), np.ones(2), **k), dict(times=A("*", lo=0.1)), [])
    row("sip.src.Pole", lambda **k: sip.sources.Pole([], np.zeros(3), **k), dict(current=NZ()), True)
    # ---- potential fields
    gsv = grav.Survey(grav.SourceField([grav.Point(np.r_[[[0.0, 0, 9]]], components="gz")]))
    PF = dict(store_sensitivities=S("disk", "ram", "forward_only"), n_processes=I(1, none=True))
    row("grav.Simulation3DIntegral", lambda **k: grav.Simulation3DIntegral(m3, **{**dict(survey=gsv, rho=1.0), **k}), PF, True)
    msv = lambda: mag.Survey(mag.UniformBackgroundField([mag.Point(np.r_[[[0.0, 0, 9]]], components="tmi")], 50000.0, 60.0, 10.0))
    row("mag.Simulation3DIntegral", lambda **k: mag.Simulation3DIntegral(m3, **{**dict(survey=msv(), chi=1.0), **k}), dict(model_type=S("scalar", "vector"), is_amplitude_data=B(), **PF), True)
    row("mag.UniformBackgroundField", lambda **k: mag.UniformBackgroundField(**{**dict(receiver_list=[], amplitude=1.0, inclination=1.0, declination=2.0), **k}), dict(amplitude=F(), inclination=F(-90.0, 90.0), declination=F(), receiver_list=L(lambda: mag.Point(np.zeros((1, 3))), mkrx)), True)
    row("grav.Survey", lambda **k: grav.Survey(**{**dict(source_field=grav.SourceField([])), **k}), dict(source_list=L(lambda: grav.SourceField([]), mksrc, lo=1, hi=1)), [])
    row("mag.Survey", lambda **k: mag.Survey(**{**dict(source_field=mag.UniformBackgroundField([], 1.0, 2.0, 3.0)), **k}), dict(source_list=L(lambda: mag.UniformBackgroundField([], 1.0, 2.0, 3.0), mksrc, lo=1, hi=1)), [])
    # ---- richards, tomography, vrm
    row("richards", lambda **k: richards.SimulationNDCellCentered(m1, hydraulic_conductivity=richards.empirical.Haverkamp_k(m1), water_retention=richards.empirical.Haverkamp_theta(m1), boundary_conditions=np.zeros(2), initial_conditions=np.zeros(4), **k), dict(method=S("mixed", "head"), do_newton=B(), root_finder_max_iter=I(1), root_finder_tol=F(**POS), t0=F()), ["method", "do_newton", "root_finder_max_iter", "root_finder_tol"])
    vr = vrm.Rx
    row("vrm.Point", lambda **k: vr.Point(**{**dict(locations=np.zeros((1, 3)), times=np.r_[1e-3], field_type="h"), **k}), dict(times=A("*", lo=1e-3), field_type=S("h", "b", "dhdt", "dbdt", none=True), orientation=S("x", "y", "z")), True)
    row("vrm.SquareLoop", lambda **k: vr.SquareLoop(**{**dict(locations=np.zeros((1, 3)), times=np.r_[1e-3], field_type="h"), **k}), dict(width=F(**POS), n_turns=I(1), quadrature_order=I(1, 7)), True)
    vw = vrm.waveforms
    row("vrm.StepOff", lambda **k: vw.StepOff(**k), dict(t0=F()), True)
    row("vrm.SquarePulse", lambda **k: vw.SquarePulse(**{**dict(delt=1.0), **k}), dict(delt=F(**POS), t0=F()), True)
    row("vrm.LineCurrent", lambda **k: vrm.Src.LineCurrent([], **{**dict(location=np.eye(3), Imax=1.0, waveform=vw.StepOff()), **k}), dict(location=A("*", 3)), True)
    return R


class S2(K):
    def valid(s, rng):
        return [("a", "a"), ("Some name", "Some name")]

    def invalid(s, rng):
        return [1, None, ["a"], object()]


class Norm(K):
    def __init__(s, n):
        s.n = n

    def valid(s, rng):
        a = rng.uniform(0, 2, s.n)
        return [(1.5, 1.5 * np.ones(s.n)), (a, a), (0, np.zeros(s.n)), (2.0, 2 * np.ones(s.n))]

    def invalid(s, rng):
        a = rng.uniform(0, 2, s.n)
        return [-0.1, 2.1, a - 3, a[:-1], np.r_[a[:-1], 2.0001], np.r_[a[:-1], -1e-9], "abc", object(), a + 1j]


class Faces(ACT):
    def valid(s, rng):
        b = rng.random(s.n) < 0.6
        b[0] = True
        return [(b, b), (np.flatnonzero(b), b)]


class LS(F):
    """length scales, stored as their squares"""

    def __init__(s):
        super().__init__(0.0, none=True)

    def valid(s, rng):
        return [v for v in super().valid(rng) if v[1] > 1e-100]


class NZ(F):
    def ok(s, v):
        return v != 0


class Inact(K):
    """values of the four inactive cells, kept on all cells"""

    def valid(s, rng):
        f = lambda v: np.r_[np.zeros(12), v * np.ones(4)]
        a = rng.normal(size=4)
        return [(a, f(a)), (a.tolist(), f(a)), (2.5, f(2.5)), (3, f(3)), (np.nan, f(np.nan)), (0.0, f(0.0))]

    def invalid(s, rng):
        return [np.ones(3), np.ones(16), np.ones((4, 4)), "abc", object(), np.ones(4) * 1j]


class Ctor(K):
    """only through the constructor"""

    def __init__(s, k):
        s.k = k

    def valid(s, rng):
        return s.k.valid(rng)

    def invalid(s, rng):
        return s.k.invalid(rng)


def eq(a, b):
    if isinstance(b, (list, tuple)) and isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(x is y for x, y in zip(a, b))
    if a is b:
        return True
    if isinstance(b, str) or isinstance(a, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if isinstance(b, (bool, np.bool_)) or isinstance(a, (bool, np.bool_)):
        return isinstance(a, (bool, np.bool_)) and bool(a) == bool(b)
    if isinstance(b, (int, float, np.number, np.ndarray)) and isinstance(a, (int, float, np.number, np.ndarray)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind == "b" or b.dtype.kind == "b":
            return a.dtype.kind == b.dtype.kind and bool(np.all(a == b))
        return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-15 * np.abs(b))))
    return False


def snap(o, attrs):
    out = {}
    for a in attrs:
        try:
            v = getattr(o, a)
        except Exception as e:
            v = "<" + type(e).__name__ + ">"
        out[a] = v.copy() if isinstance(v, np.ndarray) else (list(v) if isinstance(v, list) else v)
    return out


def show(v):
    return (type(v).__name__ + " " + repr(v).replace("\n", " "))[:90]


def judge(ctx, r, rng):
    name, fac, attrs, ctor, linked = r
    names = [a for a, k in attrs.items() if not isinstance(k, Ctor)]
    link = {a: {b for g in linked if a in g for b in g} | {a} for a in attrs}
    with quiet():
        o = fac()
        d0 = snap(o, names)
    ctx.event("classes")
    order = list(attrs)
    rng.shuffle(order)
    for a in order:
        k = attrs[a]
        ctx.event("attributes")
        key = f"{name}.{a}"
        val, inv = k.valid(rng), k.invalid(rng)
        if not isinstance(k, Ctor):
            seq = [("v", v) for v in val] + [("i", v) for v in inv]
            for i in rng.permutation(len(seq)):
                t, v = seq[i]
                before = snap(o, names)
                given = v[0] if t == "v" else v
                keep = given.copy() if isinstance(given, np.ndarray) else None
                err = None
                with quiet():
                    try:
                        setattr(o, a, given)
                    except Exception as e:
                        err = e
                after = snap(o, names)
                if t == "v":
                    ctx.event("valid values")
                    ctx.check(err is None, key + " rejects a valid value", f"{show(given)}: {err!r}"[:300])
                    if err is None:
                        ctx.check(eq(after[a], v[1]), key + " does not keep a valid value", f"{show(given)} -> {show(after[a])}")
                        ctx.check(all(eq(after[b], before[b]) for b in names if b not in link[a]), key + " changes other attributes", show(given))
                else:
                    ctx.event("invalid values")
                    ctx.check(err is not None, key + " accepts an invalid value", f"{show(given)} -> {show(after[a])}")
                    if err is not None:
                        ctx.check(all(eq(after[b], before[b]) for b in names), key + " is changed by a rejected value", show(given))
                    else:  # put a valid value back
                        setattr(o, a, val[0][0])
                if keep is not None:
                    ctx.check(np.array_equal(keep, given, equal_nan=keep.dtype.kind in "fc"), key + " changes the array it is given", "")
        if a in ctor:
            for v in [val[j] for j in rng.permutation(len(val))[: ctx.n(3, 20)]]:
                with quiet():
                    try:
                        n = fac(**{a: v[0]})
                    except Exception as e:
                        ctx.violate(key + " (constructor) rejects a valid value", f"{show(v[0])}: {e!r}"[:300])
                        continue
                ctx.event("constructor values")
                g = getattr(n, a, v[1]) if isinstance(k, Ctor) else getattr(n, a, None)
                ctx.check(eq(g, v[1]), key + " (constructor) does not keep a valid value", f"{show(v[0])} -> {show(g)}")
            for v in [inv[j] for j in rng.permutation(len(inv))[: ctx.n(4, 20)]]:
                err = None
                with quiet():
                    try:
                        n = fac(**{a: v})
                    except Exception as e:
                        err = e
                ctx.event("constructor values")
                ctx.check(err is not None, key + " (constructor) accepts an invalid value", show(v))
    with quiet():
        d = snap(fac(), names)
    ctx.check(all(eq(d[a], d0[a]) or not isinstance(d[a], (int, float, str, np.ndarray)) for a in names), name + " defaults change after other objects were changed", "")


NB = 8


@case("C23", "setters", quick=NB, thorough=4 * NB)
def setters(ctx):
    rows = table()
    for r in rows[ctx.rep % NB :: NB]:
        judge(ctx, r, ctx.rng)


@case("C23", "validators", quick=4, thorough=16)
def validators(ctx):
    """random domains given to the public validators themselves"""
    from simpeg import utils as u
    from simpeg.utils import code_utils as cu

    rng = ctx.rng

    def run(fn, *a, **k):
        ctx.event("validator calls")
        try:
            return True, fn("prop", *a, **k)
        except (ValueError, TypeError, IndexError) as e:
            return False, e

    for _ in range(ctx.n(60, 200)):
        lo, hi = np.sort(rng.choice([-np.inf, -2.0, 0.0, 1e-3, 1.0, 5.0, np.inf, rng.normal()], 2, replace=False))
        il, ih = bool(rng.integers(2)), bool(rng.integers(2))
        f = F(lo, hi, il, ih)
        for v, s in f.valid(rng):
            ok, r = run(cu.validate_float, v, min_val=lo, max_val=hi, inclusive_min=il, inclusive_max=ih)
            ctx.check(ok and type(r) is float and r == s, "validate_float rejects or changes a valid value", f"{v} in {lo},{hi},{il},{ih}")
        for v in f.invalid(rng):
            if v is np.inf and hi == np.inf or (isinstance(v, float) and np.isinf(v) and f.ok(v)):
                continue
            ok, r = run(cu.validate_float, v, min_val=lo, max_val=hi, inclusive_min=il, inclusive_max=ih)
            ctx.check(not ok, "validate_float accepts an invalid value", f"{v} in {lo},{hi},{il},{ih}")
        a, b = sorted(int(i) for i in rng.integers(-5, 20, 2))
        g = I(a, b)
        for v, s in g.valid(rng):
            ok, r = run(cu.validate_integer, v, min_val=a, max_val=b)
            ctx.check(ok and type(r) is int and r == s, "validate_integer rejects or changes a valid value", f"{v} in {a},{b}")
        for v in g.invalid(rng):
            if v is np.inf:
                continue
            ok, r = run(cu.validate_integer, v, min_val=a, max_val=b)
            ctx.check(not ok, "validate_integer accepts an invalid value", f"{v} in {a},{b}")
        # strings with aliases
        cs = bool(rng.integers(2))
        s = S(("Alpha", "al", "first one"), "beta", ("Gamma", "g"), case=cs)
        lst = [("Alpha", "al", "first one"), "beta", ["Gamma", "g"]]
        for v, w in s.valid(rng):
            ok, r = run(cu.validate_string, v, lst, case_sensitive=cs)
            ctx.check(ok and r == w, "validate_string rejects or changes a valid value", f"{v} {cs}")
        for v in s.invalid(rng):
            if cs and isinstance(v, str) and v in ("Alpha", "al", "first one", "beta", "Gamma", "g"):
                continue
            ok, r = run(cu.validate_string, v, lst, case_sensitive=cs)
            ctx.check(not ok, "validate_string accepts an invalid value", f"{v} {cs}")
        # arrays
        nd = int(rng.integers(1, 4))
        shp = tuple("*" if rng.random() < 0.4 else int(rng.integers(2, 5)) for _ in range(nd))
        k = A(*shp)
        for v, w in k.valid(rng):
            ok, r = run(cu.validate_ndarray_with_shape, v, shape=shp)
            ctx.check(ok and r.dtype == float and r.shape == w.shape and np.array_equal(r, w), "validate_ndarray_with_shape rejects or changes a valid value", f"{np.shape(v)} for {shp}: {r!r}"[:200])
        a = k.one(rng)
        for ax in range(nd):
            if shp[ax] != "*":
                v = np.repeat(a, 2, axis=ax)
                ok, r = run(cu.validate_ndarray_with_shape, v, shape=shp)
                ctx.check(not ok, "validate_ndarray_with_shape accepts another shape", f"{v.shape} for {shp}")
                other = tuple("*" for _ in shp)
                ok, r = run(cu.validate_ndarray_with_shape, v, shape=[shp, other])
                ctx.check(ok and np.array_equal(r, v), "validate_ndarray_with_shape rejects the second of two shapes", f"{v.shape} for {shp}")
        for v in (a + 1j, "abc", [["a"]], object()):
            ok, r = run(cu.validate_ndarray_with_shape, v, shape=shp)
            ctx.check(not ok, "validate_ndarray_with_shape accepts values that are not real numbers", show(v))
        for v in ([1.5, 2.0], np.r_[1.5, 2.0], (0.1, 3), [1 + 1j], ["a"]):
            ok, r = run(cu.validate_ndarray_with_shape, v, shape=("*",), dtype=int)
            ctx.check(not ok, "validate_ndarray_with_shape truncates values", f"{show(v)} -> {show(r)}")
        for v in ([1, 2], np.r_[4, 5], (7,)):
            ok, r = run(cu.validate_ndarray_with_shape, v, shape=("*",), dtype=int)
            ctx.check(ok and r.dtype.kind == "i" and np.array_equal(r, v), "validate_ndarray_with_shape rejects integers", show(v))
        z = rng.normal(size=3) + 1j * rng.normal(size=3)
        ok, r = run(cu.validate_ndarray_with_shape, z, shape=(3,), dtype=(float, complex))
        ctx.check(ok and np.array_equal(r, z), "validate_ndarray_with_shape rejects the second of two types", "")
        n = int(rng.integers(4, 12))
        act = ACT(n)
        for v, w in act.valid(rng):
            ok, r = run(cu.validate_active_indices, v, n)
            ctx.check(ok and r.dtype == bool and np.array_equal(r, w), "validate_active_indices rejects or changes valid cells", show(v))
        for v in act.invalid(rng):
            ok, r = run(cu.validate_active_indices, v, n)
            ctx.check(not ok, "validate_active_indices accepts invalid cells", show(v))
        d = DIR()
        for v, w in d.valid(rng):
            ok, r = run(cu.validate_direction, v)
            ctx.check(ok and np.allclose(r, w, rtol=0, atol=1e-14), "validate_direction rejects or changes a direction", show(v))
        for v in d.invalid(rng):
            ok, r = run(cu.validate_direction, v)
            ctx.check(not ok, "validate_direction accepts an invalid direction", show(v))
        v2 = rng.normal(size=2)
        ok, r = run(cu.validate_direction, v2, dim=2)
        ctx.check(ok and np.allclose(r, v2 / np.hypot(*v2)), "validate_direction in two dimensions", "")
        ctx.check(not run(cu.validate_direction, "z", dim=2)[0], "validate_direction accepts z in two dimensions", "")
        # lists
        lo_n, hi_n = sorted(int(i) for i in rng.integers(0, 5, 2))
        uq = bool(rng.integers(2))
        for m in range(0, 6):
            objs = [[i] for i in range(m)]
            class Z:
                pass
            objs = [Z() for _ in range(m)]
            ok, r = run(cu.validate_list_of_types, objs, Z, ensure_unique=uq, min_n=lo_n, max_n=hi_n)
            ctx.check(ok == (lo_n <= m <= hi_n), "validate_list_of_types lengths", f"{m} in {lo_n}..{hi_n}")
            if ok:
                ctx.check(eq(r, objs), "validate_list_of_types changes the list", "")
            if m >= 2:
                rep = objs[:-1] + [objs[0]]
                ok, r = run(cu.validate_list_of_types, rep, Z, ensure_unique=uq)
                ctx.check(ok == (not uq), "validate_list_of_types repeated items", f"{uq}")
                mix = objs[:-1] + [3]
                ctx.check(not run(cu.validate_list_of_types, mix, Z)[0], "validate_list_of_types accepts other types", "")
        dim = int(rng.integers(1, 4))
        p = rng.normal(size=dim)
        ok, r = run(cu.validate_location_property, p, dim)
        ctx.check(ok and np.array_equal(np.atleast_1d(r), p), "validate_location_property rejects or changes a location", "") if dim > 1 else None
        ctx.check(not run(cu.validate_location_property, rng.normal(size=dim + 1), dim)[0], "validate_location_property accepts another dimension", "")
        ctx.check(not run(cu.validate_location_property, rng.normal(size=(2, 3)), dim)[0], "validate_location_property accepts two locations", "")
        ctx.check(not run(cu.validate_type, "a", (int,), cast=False)[0], "validate_type accepts another type", "")
        ctx.check(not run(cu.validate_type, True, int, cast=False, strict=True)[0], "validate_type strict accepts a subclass", "")
        ctx.check(run(cu.validate_type, True, int, cast=False)[0], "validate_type rejects a subclass", "")
        ctx.check(not run(cu.validate_callable, 3)[0] and run(cu.validate_callable, abs)[1] is abs, "validate_callable", "")
