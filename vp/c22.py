"""C22: calls have no side effects and random draws are reproducible.

A monitor wraps every call made to simulations, mappings, misfits, regularizations, utilities and directives: it
fingerprints the arrays handed over (and those held by the survey, mesh and mixture objects handed over earlier) and the
state of the global random generators before and after, repeats the call, spoils the returned array and repeats the call
once more. Seeded draws are made twice, and synthetic noise is tested against its documented distribution.
"""
import hashlib
import random
import warnings

import numpy as np
import scipy.sparse as sp

from . import scen
from .core import case, quiet

RULE = "fingerprint of every argument, of survey and mesh arrays and of the global random state unchanged by a call; repeated calls agree, also after the caller changed the returned array; equal seeds give equal draws"
REQUIRED = {"calls": 700, "spoiled results": 300, "seeded draws": 25, "survey arrays": 300}


def finger(a):
    if sp.issparse(a):
        a = a.tocsr()
        return ("sp", finger(a.data), finger(a.indices), finger(a.indptr))
    a = np.asarray(a)
    if a.dtype == object:
        return ("obj", a.shape)
    return (a.shape, str(a.dtype), hashlib.blake2b(np.ascontiguousarray(a).tobytes(), digest_size=12).digest())


def rstate():
    s = np.random.get_state()
    return (s[0], s[1].tobytes(), s[2:], random.getstate())


def arrays(obj, out, path="", depth=0, seen=None):
    """arrays reachable from public attributes of survey, source, receiver and waveform objects"""
    seen = set() if seen is None else seen
    if id(obj) in seen or depth > 5:
        return out
    seen.add(id(obj))
    if isinstance(obj, np.ndarray):
        if obj.dtype != object:
            out[path] = obj
        return out
    if isinstance(obj, (list, tuple)):
        for i, x in enumerate(obj):
            arrays(x, out, f"{path}[{i}]", depth + 1, seen)
        return out
    if not type(obj).__module__.startswith("simpeg") or "simulation" in type(obj).__module__:
        return out
    for k, v in list(vars(obj).items()):
        if any(t in k.lower() for t in ("cache", "_p", "deriv", "simulation", "projection", "uid", "counter")) and not k.startswith("_parameters"):
            continue
        arrays(v, out, f"{path}.{k}", depth + 1, seen)
    return out


def held(b):
    out = {}
    sv = getattr(b.sim, "survey", None)
    if sv is not None:
        arrays(sv, out, "survey")
    mesh = getattr(b.sim, "mesh", None)
    if mesh is not None:
        try:
            for i, h in enumerate(mesh.h):
                out[f"mesh.h[{i}]"] = h
            out["mesh.origin"] = mesh.origin
            out["mesh.cell_centers"] = np.asarray(mesh.cell_centers)
            out["mesh.cell_volumes"] = np.asarray(mesh.cell_volumes)
        except (AttributeError, NotImplementedError):
            pass
    return {k: (v, finger(v)) for k, v in out.items()}


def same(a, b, rtol=1e-10):
    if sp.issparse(a):
        a, b = a.tocsr(), b.tocsr()
        return abs(a - b).max() <= rtol * max(abs(a).max(), 1e-300)
    a0 = np.asarray(a)
    if a0.dtype.kind == "O":  # zero and identity objects
        return type(a) is type(b)
    a, b = a0, np.asarray(b)
    if a.dtype.kind == "b":
        a, b = a.astype(float), b.astype(float)
    if a.shape != b.shape:
        return False
    s = np.abs(a).max() if a.size else 0
    return bool(np.all(np.isnan(a) == np.isnan(b))) and bool(np.all(np.abs(np.nan_to_num(a - b)) <= rtol * s + 1e-300))


def monitor(ctx, what, fn, args, spoil=True, repeat=True, extra=None, rtol=1e-10):
    """call fn(), with args = {name: array} that it was given"""
    fa = {k: finger(v) for k, v in args.items() if v is not None}
    st = rstate()
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = fn()
        ctx.event("calls")
        for k, f in fa.items():
            ctx.check(finger(args[k]) == f, f"{what} changes its argument {k}", "")
        ctx.check(rstate() == st, f"{what} changes the global random state", "")
        if r is None or not repeat:
            return r
        keep = r.copy() if hasattr(r, "copy") else r
        r2 = fn()
        ctx.check(same(keep, r2, rtol), f"{what} differs when repeated", "")
        if spoil and isinstance(r2, np.ndarray) and r2.flags.writeable and r2.ndim and not any(r2 is a or np.shares_memory(r2, a) for a in args.values() if isinstance(a, np.ndarray)):
            r2[...] = 7.25
            ctx.event("spoiled results")
            r3 = fn()
            ctx.check(same(keep, r3, rtol), f"{what} differs after its result was changed", "")
        for k, f in fa.items():
            ctx.check(finger(args[k]) == f, f"{what} changes its argument {k}", "")
        ctx.check(rstate() == st, f"{what} changes the global random state", "")
    return keep


def judge(ctx, s):
    rng = ctx.rng
    b = s.build()
    ctx.label(s.label)
    sim, m = b.sim, b.m
    H = held(b)
    ctx.event("survey arrays", len(H))
    name = type(sim).__name__
    mod = ".".join(type(sim).__module__.split(".")[1:4])
    tag = f"{mod}.{name}"
    d = monitor(ctx, f"{tag}.dpred", lambda: sim.dpred(m), dict(m=m))
    v, w = b.direction(rng), rng.standard_normal(np.asarray(d).shape)
    with quiet():
        f = sim.fields(m)
    from .core import digest

    stored = lambda: digest(getattr(f, "_fields", f))
    snap = stored()
    monitor(ctx, f"{tag}.dpred of fields", lambda: sim.dpred(m, f=f), dict(m=m, f=f if isinstance(f, np.ndarray) else None))
    monitor(ctx, f"{tag}.Jvec", lambda: sim.Jvec(m, v, f=f), dict(m=m, v=v))
    monitor(ctx, f"{tag}.Jtvec", lambda: sim.Jtvec(m, w, f=f), dict(m=m, v=w))
    ctx.check(stored() == snap, f"{tag} changes fields", "")
    dob = rng.standard_normal(np.asarray(d).shape)
    monitor(ctx, f"{tag}.residual of fields", lambda: sim.residual(m, dob, f=f), dict(m=m, dobs=dob))
    ctx.check(stored() == snap, f"{tag}.residual changes fields", "")
    ctx.check(same(d, np.asarray(sim.dpred(m, f=f))), f"{tag}.dpred differs after derivatives", "")
    if hasattr(sim, "getJtJdiag"):
        W = sp.diags(rng.uniform(0.5, 2, np.asarray(d).size)).tocsr()
        ok = True
        try:
            with quiet():
                sim.getJtJdiag(m, W=W)
        except Exception:  # judged elsewhere
            ok = False
        if ok:
            monitor(ctx, f"{tag}.getJtJdiag", lambda: sim.getJtJdiag(m, W=W), dict(m=m, W=W))
    monitor(ctx, f"{tag}.residual", lambda: sim.residual(m, dob), dict(m=m, dobs=dob))
    for k, (a, f0) in H.items():
        ctx.check(finger(a) == f0, f"{tag} changes {k.split('[')[0] if '.' not in k else k.rsplit('.', 1)[-1]}", k)


def reg(name):
    info = scen.REG[name]
    vs = scen.variants_of(name)

    def run(ctx):
        from . import scen_pf

        scen_pf.SUBSET = int(ctx.rng.integers(2**31))
        k = min(len(vs), ctx.n(2, 8))
        for i in ctx.rng.choice(len(vs), k, replace=False):
            s = scen.Scn(name, vs[int(i)], int(ctx.rng.integers(2**31)))
            ctx.label(s.label)
            with ctx.guard():
                judge(ctx, s)

    case("C22", f"sim.{name}", quick=1, thorough=8, cost=info["flags"].get("cost", 1.0))(run)


scen.load_all()
for _n in scen.REG:
    reg(_n)


@case("C22", "mappings", quick=4, thorough=30)
def mappings(ctx):
    from .c05 import catalogue

    rng = ctx.rng
    cat = catalogue(rng)
    for i in rng.choice(len(cat), min(len(cat), 60), replace=False):
        lab, mk, m, kw = cat[int(i)]
        ctx.label(lab)
        with ctx.guard():
            mp = mk()
            nm = type(mp).__name__
            try:
                y = np.asarray(mp * m)
            except Exception:
                continue
            monitor(ctx, f"{nm} value", lambda: mp * m, dict(m=m))
            v = rng.standard_normal(m.size)
            monitor(ctx, f"{nm}.deriv", lambda: mp.deriv(m), dict(m=m), spoil=False)
            monitor(ctx, f"{nm}.deriv of a vector", lambda: mp.deriv(m, v=v), dict(m=m, v=v))
            try:
                with quiet():
                    mp.inverse(y)
            except Exception:
                continue
            monitor(ctx, f"{nm}.inverse", lambda: mp.inverse(y), dict(D=y))


@case("C22", "objectives", quick=6, thorough=60)
def objectives(ctx):
    from . import c06, c07

    rng = ctx.rng
    for cls in c07.CLASSES:
        with ctx.guard():
            b = c07.build(rng, cls)
            ctx.label(b["lab"])
            o, n = b["o"], b["n"]
            m = b["m"]() if "m" in b else rng.standard_normal(n)
            v = rng.standard_normal(n)
            nm = type(o).__name__
            monitor(ctx, f"{nm} value", lambda: o(m), dict(m=m))
            monitor(ctx, f"{nm}.deriv", lambda: o.deriv(m), dict(m=m))
            monitor(ctx, f"{nm}.deriv2", lambda: o.deriv2(m, v=v), dict(m=m, v=v))
    n = 6
    for _ in range(6):
        with ctx.guard():
            o = c06.misfit(rng, n)
            o = o[0] if isinstance(o, tuple) else o
            m, v = rng.standard_normal(n), rng.standard_normal(n)
            dob = {"dobs": o.data.dobs, "std": o.data.standard_deviation} if hasattr(o, "data") else {}
            nm = type(o).__name__
            ctx.label(f"misfit {nm}")
            monitor(ctx, f"{nm} value", lambda: o(m), dict(m=m, **dob))
            monitor(ctx, f"{nm}.deriv", lambda: o.deriv(m), dict(m=m, **dob))
            monitor(ctx, f"{nm}.deriv2", lambda: o.deriv2(m, v), dict(m=m, v=v, **dob))


def toy(rng, n=60, nd=40, scale=None):
    from simpeg import maps, simulation

    G = rng.standard_normal((nd, n)) * (1 if scale is None else scale[:, None])
    return simulation.LinearSimulation(G=G, model_map=maps.IdentityMap(nP=n))


@case("C22", "synthetic", quick=8, thorough=80)
def synthetic(ctx):
    rng = ctx.rng
    nd = 4000
    sim = toy(rng, 3, nd, 10.0 ** rng.uniform(-3, 3, nd))
    m = rng.standard_normal(3)
    d = np.asarray(sim.dpred(m))
    rel = float(rng.choice([0, 0.01, 0.1])) if rng.integers(2) else rng.uniform(0.01, 0.2, nd)
    fl = float(rng.choice([0.0, 1e-2, 1.0])) if rng.integers(2) else rng.uniform(1e-3, 1, nd)
    if np.all(np.asarray(rel) == 0) and np.all(np.asarray(fl) == 0):
        fl = 0.1
    seed = int(rng.integers(2**31))
    ctx.label(f"relative error {'array' if np.ndim(rel) else rel} floor {'array' if np.ndim(fl) else fl}")
    args = dict(m=m, relative_error=np.asarray(rel), noise_floor=np.asarray(fl))
    mk = lambda sd: sim.make_synthetic_data(m, relative_error=rel, noise_floor=fl, add_noise=True, random_seed=sd)
    a = monitor(ctx, "make_synthetic_data", lambda: mk(seed).dobs, args)
    ctx.event("seeded draws")
    ctx.check(np.array_equal(a, mk(np.random.default_rng(seed)).dobs), "noise of a seed and of its generator differ", "")
    c = mk(seed + 1).dobs
    ctx.check(not np.array_equal(a, c), "different seeds give equal noise", "")
    ctx.check(not np.array_equal(mk(None).dobs, mk(None).dobs), "unseeded noise repeats", "")
    std = np.sqrt((rel * np.abs(d)) ** 2 + np.asarray(fl) ** 2)
    z = np.concatenate([(x - d) / std for x in (a, c)])
    n = z.size
    ctx.check(abs(z.mean()) < 5.5 / np.sqrt(n), "noise has a mean", f"{z.mean()}")
    ctx.check(abs(z.var() - 1) < 5.5 * np.sqrt(2 / n), "noise has another standard deviation", f"{z.std()}")
    ctx.check(abs((z**4).mean() - 3) < 5.5 * np.sqrt(96 / n), "noise is not Gaussian", f"{(z**4).mean()}")
    ctx.check(abs((z[1:] * z[:-1]).mean()) < 5.5 / np.sqrt(n), "noise is correlated", f"{(z[1:] * z[:-1]).mean()}")
    # any subset has the documented deviation
    big = np.tile(np.abs(d) > np.median(np.abs(d)), 2)
    for s_ in (big, ~big):
        ctx.check(abs(z[s_].var() - 1) < 5.5 * np.sqrt(2 / s_.sum()), "noise of large or small data has another standard deviation", f"{z[s_].std()}")
    o = mk(seed)
    ctx.check(np.array_equal(o.dclean, d), "clean data", "")
    ctx.close(o.standard_deviation, np.sqrt((rel * np.abs(a)) ** 2 + np.asarray(fl) ** 2), "uncertainty of synthetic data", rtol=1e-12)
    e = sim.make_synthetic_data(m, relative_error=rel, noise_floor=fl)
    ctx.check(np.array_equal(e.dobs, d), "data without noise", "")
    # the clean data are not those that the caller may change
    e.dobs[:] = 0
    ctx.check(np.array_equal(sim.dpred(m), d), "predictions changed with the synthetic data", "")


@case("C22", "draws", quick=4, thorough=40)
def draws(ctx):
    from discretize import TensorMesh
    from simpeg import data, data_misfit, directives, inverse_problem, maps, objective_function, optimization, regularization, utils
    from simpeg.utils import model_builder as mb

    rng = ctx.rng
    seed = int(rng.integers(1000))
    ctx.label(f"seed {seed}")
    sh = tuple(int(x) for x in rng.integers(4, 9, int(rng.integers(1, 4))))
    for kw in ({}, dict(bounds=[-3.0, 7.0]), dict(its=7)):
        a = monitor(ctx, "create_random_model", lambda: mb.create_random_model(sh, random_seed=seed, **kw), {})
        ctx.event("seeded draws")
        ctx.check(np.array_equal(a, mb.create_random_model(sh, random_seed=np.random.default_rng(seed), **kw)), "random models of a seed and of its generator differ", "")
        ctx.check(not np.array_equal(a, mb.create_random_model(sh, random_seed=seed + 1, **kw)), "random models of different seeds agree", "")
        lo, hi = kw.get("bounds", [0, 1])
        ctx.check(a.min() >= lo - 1e-12 and a.max() <= hi + 1e-12, "random model out of bounds", f"{a.min()} {a.max()}")
    n = 30
    A = rng.standard_normal((n, n))
    A = A @ A.T
    sim = toy(rng)
    dm = data_misfit.L2DataMisfit(data.Data(sim.survey, dobs=rng.standard_normal(40), standard_deviation=np.full(40, 0.3)), sim)
    mesh = TensorMesh([60])
    rg = regularization.WeightedLeastSquares(mesh, reference_model=np.zeros(60))
    m = rng.standard_normal(60)
    monitor(ctx, "eigenvalue_by_power_iteration", lambda: np.atleast_1d(utils.eigenvalue_by_power_iteration(dm, m, random_seed=seed)), dict(m=m))
    monitor(ctx, "eigenvalue_by_power_iteration of several", lambda: np.atleast_1d(utils.eigenvalue_by_power_iteration(dm + 2 * rg, m, random_seed=seed)), dict(m=m))
    ctx.event("seeded draws", 2)
    for ap in ("probing", "ones", "random"):
        for k in (None, 5, n):
            monitor(ctx, f"estimate_diagonal {ap}", lambda: utils.estimate_diagonal(A, n, k=k, approach=ap), dict(matrix=A), repeat=ap == "probing")
    with quiet():
        ctx.close(utils.estimate_diagonal(A, n, k=n), np.diag(A), "diagonal by probing with every vector", rtol=1e-12)
    o = objective_function.L2ObjectiveFunction(nP=5)
    monitor(ctx, "objective function test", lambda: np.atleast_1d(o.test(random_seed=seed)), {}, spoil=False)
    monitor(ctx, "mapping test", lambda: np.atleast_1d(maps.ExpMap(nP=5).test(random_seed=seed)), {}, spoil=False)

    def invert(kind):
        s = toy(np.random.default_rng(seed))
        dob = np.random.default_rng(seed + 1).standard_normal(40)
        D = data.Data(s.survey, dobs=dob, standard_deviation=np.full(40, 0.3))
        dmis = data_misfit.L2DataMisfit(D, s)
        m0, mr = np.full(60, 0.1), np.linspace(-1, 1, 60)
        r = regularization.Sparse(mesh, reference_model=mr) if kind == "sparse" else regularization.WeightedLeastSquares(mesh, reference_model=mr)
        ip = inverse_problem.BaseInvProblem(dmis, r, optimization.ProjectedGNCG(maxIter=3, lower=-2, upper=2))
        ds = [directives.BetaEstimate_ByEig(beta0_ratio=2.0, random_seed=seed) if seed % 2 else directives.BetaEstimateMaxDerivative(random_seed=seed),
              directives.BetaSchedule(coolingFactor=2.0, coolingRate=1)]
        if kind == "alpha":
            ds.insert(0, directives.AlphasSmoothEstimate_ByEig(random_seed=seed))
        if kind == "sparse":
            ds = [directives.UpdateIRLS(max_irls_iterations=2)] + ds[:1]
        from simpeg import inversion

        keep = [x.copy() for x in (dob, m0, mr, s.G if not callable(getattr(s, "G", None)) else s.G)]
        out = inversion.BaseInversion(ip, ds).run(m0)
        ok = all(np.array_equal(p, q) for p, q in zip(keep, (dob, m0, mr, s.G)))
        return np.asarray(out), ok

    for kind in ("l2", "alpha", "sparse"):
        ctx.label(f"inversion {kind} seed {seed}")
        oks = []

        def go():
            x, ok = invert(kind)
            oks.append(ok)
            return x

        monitor(ctx, f"inversion {kind}", go, {}, rtol=1e-9)
        ctx.event("seeded draws")
        ctx.check(all(oks), f"inversion {kind} changes its data, starting or reference model", "")
