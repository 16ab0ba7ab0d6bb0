"""C13: inversion directives.  A recording directive placed before and after the directives of a real
inversion logs the state (iteration, trade-off, misfits, model, norms, thresholds, weights) at every
event; an offline checker replays the documented schedules over the log.  Besides real inversions, the
directives are driven through random histories of misfits that no real inversion would visit."""
import os
import pathlib
import shutil
import tempfile
import warnings

import numpy as np
import scipy.sparse as sp

from .core import case, quiet

RULE = "directive lists x options x misfit histories; distinct when the directive and the branch of its schedule are new"
REQUIRED = {"inversions": 25, "iterations": 120, "driven iterations": 600, "irls iterations": 100, "saved": 80, "pgi iterations": 120, "pgi references added": 30}


def lin_sim(rng, n, nD=None):
    from simpeg import maps, simulation, survey

    nD = int(rng.integers(5, 15)) if nD is None else nD
    G = rng.standard_normal((nD, n)) * np.exp(rng.normal(0, 0.5, n))[None, :]
    rx = survey.BaseRx(np.zeros((nD, 1)))
    sv = survey.BaseSurvey([survey.BaseSrc([rx])])
    return simulation.LinearSimulation(survey=sv, model_map=maps.IdentityMap(nP=n), G=G), G


def misfit(rng, n, mtrue=None, model_map=None, nP=None):
    from simpeg import data, data_misfit

    s, G = lin_sim(rng, n)
    if model_map is not None:
        s.model_map = model_map
    mtrue = rng.standard_normal(n) if mtrue is None else mtrue
    sd = rng.uniform(0.05, 0.3, G.shape[0])
    d = data.Data(s.survey, dobs=G @ mtrue + sd * rng.standard_normal(G.shape[0]), standard_deviation=sd)
    return data_misfit.L2DataMisfit(d, s), G, sd


def mesh(rng, dim=None):
    from discretize import TensorMesh

    dim = int(rng.integers(1, 4)) if dim is None else dim
    k = {1: [(8, 20)], 2: [(4, 6)] * 2, 3: [(2, 4)] * 3}[dim]
    return TensorMesh([rng.uniform(0.5, 2, int(rng.integers(*a))) for a in k])


def problem(rng, kind="wls", ndm=1, dim=None, **optkw):
    """-> dict with inversion parts"""
    from simpeg import inverse_problem, optimization, regularization

    ms = mesh(rng, dim)
    n = ms.n_cells
    mtrue = rng.standard_normal(n)
    parts = [misfit(rng, n, mtrue) for _ in range(ndm)]
    dm = parts[0][0]
    for p in parts[1:]:
        dm = dm + p[0]
    al = dict(alpha_s=float(10 ** rng.uniform(-2, 0)), alpha_x=float(rng.uniform(0.2, 2)))
    if ms.dim > 1:
        al["alpha_y"] = float(rng.uniform(0.2, 2))
    if ms.dim > 2:
        al["alpha_z"] = float(rng.uniform(0.2, 2))
    mref = rng.standard_normal(n) * 0.1
    if kind == "wls":
        reg = regularization.WeightedLeastSquares(ms, reference_model=mref, **al)
    else:
        reg = regularization.Sparse(ms, reference_model=mref, norms=list(rng.choice([0.0, 0.5, 1.0, 1.5, 2.0], 1 + ms.dim)), gradient_type=str(rng.choice(["total", "components"])), **al)
    kw = dict(maxIter=int(rng.integers(3, 9)), maxIterLS=20, cg_maxiter=20, cg_rtol=1e-3, cg_atol=0.0, tolF=1e-12, tolX=1e-12, tolG=1e-12, eps=1e-15)
    kw.update(optkw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = optimization.ProjectedGNCG(**kw)
    ip = inverse_problem.BaseInvProblem(dm, reg, opt, beta=float(10 ** rng.uniform(0, 3)), print_version=False)
    return dict(mesh=ms, n=n, parts=parts, dm=dm, reg=reg, opt=opt, ip=ip, m0=rng.standard_normal(n) * 0.05, al=al, mref=mref)


def recorder(log, tag, grab=None):
    from simpeg import directives

    class Rec(directives.InversionDirective):
        def _put(self, ev):
            ip, o = self.invProb, self.opt
            e = dict(tag=tag, ev=ev, beta=float(ip.beta), phi_d=ip.phi_d, phi_m=ip.phi_m, model=np.array(ip.model, copy=True), stop=bool(o.stopNextIteration), iter=getattr(o, "iter", -1), f=getattr(o, "f", None), dpred=None if getattr(ip, "dpred", None) is None else np.array(ip.dpred))
            if grab is not None:
                e.update(grab(self))
            log.append(e)

        def initialize(self):
            self._put("init")

        def endIter(self):
            self._put("end")

        def finish(self):
            self._put("finish")

    return Rec()


def invert(p, dirs):
    from simpeg import inversion

    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        inv = inversion.BaseInversion(p["ip"], directiveList=dirs)
        return inv, inv.run(p["m0"])


def lambda_max(H):
    return np.linalg.eigvalsh(H if isinstance(H, np.ndarray) else H.toarray())[-1]


@case("C13", "inversion", quick=8, thorough=80, cost=4)
def real(ctx):
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(4, 5)):
        p = problem(rng, "wls", ndm=int(rng.integers(1, 3)))
        ms, n, reg, ip, opt = p["mesh"], p["n"], p["reg"], p["ip"], p["opt"]
        log = []
        rate, fac = int(rng.integers(1, 4)), float(rng.uniform(1.2, 10))
        chi = float(10 ** rng.uniform(-0.5, 2))
        target = directives.TargetMisfit(chifact=chi)
        tmp = tempfile.mkdtemp(prefix="vpc13")
        try:
            so = directives.SaveOutputEveryIteration(directory=tmp, name="out")
            sm = directives.SaveModelEveryIteration(directory=tmp, name="mod")
            sd = directives.SaveOutputDictEveryIteration(directory=tmp, name="dic", on_disk=True)
            be = str(rng.choice(["max", "eig", "none"]))
            ratio, seed = float(10 ** rng.uniform(-2, 2)), int(rng.integers(1e6))
            est = []
            if be == "max":
                est = [directives.BetaEstimateMaxDerivative(beta0_ratio=ratio, random_seed=seed)]
            elif be == "eig":
                est = [directives.BetaEstimate_ByEig(beta0_ratio=ratio, random_seed=seed, n_pw_iter=300)]
            sens = None
            if rng.random() < 0.5:
                sens = directives.UpdateSensitivityWeights(
                    every_iteration=bool(rng.random() < 0.5),
                    threshold_method=str(rng.choice(["global", "percentile", "amplitude"])),
                    threshold_value=float(rng.choice([1e-12, 0.01, 0.3])),
                    normalization_method=[None, "maximum", "minimum"][int(rng.integers(3))],
                )
            sched = directives.BetaSchedule(coolingFactor=fac, coolingRate=rate)
            pre = directives.UpdatePreconditioner(update_every_iteration=bool(rng.random() < 0.6))
            saves = [so, sm, sd]
            before = rng.random() < 0.5

            def grab(d):
                ap = getattr(d.opt, "_approxHinv", None)
                out = dict(pre=None if ap is None else ap.diagonal().copy())
                try:
                    out["sens"] = [np.array(o.get_weights("sensitivity")) for o in reg.objfcts]
                except KeyError:
                    out["sens"] = None
                out["parts"] = [float(o(d.invProb.model)) for o in reg.objfcts]
                return out

            order = ([sens] if sens else []) + est + [recorder(log, "a", grab)]
            order += (saves + [sched] if before else [sched] + saves) + [target, pre, recorder(log, "b", grab)]
            ctx.label(f"inversion dim={ms.dim} misfits={len(p['parts'])} estimate={be} rate={rate} factor={fac:.2f} chifact={chi:.2f} sens={None if sens is None else (sens.threshold_method, sens.threshold_value, sens.normalization_method, sens.every_iteration)} saves-first={before}")
            inv, m = invert(p, order)
            ctx.event("inversions")
            A = [e for e in log if e["tag"] == "a"]
            B = [e for e in log if e["tag"] == "b"]
            ctx.check([e["ev"] for e in log[:2]] == ["init", "init"] and [e["tag"] for e in log] == ["a", "b"] * (len(log) // 2), "order", "directives are not called in the configured order")
            ends = [e for e in A if e["ev"] == "end"]
            ctx.check([e["iter"] for e in ends] == list(range(1, len(ends) + 1)), "each-iteration", "endIter is not called exactly once per iteration")
            ctx.check(A[-1]["ev"] == "finish" and sum(e["ev"] == "finish" for e in A) == 1, "finish", "finish is not called exactly once, last")
            tgt = chi * sum(len(q[2]) for q in p["parts"])
            # initial trade-off
            if est:
                b0 = A[0]["beta"]
                Jd = [2 * (G / s[:, None]).T @ (G / s[:, None]) for _, G, s in p["parts"]]
                if be == "eig":
                    lam = lambda_max(sum(Jd)) / lambda_max(ip.reg.deriv2(p["m0"]))
                    ctx.close(b0, ratio * lam, "beta0/eig", rtol=0.05)
                else:
                    est2 = directives.BetaEstimateMaxDerivative(beta0_ratio=3 * ratio, random_seed=seed)
                    est2.inversion = inv
                    keep_m, keep_b = ip.model, ip.beta
                    ip.model = p["m0"]
                    if sens is None or not sens.every_iteration:
                        est2.initialize()
                        ctx.close(float(ip.beta), 3 * b0, "beta0/ratio", rtol=1e-9)
                    ip.model, ip.beta = keep_m, keep_b
                    gd = np.abs(sum(2 * G.T @ ((G @ p["m0"] - q.data.dobs) / s**2) for q, G, s in p["parts"])).max()
                    ctx.check(np.isfinite(b0) and b0 > 0 and gd > 0, "beta0/max", f"beta0={b0}")
                ctx.event("beta estimates")
            for a, b in zip(A, B):
                if a["ev"] != "end":
                    ctx.check(a["beta"] == b["beta"], "beta/outside", "the trade-off parameter changed outside an iteration")
                    continue
                ctx.event("iterations")
                k = a["iter"]
                cool = 0 < k < opt.maxIter and k % rate == 0
                ctx.close(b["beta"], a["beta"] / fac if cool else a["beta"], "beta/schedule", rtol=1e-12, msg=f"iteration {k} rate {rate}")
                stop = a["phi_d"] < tgt
                ctx.check(b["stop"] == stop, "target/flag", f"phi_d={a['phi_d']:.3f} target={tgt:.3f} but stop={b['stop']}")
                ctx.check(not stop or k == len(ends), "target/stop", f"the target was reached at iteration {k} but the inversion went on")
                ctx.close(a["f"], a["phi_d"] + a["beta"] * a["phi_m"], "state/f", rtol=1e-10)
                dobs = np.concatenate([q.data.dobs for q, G, s in p["parts"]])
                dp = np.concatenate([G @ a["model"] for q, G, s in p["parts"]])
                sdv = np.concatenate([s for q, G, s in p["parts"]])
                ctx.close(a["phi_d"], np.sum(((dp - dobs) / sdv) ** 2), "state/phi_d", rtol=1e-9)
                ctx.close(a["dpred"], dp, "state/dpred", rtol=1e-9)
                ctx.check(np.array_equal(a["model"], b["model"]), "state/model", "a directive changed the model")
            if ends:
                ctx.check(np.array_equal(ends[-1]["model"], m), "state/result", "the result is not the model of the last iteration")
            betas = [e["beta"] for e in A if e["ev"] == "init"] + [e["beta"] for e in B if e["ev"] == "end"]
            for x, y in zip(betas, [e["beta"] for e in ends]):
                ctx.check(x == y, "beta/between", "the trade-off parameter changed between iterations")
            saved(ctx, p, so, sm, sd, A, B, ends, before, tmp, tgt)
            precond(ctx, p, pre, B, sens)
            if sens is not None:
                sensw(ctx, p, sens, A, B)
            ctx.distinct("real", ms.dim, be, before, len(ends), bool(sens), ends[-1]["iter"] == opt.maxIter if ends else None)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


def saved(ctx, p, so, sm, sd, A, B, ends, before, tmp, tgt):
    reg, al = p["reg"], p["al"]
    st = [a if before else b for a, b in zip(A, B) if a["ev"] == "end"]
    if not ends:
        return
    for nm, key in [("beta", "beta"), ("phi_d", "phi_d"), ("phi_m", "phi_m"), ("phi", "f")]:
        got = getattr(so, nm)
        ctx.check(len(got) == len(ends), f"saved/{nm}/count", f"{len(got)} values saved over {len(ends)} iterations")
        ctx.close(np.array(got, float), np.array([e[key] for e in st]), f"saved/{nm}", rtol=1e-12)
    ctx.event("saved", len(ends))
    smooth = [o for o in ("x", "y", "z")]
    parts = np.array([e["parts"] for e in st])
    idx = {}
    for i, o in enumerate(reg.objfcts):
        name = type(o).__name__
        if name == "Smallness":
            idx["small"] = i
        elif name == "SmoothnessFirstOrder":
            idx["smooth_" + o.orientation] = i
    for nm, i in idx.items():
        a = al["alpha_s"] if nm == "small" else al["alpha_" + nm[-1]]
        ctx.close(np.array(getattr(so, "phi_m_" + nm), float), a * parts[:, i], f"saved/phi_m_{nm}", rtol=1e-9)
    tot = sum(np.array(getattr(so, "phi_m_" + nm), float) for nm in ("small", "smooth_x", "smooth_y", "smooth_z"))
    ctx.close(tot, np.array(so.phi_m, float), "saved/total", rtol=1e-9)
    # text file
    fp = so.file_abs_path
    rows = np.loadtxt(fp, comments="#", skiprows=1, ndmin=2)
    ctx.check(rows.shape == (len(ends), 9), "saved/file", f"the output file has shape {rows.shape} for {len(ends)} iterations")
    if rows.shape == (len(ends), 9):
        cols = [so.beta, so.phi_d, so.phi_m, so.phi_m_small, so.phi_m_smooth_x, so.phi_m_smooth_y, so.phi_m_smooth_z, so.phi]
        ctx.check(list(rows[:, 0]) == [e["iter"] for e in ends], "saved/file-iter", "iteration numbers in the file are wrong")
        for j, c in enumerate(cols):
            ctx.close(rows[:, j + 1], np.array(c, float), f"saved/file-column{j}", rtol=1e-3)
    keep = [np.array(c, float) for c in (so.beta, so.phi_d, so.phi_m)]
    with ctx.guard():
        so.load_results()
        for nm, c in zip(("beta", "phi_d", "phi_m"), keep):
            ctx.close(np.asarray(getattr(so, nm), float), c, f"saved/load/{nm}", rtol=1e-3)
        nD = sum(len(q[2]) for q in p["parts"])
        ctx.check(so.target_misfit == nD, "saved/load/target", f"target {so.target_misfit}, {nD} data")
        below = np.flatnonzero(np.asarray(so.phi_d) <= nD)
        if keep[1][-1] < 0.99 * nD:
            ctx.check(so.i_target == below[0], "saved/load/i_target", f"target reached at {so.i_target}, first below {below[0]}")
    files = sorted(f for f in os.listdir(tmp) if f.startswith("mod"))
    ctx.check(len(files) == len(ends), "saved/models", f"{len(files)} model files for {len(ends)} iterations")
    for f, e in zip(files, ends):
        ctx.check(np.array_equal(np.load(os.path.join(tmp, f)), e["model"]), "saved/model", "a saved model is not the model of its iteration")
    ctx.check(sorted(sd.outDict) == [e["iter"] for e in ends], "saved/dict-keys", "the dictionary does not have one entry per iteration")
    dfiles = sorted(f for f in os.listdir(tmp) if f.startswith("dic"))
    ctx.check(len(dfiles) == len(ends), "saved/dict-files", f"{len(dfiles)} dictionary files")
    for e, s, f in zip(ends, st, dfiles):
        disk = np.load(os.path.join(tmp, f), allow_pickle=True)["arr_0"].item()
        for d in (sd.outDict.get(e["iter"], {}), disk):
            ctx.check(d.get("iter") == e["iter"] and d.get("beta") == s["beta"] and d.get("phi_d") == e["phi_d"] and d.get("phi_m") == e["phi_m"] and d.get("f") == e["f"], "saved/dict", "a saved entry differs from its iteration")
            ctx.check(np.array_equal(d.get("m"), e["model"]) and np.array_equal(d.get("dpred"), e["dpred"]), "saved/dict-model", "the saved model or data differ from the iteration's")


def precond(ctx, p, pre, B, sens):
    """approxHinv is the inverse of the diagonal of the (approximate) Hessian, refreshed as configured."""
    reg = p["ip"].reg
    jtj = sum(np.sum((G / s[:, None]) ** 2, axis=0) for _, G, s in p["parts"])
    last = None
    fixed = sens is None or not sens.every_iteration  # the weights still are those of the end
    for e in B:
        if e["ev"] == "finish":
            continue
        if e["ev"] == "end" and not pre.update_every_iteration:
            ctx.check(np.array_equal(e["pre"], last), "preconditioner/kept", "the preconditioner changed though it is not to be updated")
        elif fixed:
            rd = reg.deriv2(e["model"]).diagonal()
            ok = any(np.allclose(1 / e["pre"], c * jtj + e["beta"] * rd, rtol=1e-8) for c in (1, 2))
            ctx.check(ok, "preconditioner", "the preconditioner is not the inverse of the Hessian's diagonal at the current model and trade-off")
            ctx.event("preconditioners")
        last = e["pre"]


def sensw(ctx, p, d, A, B):
    n = p["n"]
    vol = p["mesh"].cell_volumes
    jtj = sum(np.sum((G / s[:, None]) ** 2, axis=0) for _, G, s in p["parts"])
    w = np.sqrt(jtj) / vol
    t = d.threshold_value
    if d.threshold_method == "global":
        w = w + t
    elif d.threshold_method == "percentile":
        w = np.maximum(w, np.percentile(w, t))
    else:
        w = np.maximum(w, t * w.max())
    if d.normalization_method == "maximum":
        w = w / w.max()
    elif d.normalization_method == "minimum":
        w = w / w.min()
    for e in A + B:
        ctx.check(e["sens"] is not None, "sensitivity/set", "no sensitivity weights")
        for s in e["sens"] or []:
            ctx.close(s, w, f"sensitivity/{d.threshold_method}/{d.normalization_method}", rtol=1e-8)
    ctx.event("sensitivity weights")


def drive(p, dirs):
    """An inversion whose optimizer is not run: histories are set by hand."""
    from simpeg import inversion

    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        inv = inversion.BaseInversion(p["ip"], directiveList=dirs)
        p["ip"].startup(p["m0"])
        p["opt"].startup(p["m0"])
        inv.directiveList.call("initialize")
    return inv


@case("C13", "histories", quick=6, thorough=60, cost=2)
def histories(ctx):
    """BetaSchedule and TargetMisfit over arbitrary histories."""
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(6, 10)):
        p = problem(rng, "wls", ndm=int(rng.integers(1, 4)), dim=1, maxIter=int(rng.integers(5, 40)))
        ip, opt = p["ip"], p["opt"]
        rate, fac = int(rng.integers(1, 6)), float(rng.uniform(0.5, 9))
        kw = [dict(chifact=float(rng.uniform(0.2, 3))), dict(target=float(rng.uniform(1, 50))), dict(phi_d_star=float(rng.uniform(1, 50)), chifact=float(rng.uniform(0.2, 3)))][int(rng.integers(3))]
        tm = directives.TargetMisfit(**kw)
        inv = drive(p, [directives.BetaSchedule(coolingFactor=fac, coolingRate=rate), tm])
        nD = sum(len(q[2]) for q in p["parts"])
        tgt = kw.get("target", kw.get("chifact", 1.0) * kw.get("phi_d_star", nD))
        ctx.label(f"history rate={rate} factor={fac:.2f} target={kw}")
        ctx.close(tm.target, tgt, "target/value", rtol=1e-12)
        beta = ip.beta
        for it in range(0, opt.maxIter + 3):
            opt.iter, opt.stopNextIteration = it, False
            ip.phi_d = tgt * float(rng.choice([0.5, 0.999999, 1.0, 1.000001, 3.0]))
            inv.directiveList.call("endIter")
            if 0 < it < opt.maxIter and it % rate == 0:
                beta /= fac
            ctx.close(ip.beta, beta, "beta/history", rtol=1e-10)
            ctx.check(opt.stopNextIteration == (ip.phi_d < tgt), "target/history", f"phi_d/target={ip.phi_d / tgt} stop={opt.stopNextIteration}")
            ctx.event("driven iterations")
        ctx.distinct("hist", rate, sorted(kw))


@case("C13", "irls", quick=6, thorough=60, cost=3)
def irls(ctx):
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(4, 6)):
        p = problem(rng, "sparse", ndm=int(rng.integers(1, 3)))
        ip, opt, reg = p["ip"], p["opt"], p["reg"]
        want = [np.array(v, dtype=float, copy=True) for v in reg.norms]
        kw = dict(cooling_rate=int(rng.integers(1, 4)), cooling_factor=float(rng.uniform(1.2, 5)), chifact_start=float(rng.uniform(0.5, 3)), chifact_target=float(rng.uniform(0.5, 3)), irls_cooling_factor=float(rng.uniform(1.0, 2)), f_min_change=float(10 ** rng.uniform(-4, -0.5)), max_irls_iterations=int(rng.integers(0, 12)), misfit_tolerance=float(rng.uniform(0.01, 0.5)), percentile=float(rng.choice([50, 90, 100])))
        u = directives.UpdateIRLS(verbose=False, **kw)
        log = []
        ctx.label(f"IRLS dim={p['mesh'].dim} {kw}")
        inv = drive(p, [u, directives.UpdatePreconditioner()])
        ctx.check(all(np.all(np.asarray(v) == 2) for v in reg.norms), "irls/l2-start", "the norms are not 2 before the target is reached")
        nD = sum(len(q[2]) for q in p["parts"])
        start, count, f_old, beta, cf = None, 0, 0.0, float(ip.beta), kw["cooling_factor"]
        thr = [o.irls_threshold for o in reg.objfcts]
        m = p["m0"]
        for it in range(1, 25):
            opt.iter, opt.stopNextIteration = it, bool(rng.random() < 0.1)
            m = m + rng.standard_normal(p["n"]) * rng.choice([0, 1e-4, 0.05])
            ip.model = m
            base = kw["chifact_start"] if start is None else kw["chifact_target"]
            ip.phi_d = float(nD * base * rng.choice([0.3, 0.97, 1.0 + 1e-6, 1.05, 1.6, 4.0]))
            ip.phi_m = 0.0
            r = ip.phi_d / (nD * kw["chifact_target"])
            if start is not None:
                if abs(1 - r) > kw["misfit_tolerance"]:
                    cf = 1 / np.mean([0.75, 1 / r]) if r > 1 else 1 / np.mean([2.0, 1 / r])
                else:
                    cf = 1.0
            dm_ = m - p["mref"]
            phim = None
            begins = start is None and ip.phi_d < nD * kw["chifact_start"]
            before_stop = opt.stopNextIteration
            # the regularization value with the norms and weights the directive will see
            with quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                inv.directiveList.call("endIter")
            ctx.event("driven iterations")
            if begins:
                start, cf = it, 1.0
                thr = []
                for o in reg.objfcts:
                    t = np.percentile(np.abs(dm_ if type(o).__name__ == "SparseSmallness" else m), kw["percentile"])
                    thr.append(t if type(o).__name__ == "SparseSmallness" else t / reg.regularization_mesh.base_length)
                ctx.event("irls starts")
                ctx.check(np.array_equal(ip.l2model, m), "irls/l2model", "the l2 model is not the model at which the IRLS started")
            stopped = False
            if start is not None and (it - start) % kw["cooling_rate"] == 0:
                ctx.event("irls iterations")
                stopped = opt.stopNextIteration
                if count == kw["max_irls_iterations"]:
                    ctx.check(stopped, "irls/max", f"{count} IRLS iterations done, limit {kw['max_irls_iterations']}, and no stop")
                elif stopped:
                    ctx.check(count > 1 and abs(1 - r) < kw["misfit_tolerance"], "irls/stop", f"stopped after {count} iterations at phi_d/target={r:.3f}")
                if not stopped:
                    thr = [t / kw["irls_cooling_factor"] for t in thr]
                    count += 1
            else:
                ctx.check(opt.stopNextIteration == before_stop, "irls/flag", "the stopping flag changed between IRLS updates")
            if not stopped and it % kw["cooling_rate"] == 0:
                beta = beta / cf
            ctx.close(ip.beta, beta, "irls/beta", rtol=1e-9, msg=f"iteration {it} started {start}")
            if start is None:
                ctx.check(all(np.all(np.asarray(v) == 2) for v in reg.norms), "irls/l2", "the norms changed before the target was reached")
            else:
                for v, w in zip(reg.norms, want):
                    ctx.close(np.asarray(v, float), w, "irls/norms", rtol=1e-12)
                for o, t in zip(reg.objfcts, thr):
                    ctx.close(o.irls_threshold, t, "irls/threshold", rtol=1e-9, msg=type(o).__name__)
            if stopped:
                break
        ctx.distinct("irls", p["mesh"].dim, start is None, count, stopped)


@case("C13", "irls-run", quick=4, thorough=30, cost=4)
def irls_run(ctx):
    """Real sparse inversions: starts when the misfit first falls below the start value, ends within limits."""
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(2, 3)):
        p = problem(rng, "sparse", maxIter=int(rng.integers(10, 30)), dim=int(rng.integers(1, 3)))
        ip, opt, reg = p["ip"], p["opt"], p["reg"]
        want = [np.array(v, dtype=float, copy=True) for v in reg.norms]
        nD = len(p["parts"][0][2])
        kw = dict(chifact_start=float(rng.uniform(1, 8)), max_irls_iterations=int(rng.integers(1, 6)), f_min_change=1e-8)
        kw["chifact_target"] = kw["chifact_start"]
        u = directives.UpdateIRLS(verbose=False, **kw)
        log = []

        def grab(d):
            return dict(norms=[np.array(v, float) for v in reg.norms], thr=[o.irls_threshold for o in reg.objfcts], parts=None)

        sd = directives.SaveOutputDictEveryIteration(on_disk=False)
        ctx.label(f"IRLS run {kw} dim={p['mesh'].dim}")
        inv, m = invert(p, [directives.BetaEstimate_ByEig(beta0_ratio=10, random_seed=1), recorder(log, "a", grab), u, directives.UpdatePreconditioner(), sd, recorder(log, "b", grab)])
        ctx.event("inversions")
        A = [e for e in log if e["tag"] == "a" and e["ev"] == "end"]
        B = [e for e in log if e["tag"] == "b" and e["ev"] == "end"]
        first = next((i for i, e in enumerate(A) if e["phi_d"] < nD * kw["chifact_start"]), None)
        for i, (a, b) in enumerate(zip(A, B)):
            ctx.event("iterations")
            if first is None or i < first:
                ctx.check(all(np.all(v == 2) for v in b["norms"]), "irls-run/l2", "norms changed before the target")
            else:
                ctx.check(all(np.allclose(v, w) for v, w in zip(b["norms"], want)), "irls-run/norms", "norms are not those asked for after the start")
                if not b["stop"]:
                    ctx.check(all(x < y for x, y in zip(b["thr"], a["thr"])) or i == first, "irls-run/threshold", "thresholds do not decrease")
            ctx.check(not b["stop"] or i == len(A) - 1, "irls-run/stop", "went on after the stop was asked for")
            d = sd.outDict[a["iter"]]
            ths = [v for k_, v in d.items() if k_.endswith("irls_threshold")]
            ctx.check(sorted(map(float, ths)) == sorted(float(t) for t in b["thr"]), "irls-run/saved", "saved thresholds differ from the iteration's")
        if first is not None:
            ctx.check(len(A) - first - 1 <= kw["max_irls_iterations"], "irls-run/max", f"{len(A) - first - 1} IRLS iterations, limit {kw['max_irls_iterations']}")
        ctx.distinct("irls-run", first is None, len(A) == opt.maxIter)


@case("C13", "joint", quick=5, thorough=50, cost=2)
def joint(ctx):
    """Several misfits: scaling by eigenvalues, multi-target stopping and the joint scaling schedule."""
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(5, 8)):
        nd = int(rng.integers(2, 5))
        p = problem(rng, "wls", ndm=nd, dim=1)
        ip, opt = p["ip"], p["opt"]
        dm = ip.dmisfit
        N = np.array([len(q[2]) for q in p["parts"]])
        chi0 = None if rng.random() < 0.4 else rng.uniform(0.2, 3, nd)
        if rng.random() < 0.5:
            dm.multipliers = list(rng.uniform(0.3, 3, nd))
        mult0 = np.array(dm.multipliers, float)
        lam = np.array([lambda_max(2 * (G / s[:, None]).T @ (G / s[:, None])) for _, G, s in p["parts"]])
        scale = directives.ScalingMultipleDataMisfits_ByEig(chi0_ratio=chi0, n_pw_iter=300, random_seed=int(rng.integers(100)), verbose=False)
        chif = rng.uniform(0.5, 2, nd)
        mt = directives.MultiTargetMisfits(chifact=chif, TriggerSmall=False, verbose=False)
        wf, ur = float(rng.uniform(0.5, 3)), int(rng.integers(1, 4))
        js = directives.JointScalingSchedule(warmingFactor=wf, update_rate=ur)
        use_scale = rng.random() < 0.7
        ctx.label(f"joint {nd} misfits scaling={use_scale} chi0={chi0} warming={wf:.2f} rate={ur}")
        inv = drive(p, ([scale] if use_scale else []) + [mt, js])
        if use_scale:
            c = (mult0 if chi0 is None else chi0) / lam
            ctx.close(np.array(dm.multipliers, float), c / c.sum(), "joint/scaling", rtol=0.05)
        mul = np.array(dm.multipliers, float)
        tgt = chif * N
        for it in range(1, 12):
            # a model whose misfits straddle the targets
            opt.iter, opt.stopNextIteration = it, False
            k = int(rng.integers(0, nd))
            G, q = p["parts"][k][1], p["parts"][k][0]
            x = np.linalg.lstsq(G, q.data.dobs, rcond=None)[0]
            if rng.random() < 0.3:
                GG = np.vstack([a[1] for a in p["parts"]])
                x = np.linalg.lstsq(GG, np.concatenate([a[0].data.dobs for a in p["parts"]]), rcond=None)[0]
            ip.model = x + rng.standard_normal(p["n"]) * rng.choice([0.01, 0.03, 0.3])
            phi = np.array([np.sum(((G @ ip.model - q.data.dobs) / s) ** 2) for q, G, s in p["parts"]])
            with quiet():
                inv.directiveList.call("endIter")
            ctx.event("driven iterations")
            ctx.close(np.asarray(mt.dmlist, float), phi, "joint/dmlist", rtol=1e-8, atol=1e-9)
            met = phi < tgt
            ctx.check(opt.stopNextIteration == bool(met.all()), "joint/stop", f"misfits/targets {phi / tgt} stop={opt.stopNextIteration}")
            if it % ur == 0 and met.any() and not met.all() and np.all(mul > js.chimin) and np.all(mul < js.chimax):
                mul = mul.copy()
                mul[~met] *= wf * np.median(tgt[met] / phi[met])
                mul /= mul.sum()
            ctx.close(np.array(dm.multipliers, float), mul, "joint/schedule", rtol=1e-6)
            ctx.distinct("joint", nd, int(met.sum()), use_scale)


@case("C13", "joint-no-target", quick=1, thorough=2, cost=1)
def joint_nt(ctx):
    """Without targets there is nothing to balance the misfits by: the scales stay as they are."""
    from simpeg import directives

    p = problem(ctx.rng, "wls", ndm=2, dim=1)
    js = directives.JointScalingSchedule()
    ctx.label("JointScalingSchedule without MultiTargetMisfits")
    with ctx.guard():
        inv = drive(p, [js])
        before = np.array(p["ip"].dmisfit.multipliers, float)
        p["opt"].iter = 1
        inv.directiveList.call("endIter")
        ctx.check(np.array_equal(before, np.array(p["ip"].dmisfit.multipliers, float)), "joint/no-target", "the scales changed")


@case("C13", "alphas", quick=2, thorough=20, cost=1)
def alphas(ctx):
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(5, 10)):
        p = problem(rng, str(rng.choice(["wls", "sparse"])))
        reg = p["reg"]
        dim = p["mesh"].dim
        ratio = rng.uniform(0.3, 3, dim)
        d = directives.AlphasSmoothEstimate_ByEig(alpha0_ratio=ratio if rng.random() < 0.7 and type(reg).__name__ == "Sparse" else float(ratio[0]), n_pw_iter=400, random_seed=2)
        ctx.label(f"alphas dim={dim} {type(reg).__name__}")
        sc = np.size(d.alpha0_ratio) == 1
        before = {k: p["al"][k] for k in p["al"]}
        parts = {}
        for o in reg.objfcts:
            nm = type(o).__name__
            if nm in ("Smallness", "SparseSmallness"):
                parts["s"] = o
            elif nm in ("SmoothnessFirstOrder", "SparseSmoothness"):
                parts[o.orientation] = o
        inv = drive(p, [d])
        lam = {k: lambda_max(o.deriv2(p["m0"])) for k, o in parts.items()}
        for i, k in enumerate("xyz"[:dim]):
            a = before["alpha_" + k] * (ratio[0] if sc else ratio[i]) * lam["s"] / lam[k]
            ctx.close(getattr(reg, "alpha_" + k), a, f"alphas/{k}", rtol=0.06)
        ctx.close(reg.alpha_s, before["alpha_s"], "alphas/s", rtol=1e-12)
        ctx.event("alphas")
        ctx.distinct("alphas", dim, type(reg).__name__)


@case("C13", "similarity", quick=4, thorough=40, cost=2)
def similarity(ctx):
    """Joint inversions with a similarity measure: paired trade-offs, their schedule, the saved output and the stop."""
    from simpeg import directives, inverse_problem, maps, optimization, regularization

    rng = ctx.rng
    for _ in range(ctx.n(4, 6)):
        ms = mesh(rng, 2)
        n = ms.n_cells
        w = maps.Wires(("a", n), ("b", n))
        P = [misfit(rng, n, model_map=mp) for mp in (w.a, w.b)]
        regs = [regularization.WeightedLeastSquares(ms, mapping=mp, reference_model=np.zeros(2 * n)) for mp in (w.a, w.b)]
        cg = regularization.CrossGradient(ms, wire_map=w)
        lam = float(10 ** rng.uniform(-1, 2))
        b_in = rng.uniform(0.5, 20, 2)
        reg = b_in[0] * regs[0] + b_in[1] * regs[1] + lam * cg
        dm = P[0][0] + P[1][0]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opt = optimization.ProjectedGNCG(maxIter=10, cg_atol=1e-3)
        ip = inverse_problem.BaseInvProblem(dm, reg, opt, print_version=False)
        tmp = tempfile.mkdtemp(prefix="vpc13")
        try:
            rate, fac, tol, chi = int(rng.integers(1, 3)), float(rng.uniform(1.2, 4)), float(rng.uniform(0.05, 0.4)), float(rng.uniform(0.5, 2))
            upd = bool(rng.random() < 0.7)
            sch = directives.PairedBetaSchedule(cooling_rate=rate, cooling_factor=fac, beta_tol=tol, chifact_target=chi, update_beta=upd)
            sv = directives.SimilarityMeasureSaveOutputEveryIteration(directory=tmp, name="sim", on_disk=bool(rng.random() < 0.5))
            stp = directives.MovingAndMultiTargetStopping(tol=1e-3, beta_tol=tol, chifact_target=chi)
            est = rng.random() < 0.5
            first = rng.random() < 0.5
            br = float(10 ** rng.uniform(-1, 1))
            order = [directives.SimilarityMeasureInversionDirective()] + ([directives.PairedBetaEstimate_ByEig(beta0_ratio=br, n_pw_iter=300, seed=3)] if est else [])
            order += [sv, sch, stp] if first else [sch, sv, stp]
            p = dict(ip=ip, opt=opt, m0=rng.standard_normal(2 * n) * 0.1)
            ctx.label(f"similarity estimate={est} save-first={first} rate={rate} tol={tol:.2f} chi={chi:.2f} update={upd}")
            inv = drive(p, order)
            beta = b_in.copy()
            if est:
                for i in range(2):
                    G, s = P[i][1], P[i][2]
                    H = regs[i].deriv2(p["m0"]).toarray()
                    beta[i] = br * lambda_max(2 * (G / s[:, None]).T @ (G / s[:, None])) / lambda_max(H)
                got = np.array(reg.multipliers[:-1], float)
                ctx.close(got, beta, "similarity/estimate", rtol=0.05)
                beta = got.copy()
            N = np.array([len(q[2]) for q in P])
            tgt = chi * N
            rows = []
            opt.x_last = p["m0"]
            for it in range(1, 9):
                opt.iter, opt.stopNextIteration = it, False
                # a model with a chosen misfit for each data set
                xs = []
                for i in range(2):
                    q, G, s = P[i]
                    x = np.linalg.lstsq(G, q.data.dobs, rcond=None)[0]
                    r = G @ rng.standard_normal(n)
                    dx = np.linalg.lstsq(G, r, rcond=None)[0]
                    a = np.sqrt(tgt[i] * rng.choice([0.4, 0.9, 1.0 + tol / 2, 1.2 + tol, 3])) / np.linalg.norm(r / s)
                    xs.append(x + a * dx)
                m = np.concatenate(xs)
                opt.xc = m
                opt.x_last = m * (1 + rng.choice([1e-5, 0.1]))
                with quiet():
                    opt.f = ip.evalFunction(m, return_g=False, return_H=False)
                phi = np.array([np.sum(((G @ x - q.data.dobs) / s) ** 2) for (q, G, s), x in zip(P, xs)])
                pm = [float(rg(m)) for rg in regs]
                ps = float(cg(m))
                b_old = beta.copy()
                with quiet():
                    inv.directiveList.call("endIter")
                ctx.event("driven iterations")
                if it % rate == 0:
                    beta = beta.copy()
                    for i in range(2):
                        r = phi[i] / tgt[i]
                        if upd and r <= 1 + tol:
                            beta[i] /= max(0.75, r) if r <= 1 else min(1.5, r)
                        elif r > 1:
                            beta[i] /= fac
                ctx.close(np.array(reg.multipliers[:-1], float), beta, "similarity/schedule", rtol=1e-7)
                ctx.close(float(reg.multipliers[-1]), lam, "similarity/lambda", rtol=1e-12)
                rows.append((b_old if first else beta, phi, pm, ps, opt.f))
                mv = np.linalg.norm(opt.xc - opt.x_last) / np.linalg.norm(opt.x_last)
                should = np.all(np.abs(1 - phi / tgt) < tol) and mv <= 1e-3
                ctx.check(opt.stopNextIteration == bool(should), "similarity/stop", f"phi/target={phi / tgt} move={mv:.1e} stop={opt.stopNextIteration}")
                ctx.distinct("sim", bool(should), est, first, tuple(phi > tgt))
            for nm, j in [("phi_d", 1), ("phi_m", 2), ("phi_sim", 3), ("phi", 4), ("betas", 0)]:
                ctx.close(np.array(getattr(sv, nm), float), np.array([r[j] for r in rows], float), f"similarity/saved/{nm}", rtol=1e-7, atol=1e-12)
            ctx.event("saved", len(rows))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


@case("C13", "validate", quick=1, thorough=1, cost=1)
def order_rules(ctx):
    """Directive lists with a documented ordering rule: wrong orders are refused, right ones accepted."""
    from simpeg import directives as d
    from simpeg import inversion

    rng = ctx.rng
    B = lambda: d.BetaEstimate_ByEig(random_seed=1)
    good = [
        [d.UpdateSensitivityWeights(), B(), d.UpdatePreconditioner()],
        [d.UpdateIRLS(), d.UpdatePreconditioner()],
        [B(), d.BetaSchedule()],
    ]
    bad = [
        [B(), d.UpdateSensitivityWeights()],
        [d.UpdatePreconditioner(), d.UpdateSensitivityWeights()],
        [d.UpdatePreconditioner(), d.UpdateIRLS()],
        [B(), d.BetaEstimateMaxDerivative(random_seed=1)],
        [d.UpdateIRLS(), d.BetaSchedule(), d.UpdatePreconditioner()],
    ]
    for lst, ok in [(g, True) for g in good] + [(b, False) for b in bad]:
        p = problem(rng, "sparse", dim=1)
        ctx.label("order " + " ".join(type(x).__name__ for x in lst))
        ctx.event("orders")
        if ok:
            with ctx.guard(), quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                inversion.BaseInversion(p["ip"], directiveList=lst)
        else:
            ctx.raises((AssertionError, ValueError, IndexError), lambda: inversion.BaseInversion(p["ip"], directiveList=lst), "order/refused")


def pgi_problem(rng, ct):
    """two (or one) physical properties on one mesh, each seen by its own linear survey, with a mixture of two units"""
    import scipy.linalg as sla
    from simpeg import data_misfit, inverse_problem, maps, optimization, regularization, utils  # noqa: F401

    ms = mesh(rng, int(rng.integers(1, 3)))
    n = ms.n_cells
    nf = int(rng.integers(1, 3))
    names = ["a", "b"][:nf]
    wires = maps.Wires(*[(q, n) for q in names])
    k = int(rng.integers(2, 4))
    mu = rng.permutation(np.arange(k) * 2.0)[:, None] * np.ones(nf) + rng.uniform(-0.2, 0.2, (k, nf)) + 1.0
    z = rng.integers(0, k, n)
    z[:k] = np.arange(k)
    X = mu[z] + 0.15 * rng.standard_normal((n, nf))
    g = utils.WeightedGaussianMixture(n_components=k, mesh=ms, actv=np.ones(n, bool), covariance_type=ct, max_iter=1, n_init=1, random_state=1, tol=1e3, means_init=mu)
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g.fit(X)
    g.means_ = mu.copy()
    c = {"full": lambda: np.array([np.diag(rng.uniform(0.05, 0.3, nf)) for _ in range(k)]), "tied": lambda: np.diag(rng.uniform(0.05, 0.3, nf)),
         "diag": lambda: rng.uniform(0.05, 0.3, (k, nf)), "spherical": lambda: rng.uniform(0.05, 0.3, k)}[ct]()
    g.covariances_ = c
    g.compute_clusters_precisions()
    w = rng.uniform(0.5, 1, k)
    g.weights_ = w / w.sum()
    kw = dict(alpha_x=float(rng.uniform(0.1, 1)))
    if ms.dim > 1:
        kw["alpha_y"] = float(rng.uniform(0.1, 1))
    wt = [np.exp(rng.normal(0, 0.4, n)) for _ in range(nf)] if rng.random() < 0.5 else None
    reg = regularization.PGI(ms, g, wiresmap=wires, alpha_pgi=float(rng.uniform(0.3, 3)), weights_list=wt, **kw)
    parts = []
    for f, q in enumerate(names):
        dm, G, sd = misfit(rng, n, X[:, f], model_map=getattr(wires, q))
        parts.append((dm, G, sd))
    dm = parts[0][0]
    for q in parts[1:]:
        dm = dm + q[0]
    if nf == 1:
        dm = 1.0 * dm
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        opt = optimization.ProjectedGNCG(maxIter=5, cg_maxiter=10, cg_rtol=1e-3, cg_atol=0.0)
    whole = reg
    if rng.random() < 0.3:  # next to another regularization
        whole = reg + 0.01 * regularization.WeightedLeastSquares(ms, mapping=wires.a)
    ip = inverse_problem.BaseInvProblem(dm, whole, opt, beta=float(10 ** rng.uniform(0, 2)), print_version=False)
    return dict(whole=whole is not reg, mesh=ms, n=n, nf=nf, k=k, parts=parts, reg=reg, opt=opt, ip=ip, g=g, X=X, wires=wires, m0=X.T.ravel() + 0.3 * rng.standard_normal(n * nf))


def unit_of(g, ct, X):
    """most probable unit of each row, from the definition"""
    from scipy.stats import multivariate_normal as mvn

    k, nf = g.means_.shape
    L = np.empty((len(X), k))
    for j in range(k):
        C = np.asarray(g.covariances_)
        C = {"full": lambda: C[j], "tied": lambda: C, "diag": lambda: np.diag(C[j]), "spherical": lambda: C[j] * np.eye(nf)}[ct]()
        L[:, j] = np.log(g.weights_[j]) + mvn(g.means_[j], C).logpdf(X)
    s = np.sort(L, axis=1)
    return L.argmax(1), s[:, -1] - s[:, -2] > 1e-6


@case("C13", "pgi", quick=6, thorough=50, cost=3)
def pgi(ctx):
    """Petrophysically guided inversions: membership and reference model, trade-off and weight of the units, and the
    reference model in the smoothness, replayed from the documented rules."""
    from simpeg import directives

    rng = ctx.rng
    for _ in range(ctx.n(3, 6)):
        ct = str(rng.choice(["full", "tied", "diag", "spherical"]))
        p = pgi_problem(rng, ct)
        ip, opt, reg, n, nf = p["ip"], p["opt"], p["reg"], p["n"], p["nf"]
        small = reg.objfcts[0]
        N = np.array([len(q[2]) for q in p["parts"]])
        chi = rng.uniform(0.7, 2, nf)
        wit = bool(rng.integers(2))
        trig = bool(rng.integers(2))
        chis = float(rng.uniform(0.5, 3))
        mt = directives.MultiTargetMisfits(chifact=chi, TriggerSmall=trig, chiSmall=chis, WeightsInTarget=wit, verbose=False)
        fix = np.c_[rng.permutation(n)[:3], rng.integers(0, p["k"], 3)] if rng.random() < 0.4 else None
        rate = int(rng.integers(1, 3))
        up = directives.PGI_UpdateParameters(update_rate=rate, fixed_membership=fix, update_gmm=False)
        bkw = dict(tolerance=float(rng.choice([0.0, 0.2])), progress=float(rng.uniform(0.05, 0.4)), coolingFactor=float(rng.uniform(1.5, 4)), warmingFactor=float(rng.uniform(0.5, 2)),
                   update_rate=int(rng.integers(1, 3)), ratio_in_cooling=bool(rng.integers(2)), alphasmax=float(rng.choice([1e10, 5.0])), betamin=float(rng.choice([1e-10, 1.0])))
        ba = directives.PGI_BetaAlphaSchedule(verbose=False, **bkw)
        wait = bool(rng.integers(2))
        am = directives.PGI_AddMrefInSmooth(verbose=False, wait_till_stable=wait, tolerance=float(rng.choice([0.0, 0.2])))
        ctx.label(f"pgi {ct} {nf} properties {p['k']} units combined {p['whole']} weights in target {wit} small {trig} fixed {fix is not None} rate {rate} wait {wait} {bkw}")
        with ctx.guard():
            inv = drive(p, [mt, ba, up, am])
            tgt = chi * N
            mode, alpha, beta = 1, reg.alpha_pgi, ip.beta
            misf = lambda m: np.array([np.sum(((G @ w - q.data.dobs) / s) ** 2) for (q, G, s), w in zip(p["parts"], m.reshape(nf, n))])  # noqa: E731
            prev = misf(ip.model)
            member = reg.compute_quasi_geology_model()
            in_smooth = False
            sol = np.concatenate([np.linalg.lstsq(G, q.data.dobs, rcond=None)[0] for q, G, s in p["parts"]])
            base = p["X"].T.ravel()
            # a model between the true units that explains the data
            best = base + np.concatenate([np.linalg.lstsq(G, q.data.dobs - G @ x, rcond=None)[0] for (q, G, s), x in zip(p["parts"], base.reshape(nf, n))])
            for it in range(1, 11):
                opt.iter, opt.stopNextIteration = it, False
                r = rng.random()
                if r < 0.25:
                    ip.model = best + 1e-3 * rng.standard_normal(n * nf)
                elif r < 0.55:
                    ip.model = ip.model + 1e-3 * rng.standard_normal(n * nf) * rng.choice([0, 1, 10])
                elif r < 0.8:
                    ip.model = best + rng.choice([0.02, 0.05]) * rng.standard_normal(n * nf)
                else:
                    ip.model = base + rng.choice([0.05, 0.5]) * rng.standard_normal(n * nf)
                m = ip.model
                phi = misf(m)
                # petrophysical misfit with the reference of before the update
                R = (m - small.reference_model).reshape(nf, n).T
                zz = reg.compute_quasi_geology_model()
                W = np.asarray(small.W.diagonal()).reshape(nf, n).T if wit else np.ones((n, nf))
                gm = small.gmm
                P = np.asarray(gm.precisions_)
                val = 0.0
                for i in range(n):
                    y = W[i] * R[i]
                    Pi = {"full": lambda: P[zz[i]], "tied": lambda: P, "diag": lambda: np.diag(P[zz[i]]), "spherical": lambda: P[zz[i]] * np.eye(nf)}[ct]()
                    val += y @ Pi @ y
                if wit:
                    val /= np.sum(W ** 2) / (n * nf)
                with quiet():
                    inv.directiveList.call("endIter")
                ctx.event("driven iterations")
                ctx.event("pgi iterations")
                ctx.close(np.asarray(mt.dmlist, float), phi, "pgi/misfits", rtol=1e-8, atol=1e-9)
                met = phi < tgt
                DM = bool(met.all())
                ctx.check(bool(mt.DM) == DM, "pgi/data target", f"{phi / tgt}")
                CL = not trig or val <= chis * n * nf
                if abs(val - chis * n * nf) > 1e-6 * val:
                    ctx.check(bool(mt.CL) == CL, "pgi/petrophysical target", f"{val} {chis * n * nf} {mt.CL}")
                    ctx.check(opt.stopNextIteration == (DM and CL), "pgi/stop")
                # trade-off and weight of the units
                if DM:
                    mode = 2
                branch = "none"
                if it % bkw["update_rate"] == 0:
                    thr = np.maximum((1 - bkw["progress"]) * prev[~met], tgt[~met])
                    over = phi > (1 + bkw["tolerance"]) * tgt
                    cool = bkw["coolingFactor"] * (np.median(phi[over] / tgt[over]) if over.any() and bkw["ratio_in_cooling"] else 1.0)
                    if np.all(phi[~met] > thr) and not DM and mode == 1 and beta > bkw["betamin"]:
                        beta, branch = beta / cool, "plateau"
                    elif DM and mode == 2 and alpha < bkw["alphasmax"]:
                        alpha, branch = alpha * bkw["warmingFactor"] * np.median(tgt / phi), "warm"
                    elif over.any() and mode == 2 and beta > bkw["betamin"]:
                        beta, branch = beta / cool, "increase"
                prev = phi
                ctx.distinct("pgi", branch, ct, nf)
                ctx.event("pgi " + branch)
                ctx.close(ip.beta, beta, "pgi/trade-off", rtol=1e-6, msg=branch)
                ctx.close(reg.alpha_pgi, alpha, "pgi/weight of the units", rtol=1e-6, msg=branch)
                ctx.close(float(reg.multipliers[0]), alpha, "pgi/weight of the units in the objective", rtol=1e-6)
                # membership and reference model
                if it % rate == 0:
                    z, sure = unit_of(p["reg"].gmm, ct, m.reshape(nf, n).T)
                    if fix is not None:
                        z[fix[:, 0]] = fix[:, 1]
                        sure[fix[:, 0]] = True
                    ref = small.reference_model.reshape(nf, n).T
                    ctx.close(ref[sure], reg.gmm.means_[z][sure], "pgi/reference model", rtol=1e-10)
                    ctx.close(np.sort(reg.gmm.means_, axis=0), np.sort(p["g"].means_, axis=0), "pgi/units kept", rtol=1e-12)
                    zq = reg.compute_quasi_geology_model()
                    ctx.check(np.array_equal(zq[sure], z[sure]), "pgi/quasi-geology")
                new = reg.compute_quasi_geology_model()
                frac = np.mean(new != member)
                if (DM or np.all(phi < tgt)) and (frac == 0 or not wait or frac <= am.tolerance):
                    in_smooth = True
                    want = reg.gmm.means_[new].T.ravel()
                    for o in reg.objfcts[1:]:
                        for q in o.objfcts:
                            if "Smoothness" in type(q).__name__:
                                ctx.close(q.reference_model, want, "pgi/reference of the smoothness", rtol=1e-10)
                    ctx.event("pgi references added")
                member = new
                ctx.check(bool(reg.reference_model_in_smooth) == in_smooth, "pgi/reference in the smoothness", f"{reg.reference_model_in_smooth} {in_smooth}")


@case("C13", "spherical", quick=3, thorough=20, cost=1)
def spherical(ctx):
    """vector models in spherical coordinates: angles are brought back without moving the vectors, and the weights of the
    angles carry the scale of the amplitudes."""
    from simpeg import data, data_misfit, directives, inverse_problem, maps, optimization, regularization

    rng = ctx.rng
    for _ in range(3):
        ms = mesh(rng, 2)
        n = ms.n_cells
        wires = maps.Wires(("a", n), ("t", n), ("p", n))
        s, G = lin_sim(rng, 3 * n)
        d = data.Data(s.survey, dobs=rng.standard_normal(G.shape[0]), standard_deviation=0.1)
        dm = data_misfit.L2DataMisfit(d, s)
        regs = [regularization.WeightedLeastSquares(ms, mapping=getattr(wires, q), reference_model=np.zeros(3 * n)) for q in "atp"]
        for r, u in zip(regs, ("si", "radian", "radian")):
            r.units = u
        reg = regs[0] + regs[1] + regs[2]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            opt = optimization.ProjectedGNCG(maxIter=3)
        ip = inverse_problem.BaseInvProblem(dm, reg, opt, beta=1.0, print_version=False)
        m0 = np.r_[rng.uniform(0.1, 2, n), rng.uniform(-6, 6, n), rng.uniform(-9, 9, n)]
        ctx.label("spherical vectors")
        with ctx.guard():
            pj = directives.ProjectSphericalBounds()
            uw = directives.SphericalUnitsWeights(amplitude=wires.a, angles=regs[1:], verbose=False)
            p = dict(ip=ip, opt=opt, m0=m0)
            xyz = lambda m: np.c_[m[:n] * np.cos(m[n:2 * n]) * np.cos(m[2 * n:]), m[:n] * np.cos(m[n:2 * n]) * np.sin(m[2 * n:]), m[:n] * np.sin(m[n:2 * n])]  # noqa: E731
            inv = drive(p, [uw, pj])
            m = m0
            for it in range(6):
                got = np.array(ip.model)
                ctx.event("driven iterations")
                ctx.event("spherical iterations")
                ctx.close(xyz(got), xyz(m), "spherical/vectors moved", rtol=0, atol=1e-7)
                ctx.check(np.all(got[:n] >= 0) and np.all(np.abs(got[n:]) <= np.pi + 1e-12), "spherical/angles out of range")
                ctx.check(np.array_equal(opt.xc, got) and np.array_equal(s.model, got), "spherical/model of the simulation and of the optimizer")
                for r in regs[1:]:
                    for o in r.objfcts:
                        ctx.close(o.get_weights("angle_scale"), np.full(n, got[:n].max() / np.pi), "spherical/weights of angles", rtol=1e-6)
                ctx.check(all("angle_scale" not in o.weights_keys for o in regs[0].objfcts), "spherical/weights of amplitudes")
                m = got + np.r_[rng.uniform(0, 1, n), rng.uniform(-5, 5, 2 * n)]
                ip.model = m
                opt.iter = it + 1
                with quiet():
                    inv.directiveList.call("endIter")
                ctx.close(np.array(ip.phi_m_last, float), [r(ip.model) for r in reg.objfcts], "spherical/terms of the model objective", rtol=1e-9)
