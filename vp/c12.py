"""C12: optimizers.  A recording objective function logs every evaluation (point, what was asked for,
value) and every Hessian product of the real optimizers on random problems; an online checker of the
trace replays the documented rules: feasibility, sufficient decrease, limits, stopping, callbacks."""
import contextlib
import io
import re
import warnings

import numpy as np
import scipy.optimize as so
import scipy.sparse as sp

from .core import case

RULE = "optimizer x objective x bounds x limits; distinct when the combination and the way it ended are new"
REQUIRED = {"runs": 200, "line searches": 400, "constrained optima": 150, "directions": 50, "roots": 40}

UNB = ["SteepestDescent", "BFGS", "GaussNewton", "InexactGaussNewton"]
BND = ["ProjectedGradient", "ProjectedGNCG"]
BFGSLIKE = {"BFGS"}


class Objective:
    """f, gradient and a positive definite (approximate) Hessian, all evaluations recorded."""

    def __init__(self, rng, n, kind, matrix):
        self.n, self.kind, self.matrix = n, kind, matrix
        B = rng.standard_normal((n + 2, n)) * rng.uniform(0.3, 2)
        self.A = B.T @ B / n + np.eye(n) * rng.uniform(0.05, 1)
        self.c = rng.standard_normal(n) * rng.uniform(0.5, 3)
        self.w = rng.uniform(0.5, 2, n)
        self.off = rng.uniform(-2, 2)
        self.log, self.nH = [], 0

    def f(self, x):
        d = x - self.c
        q = 0.5 * d @ self.A @ d + self.off
        if self.kind == "cos":
            q += np.sum(self.w * np.cos(2 * x))
        elif self.kind == "quartic":
            q += np.sum(self.w * d**4) / 4
        elif self.kind == "cliff":
            q += np.sum(np.sqrt(1 + (3 * x) ** 2)) * 2
        return float(q)

    def g(self, x):
        d = x - self.c
        g = self.A @ d
        if self.kind == "cos":
            g = g - 2 * self.w * np.sin(2 * x)
        elif self.kind == "quartic":
            g = g + self.w * d**3
        elif self.kind == "cliff":
            g = g + 2 * 9 * x / np.sqrt(1 + (3 * x) ** 2)
        return g

    def H(self, x):
        d = x - self.c
        H = self.A.copy()
        if self.kind == "quartic":
            H += np.diag(3 * self.w * d**2)
        return H

    def __call__(self, x, return_g=False, return_H=False):
        x = np.array(x, dtype=float)
        f = self.f(x)
        e = dict(x=x, g=return_g, H=return_H, f=f, nH0=self.nH)
        self.log.append(e)
        if not return_g and not return_H:
            return f
        out = [f]
        if return_g:
            out.append(self.g(x))
        if return_H:
            H = self.H(x)
            if self.matrix:
                out.append(sp.csr_matrix(H))
            else:

                def mv(v, H=H):
                    self.nH += 1
                    return H @ np.asarray(v).ravel()

                out.append(sp.linalg.LinearOperator((self.n, self.n), matvec=mv, dtype=float))
        return tuple(out)


def bounds(rng, n):
    k = str(rng.choice(["both", "array", "lower", "upper", "none", "inf", "tight"]))
    if k == "both":
        return -rng.uniform(0, 2), rng.uniform(0.1, 2), k
    if k == "array":
        lo = rng.uniform(-2, 0.5, n)
        return lo, lo + rng.uniform(0.1, 3, n), k
    if k == "lower":
        return rng.uniform(-1, 1), np.inf, k
    if k == "upper":
        return -np.inf, rng.uniform(-1, 1, n), k
    if k == "none":
        return None, None, k
    if k == "tight":
        lo = rng.uniform(-1, 1, n)
        return lo, lo + rng.uniform(0, 0.3, n), k
    return -np.inf, np.inf, k


def make(rng, name, lo=None, hi=None, **kw):
    from simpeg import optimization

    cls = getattr(optimization, name)
    if name in BND:
        kw.update(lower=lo, upper=hi)
    if name == "ProjectedGNCG" and "cg_atol" not in kw:
        kw.update(cg_rtol=float(10 ** rng.uniform(-6, -1)), cg_atol=float(rng.choice([0, 1e-6])))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return cls(**kw)


def proj(x, lo, hi):
    if lo is not None:
        x = np.maximum(x, lo)
    if hi is not None:
        x = np.minimum(x, hi)
    return x


def run(opt, F, x0, cb):
    out = io.StringIO()
    opt.callback = cb
    with contextlib.redirect_stdout(out), warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        x = opt.minimize(F, x0)
    return x, out.getvalue()


@case("C12", "trace", quick=6, thorough=60, cost=3)
def trace(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(50, 80)):
        name = str(rng.choice(UNB + BND + BND))
        bounded = name in BND
        n = int(rng.integers(1, 9))
        kind = str(rng.choice(["quad", "cos", "quartic", "cliff"]))
        F = Objective(rng, n, kind, matrix=name == "GaussNewton" or rng.random() < 0.2)
        lo, hi, bk = bounds(rng, n) if bounded else (None, None, "-")
        opts = dict(
            maxIter=int(rng.integers(1, 15)),
            maxIterLS=int(rng.integers(1, 25)),
            LSshorten=float(rng.uniform(0.2, 0.8)),
            LSreduction=float(10 ** rng.uniform(-5, -0.5)),
            tolF=float(10 ** rng.uniform(-6, 0)),
            tolX=float(10 ** rng.uniform(-6, 0)),
            tolG=float(10 ** rng.uniform(-6, 0)),
            eps=float(10 ** rng.uniform(-9, -5)),
        )
        if rng.random() < 0.6:
            opts["maxStep"] = float(10 ** rng.uniform(-2, 1))
        wolfe = rng.random() < 0.25
        if wolfe:
            opts.update(use_WolfeCurvature=True, LScurvature=float(rng.uniform(0.3, 0.95)))
        force = rng.random() < 0.2
        if force:
            opts["require_decrease"] = False
        if name in ("InexactGaussNewton",) + tuple(BND):
            opts["cg_maxiter"] = int(rng.integers(1, 8))
        opt = make(rng, name, lo, hi, **opts)
        x0 = rng.standard_normal(n) * rng.choice([0.3, 3])
        if bounded and rng.random() < 0.3:
            x0 = proj(x0 * 100, lo, hi) if bk not in ("none", "inf") else x0
        given = x0.copy()
        ctx.label(f"{name} {kind} bounds={bk} n={n} {opts}")
        seen = []
        x, out = run(opt, F, x0, lambda xt: seen.append(np.array(xt)))
        ctx.event("runs")
        key = f"trace/{name}/"
        if not all(np.all(np.abs(e["x"]) < 1e8) and abs(e["f"]) < 1e30 for e in F.log):
            ctx.event("diverged")
            continue
        ctx.check(np.array_equal(given, x0), key + "x0", "the starting vector was modified")
        ended = verify(ctx, key, opt, F, x0, x, seen, out, lo, hi, opts, wolfe, force, name)
        ctx.distinct(name, kind, bk, ended)
        # the same optimizer object used again gives the same iterates
        if rng.random() < 0.3:
            F2 = [e["x"] for e in F.log]
            F.log, F.nH = [], 0
            x2, _ = run(opt, F, x0, lambda xt: None)
            same = len(F.log) == len(F2) and all(np.array_equal(a, b["x"]) for a, b in zip(F2, F.log))
            ctx.check(same, key + "again", "a second run of the same optimizer takes another path")
            ctx.event("reruns")


def verify(ctx, key, opt, F, x0, x, seen, out, lo, hi, opts, wolfe, force, name):
    log = F.log
    eps = 1e-12
    for e in log:
        if name in BND and not (np.all(e["x"] >= proj(e["x"], lo, None) - 0.0) and np.array_equal(proj(e["x"], lo, hi), e["x"])):
            ctx.violate(key + "feasible", f"the objective was evaluated outside the bounds: {e['x']} not in [{lo}, {hi}]")
    its = [i for i, e in enumerate(log) if e["H"]]
    X = [log[i]["x"] for i in its]
    start = proj(x0, lo, hi)
    ctx.check(np.array_equal(X[0], start), key + "start", "the first iterate is not the (projected) starting vector")
    # callback: each accepted iterate exactly once, in order
    ctx.check(len(seen) == opt.iter, key + "callback-count", f"{len(seen)} callbacks for {opt.iter} iterations")
    for a, b in zip(X[1:], seen):
        ctx.check(np.array_equal(a, b), key + "callback-value", "a callback did not get the iterate that was accepted")
    ctx.check(np.array_equal(x, seen[-1] if seen else start), key + "result", "the result is not the last accepted iterate")
    ctx.check(opt.iter <= opts["maxIter"], key + "maxIter", f"{opt.iter} iterations, maxIter={opts['maxIter']}")
    ctx.check(len(seen) == len(X) - 1, key + "iterates", f"{len(X)} gradient evaluations, {len(seen)} accepted iterates")
    f0 = log[its[0]]["f"]
    ended = None
    for k, i in enumerate(its):
        j = its[k + 1] if k + 1 < len(its) else len(log)
        trials = log[i + 1 : j]
        e = log[i]
        xc, fc, g = e["x"], e["f"], F.g(e["x"])
        # stopping criteria at this iterate
        pg = np.linalg.norm(proj(xc - g, lo, hi) - xc)
        crit = {"iteration": (opts["maxIter"], k), "norm_g": (pg, 1e3 * opts["eps"])}
        opt_ = {"tolG": (pg, opts["tolG"])}
        if k > 0:
            opt_["tolF"] = (abs(fc - log[its[k - 1]]["f"]), opts["tolF"] * (1 + abs(f0)))
            opt_["tolX"] = (np.linalg.norm(xc - X[k - 1]), opts["tolX"] * (1 + np.linalg.norm(start)))
        if name == "ProjectedGradient":
            b = np.zeros(F.n, bool)
            if lo is not None:
                b |= (xc <= lo) & (g >= 0)
            if hi is not None:
                b |= (xc >= hi) & (g <= 0)
            crit["bindingSet"] = (F.n, b.sum())
        allv = list(crit.values()) + list(opt_.values())
        fuzzy = any(abs(l - r) < 1e-9 * max(abs(l), abs(r), 1e-9) for l, r in allv if not (isinstance(l, int) and isinstance(r, int)))
        should = any(l <= r for l, r in crit.values()) or (k > 0 and all(l <= r for l, r in opt_.values()))
        if not trials:
            if not fuzzy:
                ctx.check(should, key + "stopped-early", f"stopped at iterate {k} though no criterion was met: {crit} {opt_}")
            ended = next((c for c, (l, r) in crit.items() if l <= r), "tolerance")
            if not fuzzy:
                report(ctx, key, out, crit, opt_, k)
            ctx.event("stops")
            break
        if not fuzzy:
            ctx.check(not should, key + "stopped-late", f"went on at iterate {k} though a criterion was met: {crit} {opt_}")
        # line search
        ctx.event("line searches")
        ctx.check(len(trials) <= opts["maxIterLS"], key + "maxIterLS", f"{len(trials)} trial points, maxIterLS={opts['maxIterLS']}")
        ms = opts.get("maxStep", np.inf)
        step0 = trials[0]["x"] - xc
        ctx.check(np.max(np.abs(step0)) <= ms * (1 + 1e-9) + 1e-12 * np.max(np.abs(xc)), key + "maxStep", f"a step of {np.max(np.abs(step0)):.3e} was tried, maxStep={ms:.3e}")
        inside = name not in BND or ((lo is None or np.all(trials[0]["x"] > lo)) and (hi is None or np.all(trials[0]["x"] < hi)))
        for q, t in enumerate(trials):
            if inside:
                ctx.close(t["x"] - xc, opts["LSshorten"] ** q * step0, key + "shorten", rtol=1e-9, atol=1e-12 * (1 + np.abs(xc).max()))
        oks, fuzz = [], []
        for t in trials:
            d = t["x"] - xc
            l, r = t["f"], fc + opts["LSreduction"] * (g @ d)
            ok = l <= r
            fz = abs(l - r) < 1e-11 * (1 + abs(l))
            if wolfe:
                l, r = -(F.g(t["x"]) @ d), -opts["LScurvature"] * (g @ d)
                ok = ok and l <= r
                fz = fz or abs(l - r) < 1e-11 * (1 + abs(l))
            oks.append(bool(ok))
            fuzz.append(fz)
        accepted = k < len(seen)
        if not any(fuzz):
            ctx.check(not any(oks[:-1]), key + "ls-late", "the line search went on after a point that satisfies its criteria")
            if accepted:
                if not force:
                    ctx.check(oks[-1], key + "armijo", f"accepted f={trials[-1]['f']:.6e} from f={fc:.6e} without the sufficient decrease")
                elif not oks[-1]:
                    ctx.check(len(trials) == opts["maxIterLS"], key + "force", "a step without decrease was accepted before the line-search limit")
            else:
                ctx.check(not oks[-1] and not force, key + "ls-give-up", "the line search gave up on an acceptable point")
                ctx.check(len(trials) == opts["maxIterLS"], key + "ls-short", f"the line search gave up after {len(trials)} of {opts['maxIterLS']} trials")
        if accepted:
            ctx.check(np.array_equal(seen[k], trials[-1]["x"]), key + "accept", "the accepted iterate is not the last trial point")
            if not force:
                ctx.check(trials[-1]["f"] <= fc + 1e-12 * (1 + abs(fc)), key + "monotone", f"objective increased from {fc} to {trials[-1]['f']}")
        else:
            ended = "linesearch"
        if "cg_maxiter" in opts and not F.matrix:
            nH = trials[0]["nH0"] - e["nH0"]
            ctx.check(nH <= opts["cg_maxiter"], key + "cg_maxiter", f"{nH} Hessian products, cg_maxiter={opts['cg_maxiter']}")
            ctx.event("inner solves")
    return ended


FLAG = re.compile(r"^\s*(\d) : (\S+).*?= *(\S+)\s*<=.*?= *(\S+)\s*$", re.M)


def report(ctx, key, out, crit, opt_, k):
    """The printed stopping report agrees with the criteria."""
    i = out.rfind("STOP!")
    if i < 0:
        return
    seen = {}
    for m in FLAG.finditer(out[i:]):
        seen.setdefault(m.group(2), []).append((int(m.group(1)), float(m.group(3)), float(m.group(4))))
    exp = {"maxIter": crit["iteration"]}
    if "tolF" in opt_:
        exp["|fc-fOld|"] = opt_["tolF"]
        exp["|xc-x_last|"] = opt_["tolX"]
    for nm, (l, r) in exp.items():
        if nm in seen:
            ctx.event("reports")
            flag, a, b = seen[nm][0]
            ctx.check(flag == int(l <= r), key + "report", f"report says {flag} for {nm}: {l} <= {r}")
            ctx.close([a, b], [l, r], key + "report-value", rtol=2e-3, atol=1e-12)


def optimum(F, lo, hi):
    n = F.n
    L = np.full(n, -np.inf) if lo is None else np.broadcast_to(lo, n).astype(float)
    U = np.full(n, np.inf) if hi is None else np.broadcast_to(hi, n).astype(float)
    R = np.linalg.cholesky(F.A).T
    U = np.maximum(U, L + 1e-13)
    return so.lsq_linear(R, R @ F.c, bounds=(L, U), method="bvls", tol=1e-14).x


@case("C12", "optimum", quick=4, thorough=40, cost=3)
def constrained(ctx):
    rng = ctx.rng
    broke = 0
    for _ in range(ctx.n(25, 40)):
        n = int(rng.integers(2, 9))
        F = Objective(rng, n, "quad", matrix=False)
        s = np.sqrt(np.diag(F.A))
        F.A = F.A / np.outer(s, s) * 0.4 + np.eye(n) * 0.6
        lo, hi, bk = bounds(rng, n)
        if bk == "tight":
            hi = lo + 0.3
        xs = optimum(F, lo, hi)
        for name in BND:
            if name == "ProjectedGNCG":
                o = make(rng, name, lo, hi, maxIter=400, maxIterLS=40, tolF=1e-30, tolX=1e-30, tolG=1e-9, eps=1e-13, cg_maxiter=4 * n, cg_rtol=1e-8, cg_atol=1e-9)
            else:
                o = make(rng, name, lo, hi, maxIter=400, maxIterLS=40, tolF=1e-30, tolX=1e-30, tolG=1e-9, eps=1e-13, cg_maxiter=4 * n, cg_rtol=1e-8)
            st = str(rng.choice(["inside", "outside", "lower", "upper", "corner"]))
            x0 = rng.standard_normal(n)
            if st == "outside":
                x0 *= 50
            elif st == "lower" and lo is not None and np.all(np.isfinite(lo)):
                x0 = np.broadcast_to(lo, n).astype(float).copy()
            elif st == "upper" and hi is not None and np.all(np.isfinite(hi)):
                x0 = np.broadcast_to(hi, n).astype(float).copy()
            elif st == "corner":
                x0 = proj(np.sign(x0) * 1e3, lo, hi) if bk in ("both", "array", "tight") else x0
            ctx.label(f"{name} bounds={bk} n={n} start={st}")
            F.log, F.nH = [], 0
            x, out = run(o, F, x0, lambda v: None)
            ctx.event("constrained optima")
            ctx.distinct("opt", name, bk, st, int(np.sum(np.isclose(x, proj(x + 1e9, lo, hi)) | np.isclose(x, proj(x - 1e9, lo, hi)))))
            if "linesearch got broken" in out:
                # a projected Newton path can need arbitrarily short steps: reported, not an optimum; rare
                broke += 1
                ctx.event("line searches broken")
                ctx.check(broke <= 4, f"optimum/{name}/broken", "line searches break again and again on convex quadratics")
                continue
            ctx.check(F.f(x) - F.f(xs) <= 1e-4 * (F.f(proj(x0, lo, hi)) - F.f(xs)) + 1e-7 * (1 + abs(F.f(xs))), f"optimum/{name}", f"f={F.f(x):.10e} but the constrained minimum is {F.f(xs):.10e} ({o.iter} iterations, {st})")


@case("C12", "newton-step", quick=3, thorough=30, cost=1)
def steps(ctx):
    """What the Newton-like methods compute: the (inexact) solution of H p = -g on the free variables."""
    rng = ctx.rng
    for _ in range(ctx.n(25, 40)):
        n = int(rng.integers(2, 9))
        name = str(rng.choice(["GaussNewton", "InexactGaussNewton", "ProjectedGNCG"]))
        kind = str(rng.choice(["quad", "quartic"]))
        F = Objective(rng, n, kind, matrix=name == "GaussNewton")
        rt = float(10 ** rng.uniform(-8, -1))
        kw = {} if name == "GaussNewton" else dict(cg_rtol=rt, cg_atol=0.0, cg_maxiter=20 * n)
        lo, hi, bk = (None, None, "-")
        if name == "ProjectedGNCG":
            lo, hi, bk = bounds(rng, n)
        diag = rng.uniform(0.3, 3, n) if name != "GaussNewton" and rng.random() < 0.4 else None
        o = make(rng, name, lo, hi, maxIter=1, maxIterLS=60, tolG=1e-14, tolF=1e-14, tolX=1e-14, eps=1e-17, **kw)
        if diag is not None:
            o.approxHinv = sp.diags(diag, format="csr")
        x0 = proj(rng.standard_normal(n) * 2, lo, hi)
        ctx.label(f"{name} {kind} {bk} rtol={rt} precond={diag is not None}")
        x, out = run(o, F, x0, lambda v: None)
        if getattr(o, "searchDirection", None) is None:  # stopped at the start: every variable is held
            continue
        p = np.asarray(o.searchDirection)
        g, H = F.g(x0), F.H(x0)
        free = np.ones(n, bool)
        if lo is not None:
            free &= x0 > lo
        if hi is not None:
            free &= x0 < hi
        ctx.event("directions")
        ctx.distinct("dir", name, kind, bk, int(free.sum()))
        if name == "GaussNewton":
            ctx.close(H @ p, -g, f"direction/{name}", rtol=1e-8)
            continue
        if not free.any():
            continue
        pf = np.where(free, p, 0)
        res = np.linalg.norm((H @ pf + g)[free]) / np.linalg.norm(g[free])
        ctx.check(res <= rt * 1.01 + 1e-12 if diag is None or name == "ProjectedGNCG" else res <= rt * 30 + 1e-12, f"direction/{name}", f"relative residual {res:.2e} of the inner solve, asked for {rt:.2e}")
        if name == "ProjectedGNCG":
            bind = np.zeros(n, bool)
            if lo is not None:
                bind |= (x0 <= lo) & (g >= 0)
            if hi is not None:
                bind |= (x0 >= hi) & (g <= 0)
            ctx.check(np.all(p[bind] == 0), "direction/binding", "a step on a variable held at its bound")
            off = ~free & ~bind
            ctx.check(np.all(p[off] * g[off] <= 0), "direction/off-bound", "a step off the bound goes uphill")
            m = np.max(np.abs(p[free]))
            if m > 0:
                ctx.check(np.all(np.abs(p[off]) <= o.active_set_grad_scale * m * (1 + 1e-9)), "direction/off-bound-scale", "a step off the bound is larger than the configured fraction of the inner step")
            ctx.check(o.cg_count <= 20 * n, "direction/cg-count", "reported CG iterations exceed the limit")
            ctx.close(o.cg_rel_resid, res, "direction/cg-resid", rtol=1e-2, atol=1e-12)


@case("C12", "remember", quick=1, thorough=4, cost=1)
def remember(ctx):
    rng = ctx.rng
    for name in UNB + BND:
        n = int(rng.integers(2, 6))
        F = Objective(rng, n, "cos", matrix=name == "GaussNewton")
        o = make(rng, name, None, None, maxIter=4, tolF=1e-12, tolX=1e-12, tolG=1e-12)
        o.remember("iter", ("size", lambda M: M.xc.size))
        for rep in range(2):
            k = []
            run(o, F, rng.standard_normal(n), lambda v: k.append(1))
            ctx.check(len(o.recall("iter")) == len(k) and len(o.recall("size")) == len(k), f"remember/{name}", f"{len(o.recall('iter'))} values remembered over {len(k)} iterations")
            ctx.check(list(np.diff(o.recall("iter"))) == [1] * (len(k) - 1), f"remember/{name}/values", "the remembered iteration numbers skip")
            ctx.event("remembered runs")


@case("C12", "root", quick=2, thorough=20, cost=1)
def root(ctx):
    from simpeg import optimization

    rng = ctx.rng
    for _ in range(ctx.n(40, 60)):
        n = int(rng.integers(1, 6))
        A = rng.standard_normal((n, n)) + 2 * n * np.eye(n)
        b = rng.standard_normal(n) * 2
        kind = str(rng.choice(["lin", "exp", "atan", "none"]))
        calls = []

        def fun(x, return_g=True):
            x = np.array(x)
            if kind == "lin":
                r, J = A @ x - b, A
            elif kind == "exp":
                r, J = A @ x + np.exp(np.clip(x, -30, 30)) - b, A + np.diag(np.exp(np.clip(x, -30, 30)))
            elif kind == "atan":
                r, J = np.arctan(3 * x) - 0.2, np.diag(3 / (1 + 9 * x**2))
            else:
                r, J = 1 + x**2, np.diag(2 * x + 1e-3)
            calls.append((x, return_g, np.linalg.norm(r)))
            return (r, sp.csc_matrix(J)) if return_g else r

        mi, ml = int(rng.integers(1, 25)), int(rng.integers(1, 40))
        tol = float(10 ** rng.uniform(-9, -3))
        ls = rng.random() < 0.8
        nr = optimization.NewtonRoot(maxIter=mi, maxLS=ml, tol=tol, doLS=ls, stepDcr=float(rng.uniform(0.2, 0.8)), comments=False)
        x0 = rng.standard_normal(n) * 2 + 0.5
        given = x0.copy()
        ctx.label(f"newton root {kind} maxIter={mi} maxLS={ml} tol={tol:.1e} doLS={ls}")
        with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            x = nr.root(fun, x0)
        ctx.event("roots")
        if not all(np.all(np.abs(c[0]) < 1e8) for c in calls):
            ctx.event("diverged")
            continue
        ctx.check(np.array_equal(x0, given), "root/x0", "the starting vector was modified")
        its = [i for i, c in enumerate(calls) if c[1]]
        ctx.check(len(its) <= mi, "root/maxIter", f"{len(its)} Newton iterations, maxIter={mi}")
        ended = "limit"
        for k, i in enumerate(its):
            j = its[k + 1] if k + 1 < len(its) else len(calls)
            tr = calls[i + 1 : j]
            ctx.check(len(tr) <= (ml if ls else 1), "root/maxLS", f"{len(tr)} trial points, maxLS={ml}")
            if j < len(calls):
                if ls:
                    ctx.check(calls[j][2] <= max(calls[i][2], tol) * (1 + 1e-12), "root/decrease", "the residual norm increased over an accepted step")
                ctx.check(calls[j][2] >= tol, "root/late", "went on after the residual met the tolerance")
        if x is not None:
            last = calls[-1]
            ctx.check(np.array_equal(last[0], x), "root/result", "the result is not the last point evaluated")
            if last[2] >= tol:
                ctx.check(len(its) >= mi, "root/early", f"stopped after {len(its)} of {mi} iterations with residual {last[2]:.2e} > {tol:.2e}")
            else:
                ended = "tol"
            if kind == "lin" and ml > 1:
                ctx.check(last[2] < tol or mi < 2, "root/linear", "a linear system was not solved")
        else:
            ended = "linesearch"
            ctx.check(ls and len(calls[its[-1] + 1 :]) == ml, "root/gave-up", "gave up before the line-search limit")
        ctx.distinct("root", kind, ended, ls)
