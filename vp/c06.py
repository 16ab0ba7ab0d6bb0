"""C06: objective functions and misfits.  Random expression trees over real objective functions are
evaluated beside an interpreter of the same tree (a list of coefficient x leaf); the monitor compares
values, gradients, Hessian products, operators and the inversion problem's evaluations."""
import numpy as np
import scipy.sparse as sp
from discretize.utils import Zero

from .calc import num_deriv
from .core import case

RULE = "expression trees x leaves x multipliers; distinct when the tree's shape and the law are new"
REQUIRED = {"trees": 80, "misfits": 60, "problems": 10, "bad predictions": 200}


def toy_sim(rng, n, kind):
    from discretize import TensorMesh
    from simpeg import maps, simulation, survey

    mesh = TensorMesh([n])
    nD = int(rng.integers(3, 9))
    G = rng.standard_normal((nD, n))
    mp = {"lin": maps.IdentityMap(nP=n), "exp": maps.ExpMap(nP=n) * maps.LinearMap(sp.diags(np.full(n, 0.3), format="csr"))}[kind]
    rx = survey.BaseRx(np.zeros((nD, 1)))
    sv = survey.BaseSurvey([survey.BaseSrc([rx])])
    s = simulation.LinearSimulation(survey=sv, model_map=mp, G=G)
    return s, G, mp, nD


def misfit(rng, n, kind=None, wkind=None):
    from simpeg import data_misfit, data

    kind = kind or str(rng.choice(["lin", "exp"]))
    s, G, mp, nD = toy_sim(rng, n, kind)
    dobs = rng.standard_normal(nD) * 3
    rel, fl = rng.uniform(0.01, 0.2), rng.uniform(0.05, 0.5, nD)
    wkind = wkind or str(rng.choice(["std", "rel", "diag", "mat", "nonsym", "sparse_nonsym"]))
    if wkind == "std":
        sd = rng.uniform(0.1, 2, nD)
        D = data.Data(s.survey, dobs=dobs, standard_deviation=sd)
        W = np.diag(1 / sd)
    elif wkind == "rel":
        D = data.Data(s.survey, dobs=dobs, relative_error=rel, noise_floor=fl)
        W = np.diag(1 / np.sqrt((rel * np.abs(dobs)) ** 2 + fl**2))
    else:
        D = data.Data(s.survey, dobs=dobs)
        W = {"diag": np.diag(rng.uniform(0.1, 2, nD)), "mat": rng.standard_normal((nD, nD)), "nonsym": np.triu(rng.standard_normal((nD, nD))), "sparse_nonsym": np.tril(rng.standard_normal((nD, nD)))}[wkind]
        if wkind == "mat":
            W = W + W.T
    dm = data_misfit.L2DataMisfit(D, s)
    if wkind == "diag":
        dm.W = np.diag(W).copy()
    elif wkind not in ("std", "rel"):
        dm.W = sp.csr_matrix(W)

    def F(m):
        return G @ (mp * m)

    def J(m):
        D_ = mp.deriv(m)
        return G @ (D_.toarray() if sp.issparse(D_) else np.eye(n) * D_)

    ref = dict(f=lambda m: float(np.sum((W @ (F(m) - dobs)) ** 2)), g=lambda m: 2 * J(m).T @ W.T @ W @ (F(m) - dobs), H=lambda m: 2 * J(m).T @ W.T @ W @ J(m))
    return dm, ref, f"misfit({kind},{wkind})"


def l2(rng, n):
    from simpeg import maps, objective_function

    k = int(rng.integers(5))
    if k == 0:
        W = None
        o = objective_function.L2ObjectiveFunction(nP=n)
        Wd, mp, M = np.eye(n), None, None
    elif k == 1:
        W = sp.csr_matrix(rng.standard_normal((n + 2, n)))
        o = objective_function.L2ObjectiveFunction(nP=n, W=W)
        Wd, mp = W.toarray(), None
    elif k == 2:
        o = objective_function.L2ObjectiveFunction()
        Wd, mp = np.eye(n), None
    elif k == 3:
        mp = maps.ExpMap(nP=n)
        o = objective_function.L2ObjectiveFunction(mapping=mp)
        Wd = np.eye(n)
    else:
        A = sp.csr_matrix(rng.standard_normal((3, n)))
        mp = maps.LinearMap(A)
        o = objective_function.L2ObjectiveFunction(mapping=mp)
        Wd = np.eye(3)
    y = lambda m: m if mp is None else mp * m
    D = lambda m: np.eye(n) if mp is None else mp.deriv(m).toarray()
    ref = dict(f=lambda m: float(np.sum((Wd @ y(m)) ** 2)), g=lambda m: 2 * D(m).T @ Wd.T @ Wd @ y(m), H=lambda m: 2 * D(m).T @ Wd.T @ Wd @ D(m))
    return o, ref, f"l2({k})"


def reg(rng, n):
    from discretize import TensorMesh
    from simpeg import regularization as R

    mesh = TensorMesh([rng.uniform(0.5, 2, n)])
    k = int(rng.integers(3))
    if k == 0:
        o = R.Smallness(mesh)
    elif k == 1:
        o = R.SmoothnessFirstOrder(mesh)
    else:
        o = R.WeightedLeastSquares(mesh, alpha_s=rng.uniform(0.1, 2), alpha_x=rng.uniform(0.1, 2), reference_model=rng.standard_normal(n))
    return o, quad(o, n), f"reg({k})"


def quad(o, n):
    """a quadratic objective from its values alone."""
    H0 = np.zeros((n, n))
    E = np.eye(n)
    z = np.zeros(n)
    c = o(z)
    for i in range(n):
        for j in range(i, n):
            H0[i, j] = H0[j, i] = o(E[i] + E[j]) - o(E[i]) - o(E[j]) + c
    g0 = np.array([o(E[i]) - c for i in range(n)]) - 0.5 * np.diag(H0)
    return dict(f=lambda m: c + g0 @ m + 0.5 * m @ H0 @ m, g=lambda m: g0 + H0 @ m, H=lambda m: H0)


def mult(rng):
    k = int(rng.integers(7))
    return [2, 0, 0.0, float(rng.uniform(0.1, 10)), np.float64(rng.uniform(0.1, 3)), 1e-6, 1][k]


def tree(rng, n, depth):
    """(objective function, list of (coefficient, leaf reference), label)"""
    if depth == 0 or rng.random() < 0.25:
        o, ref, lab = (misfit, l2, reg)[int(rng.integers(3))](rng, n)
        return o, [(1.0, ref)], lab
    op = int(rng.integers(5))
    a, ra, la = tree(rng, n, depth - 1)
    if op == 0:
        c = mult(rng)
        return (c * a if rng.random() < 0.5 else a * c), [(c * k, r) for k, r in ra], f"{c:.2g}*{la}"
    if op == 1:
        c = float(rng.uniform(0.2, 5))
        return a / c, [(k / c, r) for k, r in ra], f"{la}/{c:.2g}"
    b, rb, lb = tree(rng, n, depth - 1)
    if op == 2:
        return a + b, ra + rb, f"({la}+{lb})"
    if op == 3:
        return sum([a, b]) if rng.random() < 0.0 else a + 3.0 * b, ra + [(3.0 * k, r) for k, r in rb], f"({la}+3*{lb})"
    from simpeg.objective_function import ComboObjectiveFunction

    c = [mult(rng), mult(rng)]
    return ComboObjectiveFunction([a, b], c, unpack_on_add=bool(rng.random() < 0.5)), [(c[0] * k, r) for k, r in ra] + [(c[1] * k, r) for k, r in rb], f"[{c[0]:.2g}*{la},{c[1]:.2g}*{lb}]"


def has_misfit(o):
    from simpeg.data_misfit import L2DataMisfit

    if isinstance(o, L2DataMisfit):
        return True
    return any(has_misfit(x) for x in getattr(o, "objfcts", []))


def full(x, n):
    """the vector a scalar or a symbolic zero stands for."""
    if isinstance(x, Zero):
        return np.zeros(n)
    return np.full(n, float(x)) if np.ndim(x) == 0 else np.asarray(x)


def judge(ctx, o, parts, n, rng, lab=""):
    m = rng.standard_normal(n) * 0.7
    m0 = m.copy()
    v = rng.standard_normal(n)
    v0 = v.copy()
    S = sum(abs(c) * r["f"](m) for c, r in parts) + 1e-300
    ctx.close(o(m), sum(c * r["f"](m) for c, r in parts), "value of an expression", rtol=1e-10, scale=S)
    g = o.deriv(m)
    ref = sum(c * r["g"](m) for c, r in parts)
    gs = sum(abs(c) * np.abs(r["g"](m)).max() for c, r in parts) + 1e-300
    g = full(g, n)
    ctx.close(g, ref * np.ones(n), "gradient of an expression", rtol=1e-9, scale=gs)
    H = sum(c * r["H"](m) for c, r in parts)
    hs = sum(abs(c) * np.abs(r["H"](m)).max() for c, r in parts) * np.abs(v).max() * n + 1e-300
    hv = o.deriv2(m, v)
    hv = full(hv, n)
    ctx.close(hv, H @ v, "Hessian product of an expression", rtol=1e-9, scale=hs)
    if not has_misfit(o) and "l2(2)" not in lab:  # (of unknown size)
        Hm = o.deriv2(m)
        if sp.issparse(Hm):
            Hm = Hm.toarray()
        elif isinstance(Hm, Zero) or np.ndim(Hm) == 0:
            Hm = (0.0 if isinstance(Hm, Zero) else float(Hm)) * np.eye(n)
        ctx.close(Hm @ v, H @ v, "Hessian operator of an expression", rtol=1e-9, scale=hs)
    # numerical derivative of the value itself
    d = rng.standard_normal(n)
    Sd, err, _, h = num_deriv(lambda x: np.array([o(x)]), m, d, 1e-3)
    tol = 1e-6 * gs * np.abs(d).sum() + 3 * err[0] + 1e-11 * S / h
    ctx.check(abs(Sd[0] - g @ d) <= tol, "gradient is not the derivative of the value", f"{Sd[0]} {g @ d} tol {tol}")
    ctx.check(np.array_equal(m, m0) and np.array_equal(v, v0), "arguments are modified")
    # in any order and repeatedly
    ctx.close(o(m), sum(c * r["f"](m) for c, r in parts), "value of an expression", rtol=1e-10, scale=S)


@case("C06", "trees", quick=6, thorough=150)
def trees(ctx):
    rng = ctx.rng
    for _ in range(ctx.n(16, 20)):
        n = int(rng.integers(3, 7))
        with ctx.guard():
            o, parts, lab = tree(rng, n, int(rng.integers(1, 5)))
            ctx.label(lab[:200])
            ctx.event("trees")
            judge(ctx, o, parts, n, rng, lab)


@case("C06", "misfits", quick=4, thorough=100)
def misfits(ctx):
    rng = ctx.rng
    for kind in ("lin", "exp"):
        for wk in ("std", "rel", "diag", "mat", "nonsym", "sparse_nonsym"):
            for _ in range(ctx.n(2, 4)):
                n = int(rng.integers(3, 8))
                ctx.label(f"misfit {kind} {wk}")
                ctx.event("misfits")
                with ctx.guard():
                    dm, ref, lab = misfit(rng, n, kind, wk)
                    judge(ctx, dm, [(1.0, ref)], n, rng)
                    m = rng.standard_normal(n)
                    f = dm.simulation.fields(m)
                    v = rng.standard_normal(n)
                    ctx.close(dm(m, f=f), dm(m), "value with and without fields", rtol=1e-12)
                    ctx.close(dm.deriv(m, f=f), dm.deriv(m), "gradient with and without fields", rtol=1e-12)
                    ctx.close(dm.deriv2(m, v, f=f), dm.deriv2(m, v), "Hessian product with and without fields", rtol=1e-12)
                    ctx.close(dm.residual(m), dm.simulation.dpred(m) - dm.data.dobs, "residual", rtol=1e-13)
                    # the Hessian product is symmetric, linear and non-negative
                    w = rng.standard_normal(n)
                    a, b = w @ dm.deriv2(m, v), v @ dm.deriv2(m, w)
                    sc = abs(a) + abs(b) + np.abs(dm.deriv2(m, v)).max() * np.abs(w).sum()
                    ctx.check(abs(a - b) <= 1e-9 * sc, "Hessian product is not symmetric", f"{a} {b}")
                    ctx.check(v @ dm.deriv2(m, v) >= -1e-9 * np.abs(dm.deriv2(m, v)).max(), "Hessian product of a misfit is negative")
                    ctx.close(dm.deriv2(m, 2 * v - 3 * w), 2 * dm.deriv2(m, v) - 3 * dm.deriv2(m, w), "Hessian product is not linear", rtol=1e-9)
                    # predicted data that are no numbers are never turned into a misfit
                    for bad in (np.nan, np.inf, -np.inf):
                        fb = np.array(dm.simulation.dpred(m), dtype=float)
                        fb[int(rng.integers(fb.size))] = bad
                        dm.simulation.dpred = lambda *a, _f=fb, **k: _f
                        try:
                            r = dm(m)
                            ctx.check(False, "a misfit of predicted data with NaN or infinite values", f"{bad} {r}")
                        except Exception as e:  # noqa: BLE001
                            ctx.check(not isinstance(e, (AttributeError, TypeError)), "a misfit of predicted data with NaN or infinite values", repr(e))
                        finally:
                            del dm.simulation.dpred
                        ctx.event("bad predictions")
                    # a new data vector is used at once
                    d2 = rng.standard_normal(dm.data.nD)
                    dm.data.dobs = d2
                    W = dm.W.toarray()
                    ctx.close(dm(m), np.sum((W @ (dm.simulation.dpred(m) - d2)) ** 2), "value after the data are changed", rtol=1e-10)


@case("C06", "problem", quick=3, thorough=60)
def problem(ctx):
    """the function, gradient and Hessian given to the optimizer."""
    from simpeg import inverse_problem, optimization

    rng = ctx.rng
    for _ in range(ctx.n(8, 16)):
        n = int(rng.integers(3, 7))
        nm = int(rng.integers(1, 4))
        ms = [(misfit(rng, n) if (i == 0 or rng.random() < 0.75) else l2(rng, n)) for i in range(nm)]
        rng.shuffle(ms)
        cs = [float(rng.uniform(0.2, 3)) if rng.random() < 0.85 else 0.0 for _ in ms]
        dm = sum((c * o for c, (o, _, _) in zip(cs[1:], ms[1:])), cs[0] * ms[0][0]) if nm > 1 else ms[0][0]
        if nm == 1:
            cs = [1.0]
        ro, rr, rl = reg(rng, n)
        beta = float(rng.uniform(0.01, 10))
        ctx.label("+".join(f"{c:.1f}{l}" for c, (_, _, l) in zip(cs, ms)) + f" beta {rl}")
        ctx.event("problems")
        with ctx.guard():
            opt = optimization.InexactGaussNewton(maxIter=1)
            ip = inverse_problem.BaseInvProblem(dm, ro, opt, beta=beta)
            m = rng.standard_normal(n)
            v = rng.standard_normal(n)
            ip.startup(m)
            rr = quad(ro, n)  # a reference model may have been filled in
            f = sum(c * r["f"](m) for c, (_, r, _) in zip(cs, ms)) + beta * rr["f"](m)
            g = sum(c * r["g"](m) for c, (_, r, _) in zip(cs, ms)) + beta * rr["g"](m)
            Hv = sum(c * r["H"](m) @ v for c, (_, r, _) in zip(cs, ms)) + beta * rr["H"](m) @ v
            from .core import quiet
            with quiet():
                o1 = ip.evalFunction(m, return_g=False, return_H=False)
                o2 = ip.evalFunction(m, return_g=True, return_H=False)
                o3 = ip.evalFunction(m, return_g=True, return_H=True)
            for k, o in enumerate((np.r_[o1], o2, o3)):
                ctx.close(float(np.ravel(o[0])[0]), f, "value given to the optimizer", rtol=1e-9, scale=abs(f) + abs(beta * rr["f"](m)))
            for o in (o2, o3):
                ctx.close(o[1], g, "gradient given to the optimizer", rtol=1e-9, scale=np.abs(g).max() + 1e-12)
            ctx.close(o3[2] @ v, Hv, "Hessian given to the optimizer", rtol=1e-9, scale=np.abs(Hv).max() + 1e-12)
            ctx.close(ip.phi_d, sum(c * r["f"](m) for c, (_, r, _) in zip(cs, ms)), "reported data misfit", rtol=1e-9, scale=abs(f) + 1e-300)
            ctx.close(ip.phi_m, rr["f"](m), "reported model objective", rtol=1e-9, scale=abs(rr["f"](m)) + abs(f) / beta)
            dp = [o.simulation.dpred(m) for c, (o, _, _) in zip(cs, ms) if hasattr(o, "simulation")]
            ctx.close(ip.dpred, np.hstack(dp), "predicted data of the problem", rtol=1e-10)
