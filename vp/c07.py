"""C07: regularization gradients and Hessians.  Random regularizations (class x mesh x active cells x
mapping x weights x reference model x norms) are evaluated at random models; the monitors compare the
gradient with the numerical derivative of the value and the Hessian (formed, applied) with the numerical
derivative of the gradient where it is documented as exact, else require symmetry and semi-definiteness.
Options are then changed on the living object and everything is judged again."""
import numpy as np
import scipy.sparse as sp

from .c05 import act, tmesh, treemesh
from .calc import num_deriv
from .core import case

RULE = "class x mesh x active cells x mapping x weights x reference model; distinct when the label and the law are new"
REQUIRED = {"gradients": 250, "hessians": 250, "changed": 60}


def cylmesh(rng, nt=1):
    from discretize import CylindricalMesh

    return CylindricalMesh([rng.uniform(0.5, 2, int(rng.integers(3, 5))), 1 if nt == 1 else np.full(nt, 2 * np.pi / nt), rng.uniform(0.5, 2, int(rng.integers(3, 5)))])


def rmesh(rng, kinds=("t1", "t2", "t3", "q2", "q3", "c")):
    k = kinds[int(rng.integers(len(kinds)))]
    if k[0] == "t":
        return tmesh(rng, int(k[1]), base=1.0, lo=3, hi=5 if k == "t3" else 7), k
    if k[0] == "q":
        return treemesh(rng, 8 if k == "q2" else 4, base=1.3, dim=int(k[1])), k
    return cylmesh(rng), k


def inner_faces(mesh, a):
    """whether active cells touch along every axis."""
    from simpeg.regularization import RegularizationMesh

    r = RegularizationMesh(mesh, active_cells=a)
    if mesh._meshType == "CYL":
        return True
    return all(getattr(r, f"aveCC2F{x}").shape[0] > 0 for x in "xyz"[: mesh.dim])


def rmap(rng, n, linear=False):
    """a mapping onto n values: (map or None, number of parameters, label, linear?)"""
    from simpeg import maps

    k = int(rng.integers(0, 4 if linear else 6))
    if k <= 1:
        return (None if k == 0 else maps.IdentityMap(nP=n)), n, "id", True
    if k == 2:
        A = sp.random(n, n + 2, density=0.4, random_state=int(rng.integers(1 << 30)), format="csr")
        return maps.LinearMap(A), n + 2, "lin", True
    if k == 3:
        w = maps.Wires(("a", n), ("b", n))
        return w.b, 2 * n, "wire", True
    if k == 4:
        return maps.ExpMap(nP=n), n, "exp", False
    w = maps.Wires(("a", n), ("b", n))
    return maps.ExpMap(nP=n) * w.a, 2 * n, "expwire", False


def weights(rng, n, k=None):
    k = int(rng.integers(3)) if k is None else k
    return {f"w{i}": rng.uniform(0.2, 3, n) for i in range(k)} or None


def build(rng, cls):
    """-> dict(o, n, lab, exact, psd, m)"""
    from simpeg import maps
    from simpeg import regularization as R

    kinds = {"full": ("t2", "t3", "q2", "q3"), "crossref": ("t2", "t3", "q2", "q3"), "cross": ("t2", "t3", "q2", "q3"), "amp": ("t2", "t3", "q3"), "jtv": ("t1", "t2", "t3", "q2", "q3")}.get(cls, ("t1", "t2", "t3", "q2", "q3") + (("c",) if cls in ("small", "corr") else ()))
    mesh, mk = rmesh(rng, kinds)
    a = act(rng, mesh.nC) if rng.random() < 0.6 else None
    while a is not None and not inner_faces(mesh, a):
        a = act(rng, mesh.nC)
    n = mesh.nC if a is None else int(a.sum())
    ai = a if a is None or rng.random() < 0.6 else np.where(a)[0]
    W = weights(rng, n)
    ors = "xyz"[: mesh.dim] if mk != "c" else "xz"
    lab = f"{cls} {mk} act={a is not None} w={0 if W is None else len(W)}"
    kw = dict(active_cells=ai, weights=W)
    psd = exact = True
    if cls in ("small", "smooth1", "smooth2", "wls", "full", "sparse"):
        mp, nP, ml, lin = rmap(rng, n)
        exact = lin
        ref = None if rng.random() < 0.4 else rng.standard_normal(nP)
        lab += f" {ml} ref={ref is not None}"
        kw.update(mapping=mp, reference_model=ref)
        if cls == "small":
            o = R.Smallness(mesh, **kw)
        elif cls in ("smooth1", "smooth2"):
            o = {"smooth1": R.SmoothnessFirstOrder, "smooth2": R.SmoothnessSecondOrder}[cls](mesh, orientation=ors[int(rng.integers(len(ors)))], reference_model_in_smooth=bool(rng.random() < 0.5), **kw)
        elif cls == "wls":
            al = {f"alpha_{s}": rng.uniform(0, 2) for s in ("s", "x", "y", "z", "xx", "yy", "zz") if rng.random() < 0.6}
            o = R.WeightedLeastSquares(mesh, reference_model_in_smooth=bool(rng.random() < 0.5), **al, **kw)
        elif cls == "full":
            al = [None, rng.uniform(0.1, 2, mesh.dim), rng.uniform(0.1, 2, (mesh.nC, mesh.dim)), rng.uniform(0.1, 2, (n, mesh.dim))][int(rng.integers(4))]
            Q = [None, np.linalg.qr(rng.standard_normal((mesh.dim, mesh.dim)))[0], np.linalg.qr(rng.standard_normal((mesh.nC, mesh.dim, mesh.dim)))[0]][int(rng.integers(3))]
            o = R.SmoothnessFullGradient(mesh, alphas=al, reg_dirs=Q, **kw)
        else:
            nt = len(ors) + 1
            norms = [rng.choice([0.0, 0.5, 1.0, 1.7, 2.0]) for _ in range(nt)]
            o = R.Sparse(mesh, norms=norms, gradient_type=["total", "components"][int(rng.integers(2))], irls_scaled=bool(rng.random() < 0.5), irls_threshold=10.0 ** rng.uniform(-4, 0), **kw)
            o.update_weights(rng.standard_normal(nP))
            lab += f" norms={norms}"
        return dict(o=o, n=nP, lab=lab, exact=exact, psd=psd, mesh=mesh, a=a, nc=n)
    if cls == "crossref":
        nc = n * mesh.dim
        mp, nP, ml, lin = rmap(rng, nc)
        rd = rng.standard_normal((n, mesh.dim)) if rng.random() < 0.6 else rng.standard_normal(mesh.dim)
        kw["weights"] = None
        o = R.CrossReferenceRegularization(mesh, rd, mapping=mp, **kw)
        for k in range(int(rng.integers(3))):
            sh = [(n,), (n * mesh.dim,), (n, mesh.dim)][int(rng.integers(3))]
            o.set_weights(**{f"w{k}": rng.uniform(0.2, 2, sh)})
            lab += f" {len(sh)}:{sh[0] // n}"
        return dict(o=o, n=nP, lab=lab + " " + ml, exact=lin, psd=True, mesh=mesh, a=a, nc=n)
    if cls == "amp":
        ncomp = 3 if rng.random() < 0.7 else 2
        nc = ncomp * n
        if rng.random() < 0.5:
            mp, nP, ml = maps.IdentityMap(nP=nc), nc, "id"
        else:
            A = sp.random(nc, nc + 3, density=0.3, random_state=int(rng.integers(1 << 30)), format="csr")
            mp, nP, ml = maps.LinearMap(A), nc + 3, "lin"
        ref = None if rng.random() < 0.4 else rng.standard_normal(nP)
        kw["weights"] = None
        o = R.VectorAmplitude(mesh, mapping=mp, reference_model=ref, reference_model_in_smooth=bool(rng.random() < 0.5), norms=[rng.choice([0.0, 1.0, 2.0]) for _ in range(mesh.dim + 1)], gradient_type=["total", "components"][int(rng.integers(2))], irls_threshold=10.0 ** rng.uniform(-3, 0), **kw)
        for k in range(int(rng.integers(3))):
            sh = [(n,), (n * ncomp,), (n, ncomp)][int(rng.integers(3))]
            o.set_weights(**{f"w{k}": rng.uniform(0.2, 2, sh)})
            lab += f" {len(sh)}:{sh[0] // n}"
        if rng.random() < 0.6:
            o.update_weights(rng.standard_normal(nP))
            lab += " irls"
        return dict(o=o, n=nP, lab=lab + f" {ml} ref={ref is not None} nc={ncomp}", exact=True, psd=True, mesh=mesh, a=a, nc=n)
    # similarity measures: two or more models
    kw["weights"] = None
    nm = 2 if cls != "jtv" else int(rng.integers(1, 4))
    wires = maps.Wires(*[(f"m{i}", n) for i in range(nm)])
    if cls == "cross":
        ap = bool(rng.random() < 0.5)
        o = R.CrossGradient(mesh, wires, approx_hessian=ap, **kw)
        return dict(o=o, n=nm * n, lab=lab + f" approx={ap}", exact=not ap, psd=ap, mesh=mesh, a=a, nc=n)
    if cls == "jtv":
        kw["weights"] = W
        o = R.JointTotalVariation(mesh, wires, eps=10.0 ** rng.uniform(-4, 0), **kw)
        return dict(o=o, n=nm * n, lab=lab + f" n={nm}", exact=True, psd=True, mesh=mesh, a=a, nc=n)
    o = R.LinearCorrespondence(mesh, wires, coefficients=rng.standard_normal(3) if rng.random() < 0.8 else None, **kw)
    return dict(o=o, n=nm * n, lab=lab, exact=True, psd=True, mesh=mesh, a=a, nc=n)


CLASSES = ["small", "smooth1", "smooth2", "wls", "full", "sparse", "crossref", "amp", "cross", "jtv", "corr"]


def judge(ctx, b, lab=None):
    o, n, rng = b["o"], b["n"], ctx.rng
    ctx.label(lab or b["lab"])
    m = b["m"]() if "m" in b else rng.standard_normal(n)
    m0 = m.copy()
    d = rng.standard_normal(n)
    f = o(m)
    ctx.check(np.ndim(f) == 0 and np.isfinite(f), "value is not a finite number", f"{f!r}")
    g = np.asarray(o.deriv(m))
    if not ctx.check(g.shape == (n,), "shape of the gradient", f"{g.shape} for {n} parameters"):
        return
    ctx.event("gradients")
    S, err, f0, h = num_deriv(lambda x: np.array([o(x)]), m, d, b.get("h", 2e-3))
    sc = np.abs(g) @ np.abs(d)
    tol = 2e-6 * sc + 3 * err[0] + 3e-12 * abs(f) / h
    ctx.check(abs(S[0] - g @ d) <= tol, "gradient is not the derivative of the value", f"numeric {S[0]:.9e} gradient {g @ d:.9e} tol {tol:.2e}")
    # Hessian, formed and applied
    ctx.event("hessians")
    hv = np.asarray(o.deriv2(m, d))
    H = o.deriv2(m)
    H = H.toarray() if sp.issparse(H) else np.asarray(H)
    if not ctx.check(hv.shape == (n,) and H.shape == (n, n), "shape of the Hessian", f"{hv.shape} {H.shape} for {n}"):
        return
    hs = np.abs(H) @ np.abs(d)
    if hasattr(o, "approx_hessian") and not o.approx_hessian and "cross" in b["lab"]:
        # terms of the exact Hessian may cancel: the scale is that of the terms
        o.approx_hessian = True
        A = abs(o.deriv2(m)).toarray()
        o.approx_hessian = False
        hs = np.maximum(hs, A @ np.abs(d))
        H0 = A.max()
    else:
        H0 = 0.0
    ctx.check(np.all(np.abs(H @ d - hv) <= 1e-9 * hs.max() + 1e-300), "Hessian differs when formed and when applied", f"{np.abs(H @ d - hv).max():.3e} of {hs.max():.3e}")
    ctx.check(np.abs(H - H.T).max() <= 1e-9 * max(np.abs(H).max(), H0), "Hessian is not symmetric", f"{np.abs(H - H.T).max():.3e} of {np.abs(H).max():.3e}")
    if b["psd"]:
        e = np.linalg.eigvalsh((H + H.T) / 2)
        ctx.check(e.min() >= -1e-9 * max(abs(e).max(), 1e-300), "Hessian is not positive semi-definite", f"{e.min():.3e} of {e.max():.3e}")
    if b["exact"]:
        S, err, g0, h = num_deriv(lambda x: np.asarray(o.deriv(x)), m, d, b.get("h", 2e-3))
        tol = 2e-6 * hs.max() + 3 * err.max() + 3e-12 * np.abs(g).max() / h
        ctx.check(np.abs(S - hv).max() <= tol, "Hessian is not the derivative of the gradient", f"{np.abs(S - hv).max():.3e} of {np.abs(hv).max():.3e} tol {tol:.2e}")
    ctx.check(np.array_equal(m, m0), "model is modified")


@case("C07", "laws", quick=8, thorough=200)
def laws(ctx):
    for cls in CLASSES:
        for _ in range(ctx.n(3, 4)):
            ctx.label("construction of " + cls)
            with ctx.guard():
                judge(ctx, build(ctx.rng, cls))


@case("C07", "changed", quick=4, thorough=100)
def changed(ctx):
    """options changed on an object which has already been evaluated."""
    rng = ctx.rng
    for cls in CLASSES:
        for _ in range(ctx.n(2, 3)):
            ctx.label("construction of " + cls)
            with ctx.guard():
                b = build(rng, cls)
                o = b["o"]
                judge(ctx, b)
                ops = []
                if cls in ("small", "smooth1", "smooth2", "wls", "full", "sparse", "amp", "crossref", "jtv"):
                    ops.append("weights")
                if cls in ("small", "smooth1", "smooth2", "wls", "full", "sparse", "amp"):
                    ops.append("reference")
                if cls in ("sparse", "amp"):
                    ops += ["norms", "irls"]
                if cls in ("wls", "sparse", "amp"):
                    ops.append("alphas")
                if cls == "crossref":
                    ops.append("ref_dir")
                if cls == "corr":
                    ops.append("coefficients")
                if cls == "cross":
                    ops.append("approx")
                rng.shuffle(ops)
                for op in ops[:3]:
                    ctx.event("changed")
                    if op == "weights":
                        o.set_weights(extra=rng.uniform(0.2, 2, b["nc"]))
                    elif op == "reference":
                        o.reference_model = rng.standard_normal(b["n"])
                    elif op == "norms":
                        o.norms = [rng.choice([0.0, 1.0, 2.0]) for _ in o.objfcts]
                    elif op == "irls":
                        o.update_weights(rng.standard_normal(b["n"]))
                    elif op == "alphas":
                        o.alpha_s = float(rng.uniform(0, 2))
                        o.length_scale_x = float(rng.uniform(0.2, 2))
                    elif op == "ref_dir":
                        o.ref_dir = rng.standard_normal(o.ref_dir.shape)
                    elif op == "coefficients":
                        o.coefficients = rng.standard_normal(3)
                    elif op == "approx":
                        o.approx_hessian = not o.approx_hessian
                        b["exact"], b["psd"] = not o.approx_hessian, o.approx_hessian
                    judge(ctx, b, b["lab"] + " then " + op)


def gmm(rng, ncomp, nprop, cov):
    from discretize import TensorMesh
    from simpeg.utils import WeightedGaussianMixture

    mesh = TensorMesh([rng.uniform(0.5, 2, 60)])
    g = WeightedGaussianMixture(n_components=ncomp, mesh=mesh, covariance_type=cov, random_state=1, max_iter=200)
    c = rng.standard_normal((ncomp, nprop)) * 4
    x = c[rng.integers(0, ncomp, 60)] + rng.standard_normal((60, nprop)) @ (np.eye(nprop) + 0.3 * rng.standard_normal((nprop, nprop)))
    x[:ncomp] = c
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g.fit(x)
    return g


@case("C07", "pgi", quick=4, thorough=80)
def pgi(ctx):
    from discretize import TensorMesh
    from simpeg import maps
    from simpeg import regularization as R

    rng = ctx.rng
    for _ in range(ctx.n(5, 6)):
        nprop, ncomp = int(rng.integers(1, 4)), int(rng.integers(2, 4))
        cov = ["full", "tied", "diag", "spherical"][int(rng.integers(4))]
        mesh = TensorMesh([rng.uniform(0.5, 2, int(rng.integers(2, 4))) for _ in range(int(rng.integers(1, 4)))])
        n = mesh.nC
        ml = [maps.ExpMap(nP=n) if rng.random() < 0.3 else maps.IdentityMap(nP=n) for _ in range(nprop)]
        wires = maps.Wires(*[(f"m{i}", n) for i in range(nprop)])
        approx = bool(rng.random() < 0.6)
        whole = bool(rng.random() < 0.4)
        lab = f"pgi {cov} props={nprop} approx={approx} whole={whole} maps={''.join(type(x).__name__[0] for x in ml)}"
        ctx.label(lab)
        with ctx.guard():
            g = gmm(rng, ncomp, nprop, cov)
            W = {"w": rng.uniform(0.3, 2, n)} if rng.random() < 0.6 else None
            kw = dict(wiresmap=wires, maplist=ml, approx_gradient=approx, approx_eval=approx, approx_hessian=approx)
            if whole:
                o = R.PGI(mesh, g, weights_list=None if W is None else [W["w"]] * nprop if False else None, alpha_x=float(rng.uniform(0, 1)), **kw)
            else:
                o = R.PGIsmallness(g, mesh=mesh, weights=W, **kw)
            lin = all(type(x) is maps.IdentityMap for x in ml)
            ctr = g.means_[rng.integers(0, ncomp, n)]

            def model():
                x = ctr + 0.5 * rng.standard_normal((n, nprop))
                return np.hstack([np.log(np.abs(x[:, i]) + 0.1) if type(ml[i]) is maps.ExpMap else x[:, i] for i in range(nprop)])

            b = dict(o=o, n=n * nprop, lab=lab, exact=approx and lin, psd=True, m=model)
            judge(ctx, b)
            if approx:
                # another petrophysical model or reference model on the same object
                s = o.objfcts[0] if whole else o
                s.gmm = gmm(rng, ncomp, nprop, cov)
                judge(ctx, b, lab + " then gmm")
                s.reference_model = s.gmm.means_[rng.integers(0, ncomp, n)].ravel(order="F")
                judge(ctx, b, lab + " then reference")
