"""C08: the values of regularizations.  The documented functionals are written a second time, with plain
loops over cells and faces of tensor meshes (no operators of the code), and compared with the value of
the real objects, which are driven through random sequences of option changes.  The reference keeps its own
record of the options.  Uniform tree meshes are compared with the tensor mesh of the same cells."""
import numpy as np

from .c05 import act, tmesh
from .c07 import inner_faces
from .core import case

RULE = "class x mesh x active cells x mapping x weights x options x order of changes; distinct when the label and the last change are new"
REQUIRED = {"values": 400, "changes": 250, "irls": 60}


class Grid:
    """cells and interior active faces of a tensor mesh, with plain loops."""

    def __init__(self, mesh, a):
        self.mesh = mesh
        self.dim = mesh.dim
        self.shape = mesh.shape_cells
        self.a = np.ones(mesh.nC, bool) if a is None else a
        self.n = int(self.a.sum())
        self.num = np.full(mesh.nC, -1)
        self.num[self.a] = np.arange(self.n)
        idx = np.indices(self.shape)
        num = self.num.reshape(self.shape, order="F")
        h = mesh.h
        vol = np.ones(self.shape)
        for d in range(self.dim):
            vol = vol * h[d][idx[d]]
        self.vol_all = vol
        self.vol = vol.ravel(order="F")[self.a]
        self.faces = []  # per axis: (low cell, high cell, distance of centres)
        for d in range(self.dim):
            lo = np.take(num, range(self.shape[d] - 1), axis=d).ravel(order="F")
            hi = np.take(num, range(1, self.shape[d]), axis=d).ravel(order="F")
            k = np.take(idx[d], range(self.shape[d] - 1), axis=d).ravel(order="F")
            dist = 0.5 * (h[d][k] + h[d][k + 1])
            ok = (lo >= 0) & (hi >= 0)
            self.faces.append((lo[ok], hi[ok], dist[ok]))

    angles = False

    def step(self, a):
        """difference of two values; of two angles the shortest way round"""
        return (a + np.pi) % (2 * np.pi) - np.pi if self.angles else a

    def diff(self, d, y):
        lo, hi, dist = self.faces[d]
        return self.step(y[hi] - y[lo]) / dist

    def mean(self, d, w):
        lo, hi, _ = self.faces[d]
        return 0.5 * (w[lo] + w[hi])

    def facemean(self, d, f):
        """values on faces to cells, half from each side (sides without a face count as zero)."""
        lo, hi, _ = self.faces[d]
        out = np.zeros(self.n)
        np.add.at(out, lo, 0.5 * f)
        np.add.at(out, hi, 0.5 * f)
        return out

    def diff2(self, d, y):
        """transpose of the difference applied to the difference."""
        lo, hi, dist = self.faces[d]
        g = self.step(y[hi] - y[lo]) / dist
        out = np.zeros(self.n)
        np.add.at(out, hi, g / dist)
        np.add.at(out, lo, -g / dist)
        return out


class Spec:
    """what the regularization is documented to measure."""

    def __init__(self, g, mp):
        self.g, self.mp = g, mp
        self.weights = {}  # name -> cell weights
        self.alpha = {}
        self.ref = None
        self.in_smooth = False
        self.irls = {}  # term -> weights on the term's locations

    def y(self, m):
        return self.mp(m)

    def resid(self, m, smooth):
        if self.ref is None or (smooth and not self.in_smooth):
            return self.y(m)
        return self.y(m) - self.y(self.ref)

    def term(self, t, m):
        g = self.g
        if t == "s":
            w = g.vol * np.prod(list(self.weights.values()) or [np.ones(g.n)], axis=0)
            w = w * self.irls.get("s", 1.0)
            return float(np.sum(w * self.resid(m, False) ** 2))
        d = "xyz".index(t[0])
        if len(t) == 1:
            w = g.mean(d, g.vol)
            for v in self.weights.values():
                w = w * g.mean(d, v)
            w = w * self.irls.get(t, 1.0)
            return float(np.sum(w * g.diff(d, self.resid(m, True)) ** 2))
        w = g.vol * np.prod(list(self.weights.values()) or [np.ones(g.n)], axis=0)
        return float(np.sum(w * g.diff2(d, self.resid(m, True)) ** 2))

    def value(self, m):
        return sum(a * self.term(t, m) for t, a in self.alpha.items())


def lp(f, p, eps, scaled, fmax=0.0):
    """IRLS weights of |f|^p, with the documented scaling."""
    w = 1.0 / (f**2 + eps**2) ** (1 - p / 2)
    if not scaled:
        return w
    fmax = max(fmax, np.abs(f).max())
    out = np.empty_like(f)
    for i in range(f.size):
        pi = p[i] if np.ndim(p) else p
        fi = fmax if pi >= 1 else eps / np.sqrt(1 - pi)
        # gradient of the lp term at its maximum over fmax
        gl = fi / (fi**2 + eps**2) ** (1 - pi / 2)
        out[i] = fmax / gl if gl != 0 else 1.0
    return out * w


def setup(rng, dims=(1, 2, 3)):
    from simpeg import maps

    dim = int(rng.choice(dims))
    while True:
        mesh = tmesh(rng, dim, lo=2, hi=7 if dim < 3 else 5, base=1.0)
        a = act(rng, mesh.nC) if rng.random() < 0.65 else None
        if mesh.nC > 3 and (a is None or inner_faces(mesh, a)):
            break
    g = Grid(mesh, a)
    n = g.n
    k = int(rng.integers(4))
    if k == 0:
        mp, f, nP = None, (lambda m: m), n
    elif k == 1:
        mp, f, nP = maps.ExpMap(nP=n), np.exp, n
    elif k == 2:
        w = maps.Wires(("a", n), ("b", n))
        mp, f, nP = w.b, (lambda m: m[n:]), 2 * n
    else:
        A = rng.standard_normal((n, n + 1))
        mp, f, nP = maps.LinearMap(__import__("scipy.sparse").sparse.csr_matrix(A)), (lambda m: A @ m), n + 1
    return mesh, a, g, mp, f, nP, f"dim{dim} act={a is not None} map{k}"


def compare(ctx, o, spec, m, lab, key="value of a regularization"):
    ctx.label(lab)
    ctx.event("values")
    v = spec.value(m)
    ctx.close(o(m), v, key, rtol=1e-9, scale=abs(v) + 1e-300)


@case("C08", "wls", quick=8, thorough=200)
def wls(ctx):
    from simpeg import regularization as R

    rng = ctx.rng
    for _ in range(ctx.n(5, 6)):
        with ctx.guard():
            mesh, a, g, mp, f, nP, lab = setup(rng)
            sp_ = Spec(g, f)
            base = min(h.min() for h in mesh.h)
            axes = "xyz"[: mesh.dim]
            sp_.alpha = {"s": 1.0, **{x: base**2 for x in axes}, **{2 * x: 0.0 for x in axes}}
            kw = {}
            if rng.random() < 0.5:
                v = float(rng.uniform(0.1, 2))
                kw["alpha_s"] = sp_.alpha["s"] = v
            for x in axes:
                q = rng.random()
                if q < 0.3:
                    kw[f"alpha_{x}"] = sp_.alpha[x] = float(rng.uniform(0, 2))
                elif q < 0.6:
                    L = float(rng.uniform(0.2, 2))
                    kw[f"length_scale_{x}"] = L
                    sp_.alpha[x] = (L * base) ** 2
                q = rng.random()
                if q < 0.3:
                    kw[f"alpha_{2 * x}"] = sp_.alpha[2 * x] = float(rng.uniform(0, 2))
                elif q < 0.45:
                    kw[f"alpha_{2 * x}"] = None
                    sp_.alpha[2 * x] = sp_.alpha[x] ** 2
            if rng.random() < 0.5:
                sp_.ref = kw["reference_model"] = rng.standard_normal(nP)
            if rng.random() < 0.5:
                sp_.in_smooth = kw["reference_model_in_smooth"] = True
            if rng.random() < 0.5:
                kw["weights"] = {f"w{i}": rng.uniform(0.2, 3, g.n) for i in range(int(rng.integers(1, 3)))}
                sp_.weights = dict(kw["weights"])
            late = a is not None and rng.random() < 0.3 and "weights" not in kw and "reference_model" not in kw and mp is None
            if not late and a is not None:
                kw["active_cells"] = a if rng.random() < 0.6 else np.where(a)[0]
            ctx.label("wls " + lab)
            o = R.WeightedLeastSquares(mesh, mapping=mp, **kw)
            if late:
                from simpeg import maps

                o(rng.standard_normal(mesh.nC))
                o.active_cells = a
                o.mapping = maps.IdentityMap(nP=g.n)
                lab += " late active cells"
            m = rng.standard_normal(nP)
            compare(ctx, o, sp_, m, "wls " + lab)
            for _ in range(int(rng.integers(3, 7))):
                ops = ["alpha", "weight", "ref", "smooth", "model", "alpha", "weight"] + (["remove", "replace"] if sp_.weights else [])
                op = ops[int(rng.integers(len(ops)))]
                ctx.event("changes")
                if op == "alpha":
                    x = list(sp_.alpha)[int(rng.integers(len(sp_.alpha)))]
                    if len(x) == 1 and x != "s" and rng.random() < 0.5:
                        L = float(rng.uniform(0.2, 2))
                        setattr(o, f"length_scale_{x}", L)
                        sp_.alpha[x] = (L * base) ** 2
                        ctx.close(getattr(o, f"alpha_{x}"), sp_.alpha[x], "alpha of a length scale", rtol=1e-12)
                    elif len(x) == 2 and rng.random() < 0.4:
                        setattr(o, f"alpha_{x}", None)
                        sp_.alpha[x] = sp_.alpha[x[0]] ** 2
                    else:
                        v = float(rng.choice([0.0, rng.uniform(0.1, 3)]))
                        setattr(o, f"alpha_{x}", v)
                        sp_.alpha[x] = v
                        if x in "xyz":
                            ctx.close(getattr(o, f"length_scale_{x}"), np.sqrt(v) / base, "length scale of an alpha", rtol=1e-12)
                elif op == "weight":
                    k = f"n{int(rng.integers(3))}"
                    w = rng.uniform(0.2, 3, g.n)
                    o.set_weights(**{k: w})
                    sp_.weights[k] = w
                elif op == "remove":
                    k = list(sp_.weights)[int(rng.integers(len(sp_.weights)))]
                    o.remove_weights(k)
                    sp_.weights.pop(k)
                elif op == "replace":
                    k = list(sp_.weights)[int(rng.integers(len(sp_.weights)))]
                    w = rng.uniform(0.2, 3, g.n)
                    o.set_weights(**{k: w})
                    sp_.weights[k] = w
                elif op == "ref":
                    q = rng.random()
                    sp_.ref = None if q < 0.2 else (np.full(nP, 0.7) if q < 0.4 else rng.standard_normal(nP))
                    o.reference_model = 0.7 if 0.2 <= q < 0.4 else sp_.ref
                elif op == "smooth":
                    sp_.in_smooth = bool(rng.random() < 0.5)
                    o.reference_model_in_smooth = sp_.in_smooth
                else:
                    m = rng.standard_normal(nP) * 10 ** rng.uniform(-2, 1)
                compare(ctx, o, sp_, m, f"wls {lab} after {op}")
                # terms one by one, in the documented order of multipliers
                tot = 0.0
                for c, t in zip(o.multipliers, o.objfcts):
                    nm = "s" if isinstance(t, R.Smallness) else t.orientation * (2 if isinstance(t, R.SmoothnessSecondOrder) else 1)
                    ctx.close(c, sp_.alpha[nm], "multiplier of a term", rtol=1e-12)
                    ctx.close(t(m), sp_.term(nm, m), "value of a term " + nm, rtol=1e-9)


@case("C08", "single", quick=4, thorough=100)
def single(ctx):
    """Smallness, SmoothnessFirstOrder and SmoothnessSecondOrder by themselves."""
    from simpeg import regularization as R

    rng = ctx.rng
    for _ in range(ctx.n(6, 8)):
        for t in ("s", "1", "2"):
            ctx.label("single " + t)
            with ctx.guard():
                mesh, a, g, mp, f, nP, lab = setup(rng)
                x = "xyz"[int(rng.integers(mesh.dim))]
                nm = {"s": "s", "1": x, "2": 2 * x}[t]
                sp_ = Spec(g, f)
                sp_.alpha = {nm: 1.0}
                kw = dict(mapping=mp, active_cells=a)
                if rng.random() < 0.5:
                    sp_.weights = {"w": rng.uniform(0.2, 3, g.n)}
                    kw["weights"] = dict(sp_.weights)
                if rng.random() < 0.6:
                    sp_.ref = kw["reference_model"] = rng.standard_normal(nP)
                if t != "s":
                    kw["orientation"] = x
                    sp_.in_smooth = kw["reference_model_in_smooth"] = bool(rng.random() < 0.5)
                if t != "s" and rng.random() < 0.35:
                    kw["units"], g.angles = "radian", True
                    lab += " angles"
                    ctx.event("angles")
                o = {"s": R.Smallness, "1": R.SmoothnessFirstOrder, "2": R.SmoothnessSecondOrder}[t](mesh, **kw)
                m = rng.standard_normal(nP) * (3 if g.angles else 1)
                if g.angles and mp is None:
                    k = 2 * np.pi * rng.integers(-2, 3, nP)
                    ctx.close(o(m + k), o(m), "smoothness of angles depends on full turns", rtol=1e-9, scale=1e-9 + abs(o(m)))
                compare(ctx, o, sp_, m, f"single {nm} {lab}")
                o.set_weights(b=np.full(g.n, 2.0))
                sp_.weights["b"] = np.full(g.n, 2.0)
                ctx.event("changes")
                compare(ctx, o, sp_, m, f"single {nm} {lab} weights")
                if t == "1" and a is not None:
                    # weights on faces
                    wf = rng.uniform(0.3, 2, g.faces["xyz".index(x)][0].size)
                    if wf.size != g.n:
                        o.set_weights(face=wf)
                        sp_.irls = {x: wf}
                        compare(ctx, o, sp_, m, f"single {nm} {lab} face weights")
                # nothing to penalize
                if mp is None:
                    if t == "s" and sp_.ref is not None:
                        ctx.check(o(sp_.ref) == 0.0, "reference model is penalized")
                    if t != "s":
                        c = np.full(nP, 3.7) + (sp_.ref if sp_.ref is not None and sp_.in_smooth else 0.0)
                        ctx.check(abs(o(c)) <= 1e-20 * max(1.0, abs(o(m))), "constant model is penalized", f"{o(c)}")


@case("C08", "sparse", quick=6, thorough=150)
def sparse(ctx):
    from simpeg import regularization as R

    rng = ctx.rng
    for _ in range(ctx.n(5, 6)):
        ctx.label("sparse")
        with ctx.guard():
            mesh, a, g, mp, f, nP, lab = setup(rng)
            base = min(h.min() for h in mesh.h)
            axes = "xyz"[: mesh.dim]
            sp_ = Spec(g, f)
            sp_.alpha = {"s": 1.0, **{x: base**2 for x in axes}}
            terms = list(sp_.alpha)

            def some_norms():
                out = {t: float(rng.choice([0.0, 0.4, 1.0, 1.5, 2.0])) for t in terms}
                for t in terms:
                    if rng.random() < 0.4 and (t == "s" or a is not None):
                        k = g.n if t == "s" else g.diff("xyz".index(t), np.zeros(g.n)).size
                        out[t] = rng.choice([0.0, 0.4, 0.8, 1.0, 1.5, 2.0], k)
                return out

            norms = some_norms()
            gt = ["total", "components"][int(rng.integers(2))]
            scaled = bool(rng.random() < 0.6)
            eps = 10.0 ** rng.uniform(-3, 0)
            kw = dict(mapping=mp, norms=[norms[t] for t in terms], gradient_type=gt, irls_scaled=scaled, irls_threshold=eps, active_cells=a)
            if rng.random() < 0.5:
                sp_.ref = kw["reference_model"] = rng.standard_normal(nP)
                sp_.in_smooth = kw["reference_model_in_smooth"] = bool(rng.random() < 0.5)
            if rng.random() < 0.4:
                sp_.weights = {"w": rng.uniform(0.2, 3, g.n)}
                kw["weights"] = dict(sp_.weights)
            o = R.Sparse(mesh, **kw)
            m = rng.standard_normal(nP)
            compare(ctx, o, sp_, m, f"sparse {lab} l2")

            def update(mi):
                sp_.irls = {}
                gr = {x: g.diff("xyz".index(x), sp_.resid(mi, True)) for x in axes}
                for t in terms:
                    fmax = 0.0
                    if t == "s":
                        q = sp_.resid(mi, False)
                    elif gt == "components":
                        q = gr[t]
                    else:
                        d = "xyz".index(t)
                        cc = sum(np.abs(g.facemean("xyz".index(x), gr[x])) for x in axes)
                        q = g.mean(d, cc)
                        if a is None:
                            # faces of the mesh boundary are part of the grid then: nothing is
                            # penalized there, but the largest gradient may be that of their cell
                            i = np.indices(g.shape)[d].ravel(order="F")
                            fmax = np.abs(cc[(i == 0) | (i == g.shape[d] - 1)]).max()
                    sp_.irls[t] = lp(q, norms[t], eps, scaled, fmax)

            for _ in range(int(rng.integers(2, 5))):
                op = ["irls", "norms", "eps", "gt", "scaled", "weight", "irls"][int(rng.integers(7))]
                ctx.event("changes")
                if op == "norms":
                    norms = some_norms()
                    o.norms = [norms[t] for t in terms]
                elif op == "eps":
                    eps = 10.0 ** rng.uniform(-3, 0)
                    o.irls_threshold = eps
                elif op == "gt":
                    gt = ["total", "components"][int(rng.integers(2))]
                    o.gradient_type = gt
                elif op == "scaled":
                    scaled = not scaled
                    o.irls_scaled = scaled
                elif op == "weight":
                    w = rng.uniform(0.2, 3, g.n)
                    o.set_weights(w=w)
                    sp_.weights["w"] = w
                # until the weights are updated the value stays that of the old weights
                compare(ctx, o, sp_, m, f"sparse {lab} {gt} {scaled} {['mixed' if np.ndim(p) else p for p in norms.values()]} after {op}")
                mi = rng.standard_normal(nP)
                o.update_weights(mi)
                update(mi)
                ctx.event("irls")
                compare(ctx, o, sp_, m, f"sparse {lab} {gt} {scaled} {['mixed' if np.ndim(p) else p for p in norms.values()]} irls after {op}", "value with IRLS weights")
                # at the model of the weights, unscaled: the approximated norm itself
                if not scaled:
                    t = o.objfcts[0]
                    q = sp_.resid(mi, False)
                    w = g.vol * np.prod(list(sp_.weights.values()) or [np.ones(g.n)], axis=0)
                    ctx.close(t(mi), float(np.sum(w * q**2 / (q**2 + eps**2) ** (1 - norms["s"] / 2))), "approximated norm", rtol=1e-9)


@case("C08", "others", quick=4, thorough=100)
def others(ctx):
    """full gradient, vector, cross reference, cross gradient, total variation, correspondence."""
    import scipy.sparse as sps
    from simpeg import maps
    from simpeg import regularization as R

    rng = ctx.rng
    for _ in range(ctx.n(3, 4)):
        mesh, a, g, mp, f, nP, lab = setup(rng, dims=(2, 3))
        n, dim = g.n, mesh.dim
        m = rng.standard_normal(nP)
        y = f(m)
        G = [g.diff(d, y) for d in range(dim)]
        # full gradient with isotropic or axis-aligned weights: every face has half of both cells
        ctx.label("full " + lab)
        with ctx.guard():
            al = rng.uniform(0.1, 2, dim)
            w = rng.uniform(0.3, 2, n)
            ref = rng.standard_normal(nP)
            o = R.SmoothnessFullGradient(mesh, alphas=al, active_cells=a, mapping=mp, weights={"w": w})
            v = sum(al[d] * np.sum(g.mean(d, g.vol * w) * G[d] ** 2) for d in range(dim))
            ctx.event("values")
            ctx.close(o(m), v, "value of the full gradient", rtol=1e-9)
            o.reference_model = ref
            G2 = [g.diff(d, y - f(ref)) for d in range(dim)]
            v = sum(al[d] * np.sum(g.mean(d, g.vol * w) * G2[d] ** 2) for d in range(dim))
            ctx.close(o(m), v, "value of the full gradient", rtol=1e-9)
            # axes permuted by the directions
            P = np.eye(dim)[:, rng.permutation(dim)]
            o = R.SmoothnessFullGradient(mesh, alphas=al, reg_dirs=P, active_cells=a, mapping=mp)
            v = sum((P @ (al * P[d]))[d] * np.sum(g.mean(d, g.vol) * G[d] ** 2) for d in range(dim))
            ctx.close(o(m), v, "value of the full gradient along directions", rtol=1e-9)
        # vector models
        ctx.label("vector " + lab)
        with ctx.guard():
            nc = 3
            u = rng.standard_normal(nc * n)
            U = u.reshape((n, nc), order="F")
            rf = rng.standard_normal(nc * n)
            Rf = rf.reshape((n, nc), order="F")
            base = min(h.min() for h in mesh.h)
            W = rng.uniform(0.3, 2, n)
            ins = bool(rng.random() < 0.5)
            o = R.VectorAmplitude(mesh, mapping=maps.IdentityMap(nP=nc * n), active_cells=a, reference_model=rf, reference_model_in_smooth=ins, weights={"w": W})
            v = np.sum(g.vol * W * ((U - Rf) ** 2).sum(axis=1))
            Q = U - Rf if ins else U
            for d in range(dim):
                v += base**2 * sum(np.sum(g.mean(d, g.vol) * g.mean(d, W) * g.diff(d, Q[:, k]) ** 2) for k in range(nc))
            ctx.event("values")
            ctx.close(o(u), v, "value of the vector amplitude", rtol=1e-9)
            # weights per component act through their norm, however they are shaped
            W3 = rng.uniform(0.3, 2, (n, nc))
            o1 = R.VectorAmplitude(mesh, mapping=maps.IdentityMap(nP=nc * n), active_cells=a)
            o2 = R.VectorAmplitude(mesh, mapping=maps.IdentityMap(nP=nc * n), active_cells=a)
            o1.set_weights(c=W3)
            o2.set_weights(c=W3.ravel(order="F"))
            nw = np.linalg.norm(W3, axis=1)
            v = np.sum(g.vol * nw * (U**2).sum(axis=1))
            for d in range(dim):
                v += base**2 * sum(np.sum(g.mean(d, g.vol) * g.mean(d, nw) * g.diff(d, U[:, k]) ** 2) for k in range(nc))
            ctx.close(o2(u), v, "value with weights per component", rtol=1e-9)
            ctx.close(o1(u), v, "value with weights per component", rtol=1e-9)
        ctx.label("cross reference " + lab)
        with ctx.guard():
            rd = rng.standard_normal((n, dim))
            u = rng.standard_normal(dim * n)
            U = u.reshape((n, dim), order="F")
            o = R.CrossReferenceRegularization(mesh, rd, active_cells=a, mapping=maps.IdentityMap(nP=dim * n), weights={"w": W})
            c = np.cross(U, rd) if dim == 3 else U[:, 0] * rd[:, 1] - U[:, 1] * rd[:, 0]
            v = np.sum(g.vol * W * (c**2 if dim == 2 else (c**2).sum(axis=1)))
            ctx.event("values")
            ctx.close(o(u), v, "value of the cross reference", rtol=1e-9)
            ctx.check(abs(o((rd * rng.uniform(0.5, 2, n)[:, None]).ravel(order="F"))) <= 1e-20 * v, "vectors along the reference are penalized")
        ctx.label("similarity " + lab)
        with ctx.guard():
            wires = maps.Wires(("a", n), ("b", n))
            x = rng.standard_normal(2 * n)
            ya, yb = x[:n], x[n:]
            o = R.CrossGradient(mesh, wires, active_cells=a)
            A = sum(g.facemean(d, g.diff(d, ya) ** 2) for d in range(dim))
            B = sum(g.facemean(d, g.diff(d, yb) ** 2) for d in range(dim))
            C = sum(g.facemean(d, g.diff(d, ya) * g.diff(d, yb)) for d in range(dim))
            ctx.event("values")
            ctx.close(o(x), np.sum(g.vol * (A * B - C**2)), "value of the cross gradient", rtol=1e-9)
            s = np.r_[ya, 2.5 * ya - 3.0]
            ctx.check(abs(o(s)) <= 1e-9 * np.sum(g.vol * A * A) + 1e-300, "structurally alike models are penalized", f"{o(s)}")
            nj = int(rng.integers(1, 4))
            wj = maps.Wires(*[(f"m{i}", n) for i in range(nj)])
            xj = rng.standard_normal(nj * n)
            eps = 10.0 ** rng.uniform(-6, -1)
            o = R.JointTotalVariation(mesh, wj, eps=eps, active_cells=a)
            E_ = sum(g.facemean(d, g.diff(d, xi) ** 2) for xi in xj.reshape(nj, n) for d in range(dim))
            ctx.close(o(xj), np.sum(g.vol * np.sqrt(E_ + eps)), "value of the joint total variation", rtol=1e-9)
            k = rng.standard_normal(3)
            o = R.LinearCorrespondence(mesh, wires, coefficients=k, active_cells=a)
            ctx.close(o(x), np.sum((k[0] * ya + k[1] * yb + k[2]) ** 2), "value of the linear correspondence", rtol=1e-9)


@case("C08", "tree", quick=3, thorough=60)
def tree(ctx):
    """a tree mesh refined everywhere is the tensor mesh of its cells."""
    from discretize import TensorMesh, TreeMesh
    from simpeg import regularization as R

    rng = ctx.rng
    for _ in range(ctx.n(3, 4)):
        dim = int(rng.integers(2, 4))
        h = [float(rng.uniform(0.5, 2)) for _ in range(dim)]
        N = 4
        tr = TreeMesh([np.full(N, x) for x in h], diagonal_balance=True)
        tr.refine(-1)
        te = TensorMesh([np.full(N, x) for x in h])
        key = lambda c: [tuple(np.round(r / np.array(h), 3)) for r in c]
        pos = {k: i for i, k in enumerate(key(te.cell_centers))}
        ix = np.array([pos[k] for k in key(tr.cell_centers)])  # tree cell -> tensor cell
        while True:
            at = act(rng, te.nC)
            if inner_faces(te, at):
                break
        ar = at[ix]
        inv = np.full(te.nC, -1)
        inv[at] = np.arange(at.sum())
        ac = inv[ix[ar]]
        m = rng.standard_normal(at.sum())
        w = rng.uniform(0.3, 2, at.sum())
        for cls in ("wls", "sparse"):
            ctx.label(f"tree {cls} dim{dim}")
            ctx.event("values")
            with ctx.guard():
                kw = dict(alpha_xx=0.3) if cls == "wls" else dict(norms=[float(rng.choice([0, 1, 2])) for _ in range(dim + 1)], irls_threshold=0.1)
                K = R.WeightedLeastSquares if cls == "wls" else R.Sparse
                o1 = K(te, active_cells=at, weights={"w": w}, **kw)
                o2 = K(tr, active_cells=ar, weights={"w": w[ac]}, **kw)
                if cls == "sparse":
                    for o in o1, o2:
                        o.gradient_type = "components"
                    o1.update_weights(m)
                    o2.update_weights(m[ac])
                ctx.close(o2(m[ac]), o1(m), "value on a uniform tree", rtol=1e-9)
                ctx.close(o2.deriv(m[ac]), o1.deriv(m)[ac], "gradient on a uniform tree", rtol=1e-9)
