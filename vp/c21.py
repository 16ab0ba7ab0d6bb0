"""C21: physical properties, their reciprocals and mass matrices against an independent record of the last assignment.

Random histories of assignments (values, reciprocal values, mappings, models, rejected values) are played on simulations
and on user-defined modelers; after every step each property, mapping, derivative and mass matrix is read and compared
with the value implied by the record, so a matrix or value kept from before the change shows.
"""
import numpy as np
import scipy.sparse as sp
from discretize.utils import Zero

from . import scen
from .core import case, quiet

RULE = "property == last assignment (value, reciprocal or mapped model); M(prop) == fresh inner product of the current value"
REQUIRED = {"assignments": 300, "reads": 1200, "matrices": 1000, "matrix derivatives": 400, "rejected": 60}


class Ref:
    """what a pair of reciprocal properties is, by the last accepted assignment"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.kind, self.what, self.who = None, None, None

    def set(self, who, kind, what):
        if what is None:
            if self.who == who and self.kind == kind:
                self.kind = self.what = self.who = None
            return
        self.kind, self.what, self.who = kind, what, who

    def value(self, who, model):
        if self.kind is None:
            return None
        v = self.what if self.kind == "val" else (None if model is None else self.what @ model)
        if v is None:
            return None
        return v if who == self.who else 1.0 / v

    def deriv(self, who, model):
        if self.kind != "map" or model is None:
            return None
        J = self.what.deriv(model)
        if who == self.who:
            return J
        v = self.what @ model
        return sp.diags(-1.0 / v**2) @ J


def rand_map(rng, n, npar):
    from simpeg import maps

    k = int(rng.integers(4))
    if npar == n:
        m = [maps.ExpMap(nP=n), maps.ReciprocalMap(nP=n), maps.ExpMap(nP=n) * maps.IdentityMap(nP=n), maps.LogisticSigmoidMap(nP=n, lower_bound=0.5, upper_bound=3.0)][k]
    else:
        P = sp.csr_matrix(rng.uniform(0, 1, (n, npar)) * (rng.random((n, npar)) < 0.4)) + sp.csr_matrix((np.ones(n), (np.arange(n), np.arange(n) % npar)), shape=(n, npar))
        m = maps.ExpMap(nP=n) * maps.LinearMap(P * 0.2)
    return m


def meshes(rng):
    import discretize

    k = str(rng.choice(["tensor2", "tensor3", "tree", "cyl", "curv"]))
    if k == "tensor2":
        m = discretize.TensorMesh([rng.uniform(0.5, 2, 4), rng.uniform(0.5, 2, 3)])
    elif k == "tensor3":
        m = discretize.TensorMesh([rng.uniform(0.5, 2, 3), rng.uniform(0.5, 2, 3), rng.uniform(0.5, 2, 2)])
    elif k == "tree":
        m = discretize.TreeMesh([4, 4, 4])
        m.insert_cells(rng.uniform(0, 1, (1, 3)), [2])
    elif k == "cyl":
        m = discretize.CylindricalMesh([rng.uniform(0.5, 2, 4), 1, rng.uniform(0.5, 2, 3)])
    else:
        g = np.meshgrid(np.arange(4.0), np.arange(4.0), indexing="ij")
        m = discretize.CurvilinearMesh([x + 0.1 * rng.standard_normal(x.shape) for x in g])
    return k, m


def want_matrix(mesh, loc, inv, v):
    nC = mesh.n_cells
    v = np.full(nC, float(v)) if np.ndim(v) == 0 else v
    vol = mesh.cell_volumes
    if loc == "cc":
        d = vol * v
    elif loc == "n":
        if "cyl" in mesh_kind(mesh):
            # discretize has no nodal averages for these
            raise NotImplementedError
        d = mesh.aveN2CC.T @ (vol * v)
    else:
        f = mesh.get_face_inner_product if loc == "f" else mesh.get_edge_inner_product
        return f(model=v, invert_matrix=inv)
    return sp.diags(1 / d if inv else d)


def mesh_kind(mesh):
    return type(mesh).__name__.lower()


def dense(x):
    return x.toarray() if sp.issparse(x) else np.asarray(x)


def check_matrices(ctx, sim, mesh, refs, model, rng):
    for r in refs:
        for who in (r.a, r.b):
            v = r.value(who, model)
            if v is None:
                continue
            for loc in ("cc", "n", "f", "e"):
                if np.ndim(v) > 1 and loc in ("cc", "n"):
                    continue
                for inv in (False, True):
                    if rng.random() < 0.4:
                        continue
                    name = f"M{loc}{who.capitalize()}" + ("I" if inv else "")
                    try:
                        W = want_matrix(mesh, loc, inv, v)
                    except NotImplementedError:
                        continue
                    got = getattr(sim, name)
                    ctx.event("matrices")
                    if not ctx.close(dense(got), dense(W), f"mass matrix {name} is not of the current property", rtol=1e-10):
                        return
                    # the inverse is approximate on skewed meshes, and exact with one value per cell on the others
                    if r.kind != "map" or model is None or inv and loc in ("f", "e") and (np.ndim(v) > 1 or "curv" in mesh_kind(mesh)):
                        continue
                    n = got.shape[0]
                    if n == 0:
                        continue
                    try:
                        J = r.deriv(who, model)
                        if loc in ("cc", "n"):
                            B = sp.diags(mesh.cell_volumes) @ J
                            if loc == "n":
                                B = mesh.aveN2CC.T @ B
                            D = lambda x: sp.diags(x) @ B
                        else:
                            fd = (mesh.get_face_inner_product_deriv if loc == "f" else mesh.get_edge_inner_product_deriv)(model=v)
                            D = lambda x: fd(x) @ J
                        if inv:
                            # d(M^-1 u) = -M^-1 dM M^-1 u
                            Mi = W
                            D0 = D
                            D = lambda x: -Mi @ D0(Mi @ x)
                    except NotImplementedError:
                        continue
                    fun = getattr(sim, name + "Deriv")
                    npar = model.size
                    u, vv, w = rng.standard_normal(n), rng.standard_normal(npar), rng.standard_normal(n)
                    U, VV, Wd = rng.standard_normal((n, 2)), rng.standard_normal((npar, 3)), rng.standard_normal((n, 2))
                    ref1 = dense(D(u))
                    ctx.event("matrix derivatives")
                    key = f"derivative of mass matrix {name}"
                    shp = int(rng.integers(6))
                    if shp == 0:
                        ctx.close(dense(fun(u)), ref1, key + ": matrix", rtol=1e-9)
                        ctx.close(dense(fun(u, adjoint=True)), ref1.T, key + ": adjoint matrix", rtol=1e-9)
                    elif shp == 1:
                        ctx.close(fun(u, vv), ref1 @ vv, key, rtol=1e-9)
                    elif shp == 2:
                        ctx.close(fun(u, w, adjoint=True), ref1.T @ w, key + ": adjoint", rtol=1e-9)
                    elif shp == 3:
                        ctx.close(fun(u, VV), ref1 @ VV, key + ": several vectors", rtol=1e-9)
                    elif shp == 4:
                        ref = np.stack([dense(D(U[:, i])) @ vv for i in range(2)], axis=-1)
                        ctx.close(fun(U, vv), ref, key + ": several fields", rtol=1e-9)
                    else:
                        ref = sum(dense(D(U[:, i])).T @ Wd[:, i] for i in range(2))
                        ctx.close(fun(U, Wd, adjoint=True), ref, key + ": adjoint, several fields", rtol=1e-9)


def check_props(ctx, sim, refs, model):
    for r in refs:
        for who in (r.a, r.b):
            if who is None:
                continue
            want = r.value(who, model)
            ctx.event("reads")
            try:
                got = getattr(sim, who)
            except AttributeError:
                got = None
            if want is None:
                ctx.check(got is None, f"{who} has a value nobody assigned", f"{got}")
                continue
            if not ctx.check(got is not None, f"{who} is lost", f"wanted {want}"):
                continue
            ctx.close(got, want, f"{who} is not what was last assigned", rtol=1e-12)
            J = r.deriv(who, model)
            D = getattr(sim, who + "Deriv")
            if J is None:
                ctx.check(isinstance(D, Zero), f"{who} depends on the model without a mapping", f"{type(D)}")
            else:
                ctx.close(dense(D), dense(J), f"derivative of {who}", rtol=1e-10)
            M = getattr(sim, who + "Map")
            if r.kind == "map":
                ctx.check(M is not None, f"mapping of {who} is lost")
            else:
                ctx.check(M is None, f"{who} has a value and a mapping")


BAD_VALUES = ["a", ["1", "2"], np.array(["x", "y"]), [[1, 2], [3]]]
BAD_MAPS = ["a", 3, np.ones(3), object(), type("X", (), {})]


def play(ctx, mk, refs, n, vals, npars, steps, after=None):
    """random history of assignments on one object"""
    rng = ctx.rng
    sim = mk()
    model = None
    npar = None
    trail = []
    for i in range(steps):
        r = refs[int(rng.integers(len(refs)))]
        who = r.a if r.b is None or rng.integers(2) else r.b
        act = str(rng.choice(["val", "map", "model", "model", "none", "nonemap", "badval", "badmap", "badmodel", "newmap_same"]))
        active = [x for x in refs if x.kind == "map"]
        ctx.label(f"{' > '.join(trail[-6:])}")
        with ctx.guard():
            if act == "val":
                v = vals(rng)
                setattr(sim, who, v)
                r.set(who, "val", v.copy() if isinstance(v, np.ndarray) else v)
                trail.append(f"{who}=value")
            elif act in ("map", "newmap_same"):
                # every active mapping takes the same model
                others = [x for x in active if x is not r]
                p = npar if others and npar else int(rng.choice(npars))
                if p != npar:
                    # a model of another length cannot stay
                    sim.model = None
                    model = None
                npar = p
                M = rand_map(rng, n, p)
                setattr(sim, who + "Map", M)
                r.set(who, "map", M)
                trail.append(f"{who}Map=map({p})")
            elif act == "model":
                if not active:
                    ctx.event("rejected")
                    ctx.raises(Exception, lambda: setattr(sim, "model", np.ones(3)), "a model is accepted without any mapping")
                    continue
                m = rng.standard_normal(npar) * 0.5 + 2.0
                sim.model = m
                model = m.copy()
                trail.append("model")
            elif act == "none":
                setattr(sim, who, None)
                r.set(who, "val", None)
                trail.append(f"{who}=None")
            elif act == "nonemap":
                if r.kind == "map" and r.who == who and len(active) == 1:
                    continue
                setattr(sim, who + "Map", None)
                r.set(who, "map", None)
                trail.append(f"{who}Map=None")
            elif act == "badval":
                b = BAD_VALUES[int(rng.integers(len(BAD_VALUES)))]
                ctx.event("rejected")
                ctx.raises((TypeError, ValueError), lambda: setattr(sim, who, b), f"{type(b).__name__} is accepted as {who}")
                trail.append(f"{who} rejected")
            elif act == "badmap":
                b = BAD_MAPS[int(rng.integers(len(BAD_MAPS)))]
                ctx.event("rejected")
                ctx.raises((TypeError, ValueError), lambda: setattr(sim, who + "Map", b), f"{type(b).__name__} is accepted as a mapping of {who}")
                trail.append(f"{who}Map rejected")
            elif act == "badmodel":
                if not active:
                    continue
                b = [np.ones(npar + 1), "abc", np.ones((npar, 2))][int(rng.integers(3))]
                ctx.event("rejected")
                ctx.raises((TypeError, ValueError), lambda: setattr(sim, "model", b), "a model of the wrong shape or type is accepted")
                trail.append("model rejected")
            ctx.event("assignments")
            ctx.distinct(tuple(trail[-3:]))
            ctx.label(f"{' > '.join(trail[-6:])}")
            got = sim.model
            ctx.check((got is None) == (model is None) and (model is None or np.array_equal(got, model)), "the model is not what was last assigned", f"{got} {model}")
            check_props(ctx, sim, refs, model)
            if after and rng.random() < 0.8:
                after(sim, refs, model)


@case("C21", "electrical", quick=16, thorough=60)
def electrical(ctx):
    from simpeg.base import BaseElectricalPDESimulation, BaseMagneticPDESimulation
    from simpeg.electromagnetics.base import BaseEMSimulation

    rng = ctx.rng
    k, mesh = meshes(rng)
    n = mesh.n_cells
    aniso = mesh.dim == 3 and k != "cyl" and rng.random() < 0.3

    def vals(rng):
        c = int(rng.integers(3))
        if c == 0:
            return float(rng.uniform(0.5, 3))
        if c == 1 and aniso:
            return rng.uniform(0.5, 3, (n, 3))
        return rng.uniform(0.5, 3, n)

    which = int(rng.integers(3))
    cls = [BaseElectricalPDESimulation, BaseMagneticPDESimulation, BaseEMSimulation][which]
    refs = []
    if which != 1:
        refs.append(Ref("sigma", "rho"))
    if which != 0:
        refs.append(Ref("mu", "mui"))
        from scipy.constants import mu_0

        refs[-1].set("mu", "val", mu_0)
    ctx.distinct((k, cls.__name__))
    play(ctx, lambda: cls(mesh), refs, n, vals, [n, 4, n + 2], ctx.n(30, 80), after=lambda s, r, m: check_matrices(ctx, s, mesh, r, m, rng))


@case("C21", "modelers", quick=6, thorough=40)
def modelers(ctx):
    """properties of a user-defined class: reciprocal pair, single property, optional property"""
    from simpeg import props

    rng = ctx.rng

    class Thing(props.HasModel):
        alpha, alphaMap, alphaDeriv = props.Invertible("alpha")
        beta, betaMap, betaDeriv = props.Invertible("beta")
        props.Reciprocal(alpha, beta)
        gamma, gammaMap, gammaDeriv = props.Invertible("gamma")
        delta, deltaMap, deltaDeriv = props.Invertible("delta", optional=True)

    n = int(rng.integers(3, 8))
    refs = [Ref("alpha", "beta"), Ref("gamma", None), Ref("delta", None)]
    # classes and instances do not share values
    other = Thing()
    other.alpha = 5.0
    play(ctx, Thing, refs, n, lambda g: [float(g.uniform(0.5, 3)), g.uniform(0.5, 3, n)][int(g.integers(2))], [n, 4, n + 2], ctx.n(50, 150))
    ctx.event("reads", 2)
    ctx.check(other.alpha == 5.0 and other.beta == 1 / 5.0, "instances share a property")
    ctx.check(not other.needs_model, "instances share mappings")


@case("C21", "array_semantics", quick=2, thorough=10)
def array_semantics(ctx):
    """values are kept exactly; a model changed in place by its owner takes effect when it is assigned again"""
    from simpeg.electromagnetics.base import BaseEMSimulation
    from simpeg import maps

    rng = ctx.rng
    for _ in range(ctx.n(8, 40)):
        k, mesh = meshes(rng)
        n = mesh.n_cells
        sim = BaseEMSimulation(mesh)
        v = rng.uniform(0.5, 3, n)
        sim.sigma = v
        ctx.event("assignments")
        ctx.event("reads", 2)
        ctx.check(np.array_equal(sim.sigma, v), "a value is changed when assigned")
        ctx.close(sim.rho, 1 / v, "reciprocal of an assigned value", rtol=1e-15)
        sim.sigmaMap = maps.ExpMap(nP=n)
        m = rng.standard_normal(n)
        sim.model = m
        A = dense(sim.MfRho)
        m += 0.5
        sim.model = m
        ctx.event("matrices", 2)
        ctx.close(dense(sim.MfRho), dense(mesh.get_face_inner_product(np.exp(-m))), "mass matrix after the model array was changed and assigned again", rtol=1e-10)
        ctx.close(dense(sim.MfRho), A * np.exp(-0.5), "mass matrix after the model array was changed and assigned again", rtol=1e-10)
        # without properties the matrices are those of the mesh
        for loc in ("cc", "n", "f", "e"):
            for inv in (False, True):
                try:
                    W = want_matrix(mesh, loc, inv, np.ones(n))
                except NotImplementedError:
                    continue
                ctx.event("matrices")
                ctx.close(dense(getattr(sim, f"M{loc}" + ("I" if inv else ""))), dense(W), "mass matrix without property", rtol=1e-10)
