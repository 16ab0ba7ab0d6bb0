"""C05: model mappings.  A catalogue of map constructors x options x models; the monitors watch each
map's transform, derivative (formed and applied), inverse, shape and arguments, and compare random
compositions, sums and wires with the same combination computed from the parts.  Independent
definitions of the injections, surjections and parametric shapes serve as reference values."""
import itertools

import numpy as np
import scipy.sparse as sp

from .calc import num_deriv
from .core import case

RULE = "map classes x options x models x compositions; distinct when the map label and the law are new"
REQUIRED = {"derivs": 100, "compositions": 40, "inverses": 20, "structure": 40, "magnitudes": 60, "media": 20}


def dense(A, n=None):
    if sp.issparse(A):
        return A.toarray()
    if isinstance(A, np.ndarray):
        return A
    return A * np.eye(n)  # a number or an identity of any size


def tmesh(rng, dim, lo=3, hi=6, base=10.0, origin=None):
    from discretize import TensorMesh

    h = [base * rng.uniform(0.5, 1.5, int(rng.integers(lo, hi))) for _ in range(dim)]
    return TensorMesh(h, origin=[-x.sum() * rng.uniform(0.2, 0.8) for x in h] if origin is None else origin)


def treemesh(rng, n=8, base=10.0, dim=3, seeds=None):
    from discretize import TreeMesh

    m = TreeMesh([np.full(n, base)] * dim, origin=[-n * base / 2] * dim, diagonal_balance=True)
    if seeds is None:
        seeds = rng.uniform(-n * base / 2 * 0.8, n * base / 2 * 0.8, (2, dim))
    m.insert_cells(seeds, np.full(len(seeds), m.max_level), finalize=True)
    return m


def act(rng, n):
    a = rng.random(n) < 0.6
    a[0], a[-1] = True, False
    return a


def catalogue(rng):
    """yield (label, builder, model, options). builder makes a new instance each time."""
    from simpeg import maps

    out = []
    add = lambda lab, mk, m, **kw: out.append((lab, mk, np.asarray(m, dtype=float), kw))
    for dim in (1, 2, 3):
        ms = tmesh(rng, dim)
        nC = ms.nC
        x = rng.uniform(0.2, 2.0, nC)
        a = act(rng, nC)
        for nm, arg in (("mesh", dict(mesh=ms)), ("nP", dict(nP=nC)), ("star", {})):
            add(f"Identity/{nm}", lambda arg=arg: maps.IdentityMap(**arg), x)
            for cls in (maps.ExpMap, maps.LogMap, maps.ReciprocalMap, maps.ChiMap, maps.MuRelative):
                add(f"{cls.__name__}/{nm}", lambda cls=cls, arg=arg: cls(**arg), x, inv=True)
            lo, up = rng.uniform(-2, 0, nC), rng.uniform(0.5, 2, nC)
            if nm == "star":
                lo, up = lo[0], up[0]
            add(f"LogisticSigmoidMap/{nm}", lambda lo=lo, up=up, arg=arg: maps.LogisticSigmoidMap(lower_bound=lo, upper_bound=up, **arg),
                rng.uniform(-2, 2, nC), inv=True)
            add(f"EffectiveSusceptibilityMap/{nm}", lambda arg=arg, B=rng.uniform(1, 5e4): maps.EffectiveSusceptibilityMap(B, **arg), x, inv=True)
        w = rng.uniform(0.2, 3, nC)
        add("Weighting", lambda nC=nC, w=w: maps.Weighting(nP=nC, weights=w), x, inv=True)
        add("Weighting/mesh", lambda ms=ms, w=w: maps.Weighting(mesh=ms, weights=w), x, inv=True)
        add("Linear", lambda A=rng.standard_normal((4, nC)): maps.LinearMap(A), x)
        add("Linear/b", lambda A=sp.random(6, nC, 0.4, format="csr", random_state=int(rng.integers(2**31))), b=rng.standard_normal(6): maps.LinearMap(A, b), x)
        idx = rng.permutation(nC)[: max(1, nC // 2)]
        add("Projection/idx", lambda nC=nC, idx=idx: maps.Projection(nC, idx), x)
        add("Projection/slice", lambda nC=nC: maps.Projection(nC, slice(0, None, 2)), x)
        add("Projection/bool", lambda nC=nC, a=a: maps.Projection(nC, a), x)
        add("Inject/0", lambda ms=ms, a=a: maps.InjectActiveCells(ms, a), x[a], inv=True)
        add("Inject/val", lambda ms=ms, a=a: maps.InjectActiveCells(ms, a, value_inactive=-3.5), x[a], inv=True)
        vi = rng.standard_normal((~a).sum())
        add("Inject/arr", lambda ms=ms, a=a, vi=vi: maps.InjectActiveCells(ms, np.where(a)[0], value_inactive=vi), x[a], inv=True)
        add("SurjectFull", lambda ms=ms: maps.SurjectFull(ms), x[:1])
        if dim > 1:
            add("SurjectVertical1D", lambda ms=ms: maps.SurjectVertical1D(ms), x[: ms.shape_cells[-1]])
        units = rng.integers(0, 3, nC)
        units[:3] = [0, 1, 2]
        add("SurjectUnits", lambda ms=ms, units=units: maps.SurjectUnits([units == k for k in range(3)], mesh=ms), x[:3])
        ms2 = tmesh(rng, dim)
        xx = rng.uniform(0.2, 2, ms2.nC)
        add("Mesh2Mesh", lambda ms=ms, ms2=ms2: maps.Mesh2Mesh([ms, ms2]), xx)
        add(f"Mesh2Mesh/active/{dim}", lambda ms=ms, ms2=ms2, a=a: maps.Mesh2Mesh([ms, ms2], active_cells=a), xx)
        add("Spherical", lambda ms=ms: maps.SphericalSystem(nP=3 * ms.nC),
            np.r_[rng.uniform(0.3, 2, nC), rng.uniform(-1.4, 1.4, nC), rng.uniform(-3, 3, nC)], inv=True, itol=1e-7)
        add("Complex", lambda nC=nC: maps.ComplexMap(nP=2 * nC), np.r_[x, -x], cplx=True)
        add("SCEM", lambda nC=nC: maps.SelfConsistentEffectiveMedium(nP=nC, sigma0=0.1, sigma1=1.0, rel_tol=1e-9, maxIter=500), rng.uniform(0.1, 0.9, nC), inv=True, loose=1e-5)
        add("SCEM/alpha", lambda nC=nC, al=float(rng.choice([0.3, 0.6, 2.0, 5.0])): maps.SelfConsistentEffectiveMedium(nP=nC, sigma0=0.2, sigma1=0.8, alpha0=0.5, alpha1=al, rel_tol=1e-9, maxIter=500),
            rng.uniform(0.1, 0.9, nC), inv=True, loose=1e-5)
        # parametric shapes
        c = (ms.cell_centers if dim > 1 else ms.cell_centers[:, None]).mean(axis=0) + rng.uniform(-4, 4, dim)
        for nm, av in (("all", None), ("active", a)):
            d = rng.uniform(15, 30, dim)
            mb = np.r_[rng.uniform(-1, 1, 2), np.c_[c, d].ravel()]
            sl = float(rng.uniform(0.3, 3))
            add(f"ParametricBlock/{dim}/{nm}", lambda ms=ms, av=av, sl=sl, p=float(rng.choice([2, 4, 7, 10])): maps.ParametricBlock(ms, active_cells=av, slope=sl, p=p), mb, nocomp=True)
            add(f"ParametricEllipsoid/{dim}/{nm}", lambda ms=ms, av=av, sl=sl: maps.ParametricEllipsoid(ms, active_cells=av, slope=sl), mb, nocomp=True)
            if dim > 1:
                add(f"ParametricLayer/{dim}/{nm}", lambda ms=ms, av=av, sl=sl / 10: maps.ParametricLayer(ms, active_cells=av, slope=sl), np.r_[rng.uniform(-1, 1, 2), c[-1], d[-1]], nocomp=True)
                extra = [c[0], d[0]] if dim == 2 else [c[0], c[1], d[0], d[1]]
                add(f"ParametricBlockInLayer/{dim}/{nm}", lambda ms=ms, av=av, sl=sl / 10: maps.ParametricBlockInLayer(ms, active_cells=av, slope=sl), np.r_[rng.uniform(-1, 1, 3), c[-1], d[-1], extra], nocomp=True)
        for log in (True, False):
            if dim == 2:
                add(f"ParametricCircle/log={log}", lambda ms=ms, log=log: maps.ParametricCircleMap(ms, logSigma=log, slope=0.2), np.r_[-1.2, 0.4, c, 12.0], nocomp=True)
                for nrm in "xy":
                    o = int(rng.integers(1, 4))
                    co = rng.uniform(-1, 1, o + 1) / 10.0 ** np.arange(o + 1)
                    co[0] += c["xy".index(nrm)]
                    add(f"ParametricPoly/2/{nrm}/log={log}", lambda ms=ms, o=o, log=log, nrm=nrm, a=a: maps.ParametricPolyMap(ms, o, logSigma=log, normal=nrm, slope=0.05, active_cells=a), np.r_[-1.0, 0.3, co], nocomp=True)
                    t = "yx"["xy".index(nrm)]
                    nodes = ms.nodes_x if t == "x" else ms.nodes_y
                    pts = np.linspace(nodes[0], nodes[-1], 5)
                    add(f"ParametricSpline/2/{nrm}/log={log}", lambda ms=ms, pts=pts, log=log, nrm=nrm, k=int(rng.integers(1, 4)): maps.ParametricSplineMap(ms, pts, order=k, logSigma=log, normal=nrm, slope=0.05),
                        np.r_[-1.0, 0.3, c["xy".index(nrm)] + rng.uniform(-5, 5, 5)], nocomp=True)
            if dim == 3:
                for nrm in "xyz":
                    o = rng.integers(0, 3, 2)
                    if nrm == "x":
                        o = np.r_[1, 2]
                    k1, k2 = np.meshgrid(np.arange(o[0] + 1), np.arange(o[1] + 1), indexing="ij")
                    co = (rng.uniform(-1, 1, k1.shape) / 10.0 ** (k1 + k2)).ravel(order="F")
                    co[0] += c["xyz".index(nrm)]
                    add(f"ParametricPoly/3/{nrm}/log={log}", lambda ms=ms, o=o, log=log, nrm=nrm: maps.ParametricPolyMap(ms, o, logSigma=log, normal=nrm, slope=0.05), np.r_[-1.0, 0.3, co], nocomp=True)
                pts = np.linspace(ms.nodes_y[0], ms.nodes_y[-1], 5)
                add(f"ParametricSpline/3/log={log}", lambda ms=ms, pts=pts, log=log: maps.ParametricSplineMap(ms, pts, ptsv=np.r_[ms.nodes_z[0], ms.nodes_z[-1]], logSigma=log, normal="x", slope=0.05),
                    np.r_[-1.0, 0.3, c[0] + rng.uniform(-5, 5, 10)], nocomp=True)
        if dim == 3:
            for nrm in "xyz":
                sh = np.delete(np.array(ms.shape_cells), "xyz".index(nrm))
                add(f"Surject2Dto3D/{nrm}", lambda ms=ms, nrm=nrm: maps.Surject2Dto3D(ms, normal=nrm), rng.uniform(0.2, 2, sh.prod()))
            from discretize import CylindricalMesh

            cyl = CylindricalMesh([np.full(8, 2.0), [2 * np.pi], np.full(10, 5.0)], origin=[0, 0, -35.0])
            add("CasingAndLayer", lambda cyl=cyl: maps.ParametricCasingAndLayer(cyl, slope=0.4), np.r_[0.1, 0.5, 3.0, -1.0, -12.0, 10.0, 6.0, 3.0, -20.0, 0.0], nocomp=True)
            add("SurjectVertical1D/cyl", lambda cyl=cyl: maps.SurjectVertical1D(cyl), rng.uniform(0.2, 2, 10))
            seeds = rng.uniform(-30, 30, (3, 3))
            g = treemesh(rng, seeds=seeds)
            l = treemesh(rng, seeds=seeds[:1])
            ga = g.cell_centers[:, 2] < 10
            for k in (1, 3):
                add(f"TileMap/{k}", lambda g=g, l=l, ga=ga, k=k: maps.TileMap(g, ga, l, components=k), rng.uniform(0.2, 2, k * ga.sum()))
    return out


def judge(ctx, lab, mk, m, itol=1e-9, inv=False, cplx=False, loose=0.0, nocomp=False):
    rng = ctx.rng
    ctx.label(lab)
    mp = mk()
    m0 = m.copy()
    v = rng.standard_normal(m.size) * np.maximum(np.abs(m), 0.1)
    v0 = v.copy()
    # derivative before any transform, on a new object
    D0 = dense(mk().deriv(m.copy()), m.size)
    y = np.array(mp * m)
    D = mp.deriv(m)
    Dd = dense(D, m.size)
    ctx.event("derivs")
    shp = mp.shape
    ctx.check(all(s == "*" or s == t for s, t in zip(shp, (y.size, m.size))) and (mp.nP == "*" or mp.nP == m.size), "declared shape is not the shape produced", f"{shp} nP={mp.nP} made {y.shape} from {m.shape}")
    if not ctx.check(Dd.shape == (y.size, m.size), "shape of the derivative", f"{Dd.shape} for {(y.size, m.size)}"):
        return
    ctx.close(D0, Dd, "derivative depends on history", rtol=max(1e-12, loose))
    Dv = Dd @ v
    S, err, f0, h = num_deriv(lambda x: np.array(mp * x), m, v, 1e-3)
    sc = np.linalg.norm(S) + np.linalg.norm(Dv)
    tol = max(2e-6, loose) * sc + 3 * np.linalg.norm(err) + 2e-12 * np.linalg.norm(f0) / h + loose * np.linalg.norm(f0)
    if ctx.check(np.linalg.norm(Dv - S) <= tol, "derivative is not the Jacobian of the transform", f"|Dv-num|={np.linalg.norm(Dv-S):.3e} |num|={np.linalg.norm(S):.3e} tol={tol:.2e}"):
        # entry by entry, one column at a time
        for k in ([int(rng.integers(m.size)) for _ in range(2)] if m.size > 12 else range(m.size)):
            e = np.zeros(m.size)
            e[k] = max(abs(m[k]), 0.1)
            S, err, f0, h = num_deriv(lambda x: np.array(mp * x), m, e, 1e-3)
            d = Dd @ e
            tol = max(2e-6, loose) * np.linalg.norm(S) + 3 * np.linalg.norm(err) + 2e-12 * np.linalg.norm(f0) / h + loose * np.linalg.norm(f0)
            ctx.check(np.linalg.norm(d - S) <= tol, "derivative is not the Jacobian of the transform", f"column {k}: {np.linalg.norm(d-S):.3e} of {np.linalg.norm(S):.3e}")
    ctx.close(np.asarray(mp.deriv(m, v=v)).ravel(), Dv, "deriv(m, v) is not deriv(m) @ v", rtol=1e-10)
    ctx.check(np.array_equal(v, v0) and np.array_equal(m, m0), "arguments are modified")
    # another model and back; in-place reuse of the caller's array
    m2 = m * (1 + 0.1 * rng.random(m.size))
    y2, D2 = np.array(mk() * m2), dense(mk().deriv(m2), m.size)
    buf = m.copy()
    mp * buf, mp.deriv(buf)
    buf[:] = m2
    ctx.close(np.array(mp * buf), y2, "transform depends on history", rtol=max(1e-12, loose))
    ctx.close(dense(mp.deriv(buf), m.size), D2, "derivative depends on history", rtol=max(1e-12, loose))
    ctx.close(np.array(mp * m), y, "transform depends on history", rtol=max(1e-12, loose))
    for nm, f in (("dot", mp.dot), ("@", mp.__matmul__)):
        ctx.close(np.asarray(f(m)), y, f"{nm} is not *", rtol=max(1e-12, loose))
    if mp.is_linear:
        z = np.zeros(m.size)
        a_ = np.array(mp * (m + 2 * v)) - np.array(mp * m)
        b_ = 2 * (np.array(mp * v) - np.array(mp * z))
        ctx.close(a_, b_, "mapping calls itself linear and is not", rtol=1e-9, scale=np.abs(y).max() + np.abs(a_).max())
    if inv:
        ctx.event("inverses")
        ctx.close(np.asarray(mp.inverse(y)).ravel(), m, "inverse does not undo the transform", rtol=max(itol, loose * 10))
    return mp


NCH = 8


def make(c):
    def run(ctx):
        cat = catalogue(ctx.rng)
        for i, (lab, mk, m, kw) in enumerate(cat):
            if i % NCH == c:
                ctx.label(lab)
                with ctx.guard():
                    judge(ctx, lab, mk, m, **kw)
    case("C05", f"laws.{c}", quick=1, thorough=25)(run)


for _c in range(NCH):
    make(_c)


@case("C05", "compose", quick=6, thorough=120)
def compose(ctx):
    from simpeg import maps

    rng = ctx.rng
    cat = [(l, mk, m, kw) for l, mk, m, kw in catalogue(rng) if not kw.get("cplx") and not kw.get("loose")]
    pos = [c for c in cat if not c[3].get("nocomp")]
    for _ in range(ctx.n(20, 40)):
        # a chain m -> g -> ... built outwards from a random inner map
        lab, mk, m, kw = cat[int(rng.integers(len(cat)))]
        inner = mk()
        parts = [inner]
        labs = [lab]
        y = np.array(inner * m)
        for _k in range(int(rng.integers(1, 4))):
            # keep values in the domain of every outer map
            n = y.size
            opts = [lambda n=n: maps.ExpMap(nP=n), lambda n=n: maps.ExpMap(), lambda n=n: maps.IdentityMap(), lambda n=n: maps.ChiMap(nP=n), lambda n=n: maps.ChiMap(),
                    lambda n=n: maps.MuRelative(), lambda n=n: maps.LogisticSigmoidMap(lower_bound=-1.0, upper_bound=2.0), lambda n=n: maps.LogisticSigmoidMap(nP=n, lower_bound=-1.0, upper_bound=2.0),
                    lambda n=n: maps.Projection(n, rng.integers(0, n, max(1, n // 2))), lambda n=n: maps.LinearMap(sp.csr_matrix(rng.standard_normal((3, n))), rng.standard_normal(3)),
                    lambda n=n: maps.LinearMap(rng.standard_normal((3, n))), lambda n=n: maps.Weighting(nP=n, weights=rng.uniform(0.5, 2, n))]
            k = int(rng.integers(len(opts)))
            if np.abs(y).max() > 30 and k < 2:
                k = 6
            o = opts[k]()
            parts.insert(0, o)
            labs.insert(0, type(o).__name__)
            y = np.array(o * y)
        ctx.label("*".join(labs))
        with ctx.guard():
            if rng.random() < 0.5:
                combo = parts[0]
                for p in parts[1:]:
                    combo = combo * p  # left associated
            else:
                combo = parts[-1]
                for p in parts[-2::-1]:
                    combo = p * combo  # right associated
            ctx.event("compositions")
            v = rng.standard_normal(m.size)
            v0 = v.copy()
            ctx.close(np.array(combo * m), y, "composition is not successive application", rtol=1e-12)
            J, x = np.eye(m.size), m
            for p in parts[::-1]:
                J = dense(p.deriv(x), x.size) @ J
                x = np.array(p * x)
            ctx.close(dense(combo.deriv(m), m.size), J, "derivative of a composition is not the chain rule", rtol=1e-10)
            ctx.close(np.asarray(combo.deriv(m, v=v)).ravel(), J @ v, "derivative of a composition applied to a vector", rtol=1e-10, scale=np.abs(J @ v).max() + np.abs(J).max())
            ctx.check(np.array_equal(v, v0), "arguments are modified")
            s = combo.shape
            ctx.check(s[1] in ("*", m.size) and s[0] in ("*", y.size), "declared shape is not the shape produced", f"{s} for {(y.size, m.size)}")
            if combo.is_linear:
                v = rng.standard_normal(m.size)
                a_ = np.array(combo * (m + v)) - np.array(combo * m)
                ctx.close(a_, J @ v, "mapping calls itself linear and is not", rtol=1e-8, scale=np.abs(y).max() + np.abs(a_).max())
        # sums of 2-4 maps of the same shape
        n = int(rng.integers(2, 7))
        x = rng.uniform(0.3, 1.5, n)
        mks = [lambda: maps.IdentityMap(nP=n), lambda: maps.ExpMap(nP=n), lambda: maps.LogMap(nP=n), lambda: maps.ReciprocalMap(nP=n), lambda: maps.ChiMap(nP=n), lambda: maps.MuRelative(nP=n),
               lambda: maps.LogisticSigmoidMap(nP=n, lower_bound=-1.0, upper_bound=2.0), lambda: maps.Weighting(nP=n, weights=rng.uniform(0.5, 2, n)), lambda: maps.LinearMap(sp.csr_matrix(rng.standard_normal((n, n)))),
               lambda: maps.LinearMap(rng.standard_normal((n, n)), rng.standard_normal(n)), lambda: maps.Projection(n, rng.permutation(n)), lambda: maps.ExpMap(nP=n) * maps.Weighting(nP=n, weights=rng.uniform(0.5, 1, n)),
               lambda: maps.EffectiveSusceptibilityMap(3.0, nP=n)]
        ms = [mks[int(rng.integers(len(mks)))]() for _ in range(int(rng.integers(2, 5)))]
        ctx.label("+".join(type(q).__name__ for q in ms))
        with ctx.guard():
            S = maps.SumMap(ms) if rng.random() < 0.5 else ms[0] + ms[1]
            if not isinstance(S, maps.SumMap) or len(S.maps) == 2:
                ms = ms[:2]
                S = ms[0] + ms[1]
            ctx.event("compositions")
            x0, v = x.copy(), rng.standard_normal(n)
            v0 = v.copy()
            D = sum(dense(q.deriv(x), n) for q in ms)
            ctx.close(np.array(S * x), sum(np.array(q * x) for q in ms), "sum is not the sum of the transforms", rtol=1e-12)
            ctx.close(dense(S.deriv(x), n), D, "derivative of a sum is not the sum of derivatives", rtol=1e-12)
            ctx.close(np.asarray(S.deriv(x, v=v)).ravel(), D @ v0, "derivative of a sum applied to a vector", rtol=1e-11, scale=np.abs(D).max())
            ctx.check(np.array_equal(x, x0) and np.array_equal(v, v0), "arguments are modified")
            P = maps.ExpMap(nP=n) * S
            ctx.close(dense(P.deriv(x), n), np.diag(np.exp(S * x)) @ D, "derivative of a composition is not the chain rule", rtol=1e-11)
        # wires
        k = int(rng.integers(2, 5))
        sizes = rng.integers(1, 6, k)
        W = maps.Wires(*[(f"w{i}", int(s)) for i, s in enumerate(sizes)])
        x = rng.standard_normal(sizes.sum())
        ctx.label(f"wires {sizes.tolist()}")
        with ctx.guard():
            ctx.event("compositions")
            tup = W * x
            off = np.r_[0, np.cumsum(sizes)]
            ok = W.nP == x.size
            for i in range(k):
                ref = x[off[i]: off[i + 1]]
                w = getattr(W, f"w{i}")
                ok &= np.array_equal(tup[i], ref) and np.array_equal(getattr(tup, f"w{i}"), ref) and np.array_equal(w * x, ref) and w.shape == (sizes[i], x.size)
                ok &= np.array_equal(dense(w.deriv(x)), np.eye(x.size)[off[i]: off[i + 1]])
                e = maps.ExpMap(nP=int(sizes[i])) * w
                ok &= np.allclose(e * x, np.exp(ref)) and np.allclose(dense(e.deriv(x)), np.diag(np.exp(ref)) @ np.eye(x.size)[off[i]: off[i + 1]])
            ctx.check(ok, "wires do not select their part of the model")
        # incompatible compositions are refused
        ctx.label("mismatch")
        ctx.raises(Exception, lambda: maps.ExpMap(nP=n) * maps.ExpMap(nP=n + 1), "incompatible mappings are combined")
        ctx.raises(Exception, lambda: maps.ExpMap(nP=n) * np.ones(n + 1), "incompatible mappings are combined")
        ctx.raises(Exception, lambda: maps.SumMap([maps.ExpMap(nP=n), maps.ExpMap(nP=n + 1)]), "incompatible mappings are combined")


@case("C05", "structure", quick=4, thorough=60)
def structure(ctx):
    from simpeg import maps
    from scipy.constants import mu_0

    rng = ctx.rng
    for _ in range(ctx.n(3, 6)):
        for dim in (1, 2, 3):
            ms = tmesh(rng, dim)
            nC = ms.nC
            cc = ms.cell_centers.reshape(nC, -1)
            ctx.event("structure")
            ctx.label(f"dim {dim}")
            a = act(rng, nC)
            m = rng.standard_normal(a.sum())
            vi = rng.standard_normal((~a).sum())
            ref = np.empty(nC)
            ref[a], ref[~a] = m, vi
            with ctx.guard():
                ctx.close(maps.InjectActiveCells(ms, a, value_inactive=vi) * m, ref, "injected values", rtol=0)
                J = maps.InjectActiveCells(ms, a, value_inactive=vi)
                ctx.close(J * np.c_[m, 2 * m], np.c_[ref, np.where(a, 2 * ref, ref)], "injected values", rtol=1e-14)
                J.value_inactive = 7.5
                ref[~a] = 7.5
                ctx.close(J * m, ref, "injected values", rtol=0)
                a2 = np.roll(a, 1)
                J = maps.InjectActiveCells(ms, a, value_inactive=1.0)
            x = rng.uniform(0.5, 2, nC)
            with ctx.guard():
                ctx.close(maps.ChiMap(nP=nC) * x, mu_0 * (1 + x), "permeability of a susceptibility", rtol=1e-14)
                ctx.close(maps.MuRelative(nP=nC) * x, mu_0 * x, "permeability of a relative permeability", rtol=1e-14)
                ctx.close(maps.LogMap(nP=nC) * x, np.log(x), "logarithm", rtol=1e-14)
                ctx.close(maps.ExpMap(nP=nC) * x, np.exp(x), "exponential", rtol=1e-14)
                ctx.close(maps.ReciprocalMap(nP=nC) * x, 1 / x, "reciprocal", rtol=1e-14)
                ctx.close(maps.EffectiveSusceptibilityMap(50.0, nP=nC) * x, 50 * x, "magnetization of a susceptibility", rtol=1e-14)
                lo, up = rng.uniform(-2, 0, nC), rng.uniform(0.5, 2, nC)
                y = maps.LogisticSigmoidMap(nP=nC, lower_bound=lo, upper_bound=up) * (x - 1)
                ctx.close(y, lo + (up - lo) / (1 + np.exp(-(x - 1))), "sigmoid", rtol=1e-12)
                ctx.close(maps.ComplexMap(nP=2 * nC) * np.r_[x, -x], x - 1j * x, "complex", rtol=0)
                ctx.close(maps.SurjectFull(ms) * np.r_[2.5], np.full(nC, 2.5), "surjections", rtol=0)
                un = rng.integers(0, 4, nC)
                un[:4] = range(min(4, nC))
                lst = [un == k for k in (0, 1, 2)]  # the last unit is nowhere
                ctx.close(maps.SurjectUnits(lst, mesh=ms) * np.r_[3.0, -1.0, 2.0], np.r_[3.0, -1.0, 2.0, 0.0][un], "surjections", rtol=0)
            if dim > 1:
                z = cc[:, -1]
                zs = np.unique(z)
                col = rng.standard_normal(zs.size)
                with ctx.guard():
                    ctx.close(maps.SurjectVertical1D(ms) * col, col[np.searchsorted(zs, z)], "surjections", rtol=0)
            if dim == 3:
                for k, nrm in enumerate("xyz"):
                    o = [i for i in range(3) if i != k]
                    A = rng.standard_normal([ms.shape_cells[i] for i in o])
                    ii = [np.searchsorted(np.unique(cc[:, i]), cc[:, i]) for i in o]
                    with ctx.guard():
                        ctx.close(maps.Surject2Dto3D(ms, normal=nrm) * A.ravel(order="F"), A[ii[0], ii[1]], "surjections", rtol=0)
            # interpolation between meshes reproduces linear functions inside the source grid
            from discretize import TensorMesh

            fine = TensorMesh([np.full(12, 5.0)] * dim, origin=[-30.0] * dim)
            coarse = TensorMesh([np.full(4, 8.0)] * dim, origin=[-16.0] * dim)
            g = rng.standard_normal(dim)
            f = lambda mm: mm.cell_centers.reshape(mm.nC, -1) @ g + 1.3
            with ctx.guard():
                ctx.close(maps.Mesh2Mesh([coarse, fine]) * f(fine), f(coarse), "interpolated values", rtol=1e-9)
                al = act(rng, coarse.nC)
                ctx.close(maps.Mesh2Mesh([coarse, fine], active_cells=al) * f(fine), f(coarse)[al], "interpolated values", rtol=1e-9)
            # parametric shapes at high slope
            c = cc.mean(axis=0)
            d = (cc.max(axis=0) - cc.min(axis=0)) * 0.6 + 4.3
            far = lambda t: np.abs(t) > 0.2
            with ctx.guard():
                mb = np.r_[0.3, 2.0, np.c_[c, d].ravel()]
                q = (np.abs((cc - c) / (0.5 * d)) ** 10).sum(axis=1)
                y = maps.ParametricBlock(ms, slope=1e6) * mb
                ok = far(q - 1)
                ctx.close(y[ok], np.where(q < 1, 2.0, 0.3)[ok], "parametric shapes", rtol=1e-4)
                q = (((cc - c) / (0.5 * d)) ** 2).sum(axis=1)
                y = maps.ParametricEllipsoid(ms, slope=1e6) * mb
                ok = far(q - 1)
                ctx.close(y[ok], np.where(q < 1, 2.0, 0.3)[ok], "parametric shapes", rtol=1e-4)
                if dim > 1:
                    z = cc[:, -1]
                    inl = np.abs(z - c[-1]) < d[-1] / 2
                    ok = far(np.abs(z - c[-1]) - d[-1] / 2)
                    y = maps.ParametricLayer(ms, slope=1e6) * np.r_[0.3, 2.0, c[-1], d[-1]]
                    ctx.close(y[ok], np.where(inl, 2.0, 0.3)[ok], "parametric shapes", rtol=1e-4)
                    hd = d[:-1] * 0.5
                    q = np.max(np.abs(cc[:, :-1] - c[:-1]) - hd / 2, axis=1)
                    ok = ok & np.all(far(np.abs(cc[:, :-1] - c[:-1]) - hd / 2), axis=1)
                    y = maps.ParametricBlockInLayer(ms, slope=1e6) * np.r_[0.3, 2.0, 5.0, c[-1], d[-1], c[:-1], hd]
                    ctx.close(y[ok], np.where(inl & (q < 0), 5.0, np.where(inl, 2.0, 0.3))[ok], "parametric shapes", rtol=1e-4)
        # the local cell of a tile holds the volume average of the active cells in it
        ctx.label("tile")
        ctx.event("structure")
        seeds = rng.uniform(-30, 30, (3, 3))
        g, l = treemesh(rng, seeds=seeds), treemesh(rng, seeds=seeds[:1])
        ga = g.cell_centers[:, 2] < rng.uniform(-5, 25)
        with ctx.guard():
            T = maps.TileMap(g, ga, l)
            m = rng.standard_normal(ga.sum())
            ind = l.get_containing_cells(g.cell_centers)
            V = g.cell_volumes * ga
            full = np.zeros(g.nC)
            full[ga] = m
            num = np.bincount(ind, V * full, minlength=l.nC)
            la = np.bincount(ind, V, minlength=l.nC) > 0
            ctx.check(np.array_equal(T.local_active, la), "active cells of a tile")
            ctx.close(T * m, (num / l.cell_volumes)[la], "values of a tile", rtol=1e-12)


@case("C05", "reassign", quick=2, thorough=20)
def reassign(ctx):
    """changing an option of a map acts like building a map with that option."""
    from simpeg import maps

    rng = ctx.rng
    for dim in (2, 3):
        ms = tmesh(rng, dim)
        a, b = act(rng, ms.nC), act(rng, ms.nC)[::-1].copy()
        c = ms.cell_centers.mean(axis=0)
        d = rng.uniform(15, 30, dim)
        mb = np.r_[0.2, 1.0, np.c_[c, d].ravel()]
        ml = np.r_[0.2, 1.0, c[-1], d[-1]]
        ms2 = tmesh(rng, dim)
        x2 = rng.standard_normal(ms2.nC)
        n = ms.nC
        lst = [
            ("block active", lambda s: maps.ParametricBlock(ms, active_cells=s, slope=1.0), "active_cells", a, b, mb),
            ("layer active", lambda s: maps.ParametricLayer(ms, active_cells=s, slope=0.2), "active_cells", a, b, ml),
            ("layer active none", lambda s: maps.ParametricLayer(ms, active_cells=s, slope=0.2), "active_cells", None, b, ml),
            ("layer slope", lambda s: maps.ParametricLayer(ms, slope=s), "slope", 0.3, 1.7, ml),
            ("layer slopeFact", lambda s: maps.ParametricLayer(ms, slopeFact=s), "slopeFact", 0.3, 1.7, ml),
            ("block p", lambda s: maps.ParametricBlock(ms, p=s), "p", 2.0, 6.0, mb),
            ("mesh2mesh active", lambda s: maps.Mesh2Mesh([ms, ms2], active_cells=s), "active_cells", a, b, x2),
            ("mesh2mesh", lambda s: maps.Mesh2Mesh([ms, s]), "mesh2", ms2, ms2.copy() if hasattr(ms2, "copy") else ms2, x2),
            ("scem", lambda s: maps.SelfConsistentEffectiveMedium(nP=4, sigma0=s, sigma1=1.0, rel_tol=1e-9, maxIter=500), "sigma0", 0.1, 0.01, rng.uniform(0.2, 0.8, 4)),
            ("units", lambda s: maps.SurjectUnits(s, mesh=ms), "indices", [a, ~a], [b, ~b], np.r_[2.0, 3.0]),
            ("units order", lambda s: maps.SurjectUnits(s, mesh=ms), "indices", [a, ~a], [~a, a], np.r_[2.0, 3.0]),
            ("linear A", lambda s: maps.LinearMap(s), "A", np.ones((3, n)), rng.standard_normal((3, n)), rng.standard_normal(n)),
            ("circle", lambda s: maps.ParametricCircleMap(ms, slope=s) if dim == 2 else maps.ParametricLayer(ms, slope=s), "slope", 0.1, 0.7, np.r_[0.1, 1.0, c, 12.0] if dim == 2 else ml),
            ("poly active", lambda s: maps.ParametricPolyMap(ms, 1 if dim == 2 else [1, 1], active_cells=s, slope=0.1, normal="y"), "active_cells", a, b, np.r_[0.1, 1.0, c[1], 0.1] if dim == 2 else np.r_[0.1, 1.0, c[1], 0.1, 0.2, 0.01]),
        ]
        for lab, mk, attr, v1, v2, m in lst:
            ctx.label(f"reassign {lab} {dim}")
            with ctx.guard():
                p = mk(v1)
                p * m, p.deriv(m)
                setattr(p, attr, v2)
                q = mk(v2)
                ctx.event("reassigned")
                ctx.check(tuple(p.shape) == tuple(q.shape), "shape after an option is changed", f"{p.shape} {q.shape}")
                ctx.close(np.asarray(p * m), np.asarray(q * m), "transform after an option is changed", rtol=1e-7)
                ctx.close(dense(p.deriv(m)), dense(q.deriv(m)), "derivative after an option is changed", rtol=1e-6)


@case("C05", "magnitudes", quick=2, thorough=40)
def magnitudes(ctx):
    """elementwise mappings over the whole range of numbers, each element judged relative to itself."""
    from scipy.constants import mu_0
    from scipy.special import expit
    from simpeg import maps

    rng = ctx.rng
    for _ in range(ctx.n(6, 12)):
        n = int(rng.integers(2, 9))
        big = lambda e: rng.choice([-1, 1], n) * 10.0 ** rng.uniform(-e, e, n)
        lo, up = np.sort(big(9).reshape(1, -1).repeat(2, 0) * np.array([[0.3], [1.7]]), axis=0)
        if rng.random() < 0.3:
            lo, up = up, lo
        B = 10 ** rng.uniform(0, 5)
        table = [
            ("Exp", maps.ExpMap(nP=n), rng.uniform(-650, 650, n), np.exp, np.exp, True),
            ("Log", maps.LogMap(nP=n), np.abs(big(14)), np.log, lambda x: 1 / x, True),
            ("Reciprocal", maps.ReciprocalMap(nP=n), big(14), lambda x: 1 / x, lambda x: -1 / x**2, True),
            ("ChiMap", maps.ChiMap(nP=n), big(5), lambda x: mu_0 * (1 + x), lambda x: mu_0 * np.ones(n), False),
            ("MuRelative", maps.MuRelative(nP=n), big(10), lambda x: mu_0 * x, lambda x: mu_0 * np.ones(n), True),
            ("Sigmoid", maps.LogisticSigmoidMap(nP=n, lower_bound=lo, upper_bound=up), rng.uniform(-14, 14, n), lambda x: lo + (up - lo) * expit(x), lambda x: (up - lo) * expit(x) * expit(-x), False),
            ("EffectiveSusceptibility", maps.EffectiveSusceptibilityMap(B, nP=n), big(9), lambda x: x * B, lambda x: np.ones(n) * B, True),
            ("Weighting", maps.Weighting(nP=n, weights=np.abs(lo)), big(9), lambda x: np.abs(lo) * x, lambda x: np.abs(lo), True),
        ]
        for nm, mp, x, f, g, inv in table:
            ctx.label("magnitudes", nm)
            with ctx.guard():
                ctx.event("magnitudes")
                x0 = x.copy()
                y, d = mp * x, g(x)
                tiny = lambda a, b, r: np.all(np.abs(a - b) <= r * np.abs(b))
                rt = 1e-12 if nm not in ("Sigmoid", "ChiMap", "Exp") else 1e-9
                sc = np.maximum(np.abs(lo), np.abs(up)) if nm == "Sigmoid" else (np.abs(f(x)) + mu_0 * (nm == "ChiMap"))
                ctx.check(np.all(np.abs(y - f(x)) <= rt * sc), "value over all magnitudes", f"{x} {y} {f(x)}")
                D = dense(mp.deriv(x), n)
                ctx.check(tiny(np.diag(D), d, 1e-9), "derivative over all magnitudes", f"{x} {np.diag(D)} {d}")
                ctx.check(np.count_nonzero(D - np.diag(np.diag(D))) == 0, "elementwise derivative is diagonal")
                v = big(6)
                ctx.check(tiny(mp.deriv(x, v), d * v, 1e-9), "derivative product over all magnitudes")
                if inv:
                    tol = 1e-9 * np.abs(x) + (1e-12 if nm in ("Log", "Exp") else 0.0)
                    ctx.check(np.all(np.abs(mp.inverse(y) - x) <= tol), "inverse over all magnitudes", f"{x} {mp.inverse(y)}")
                ctx.check(np.array_equal(x, x0), "the model is modified")


@case("C05", "media", quick=2, thorough=10)
def media(ctx):
    """effective media against their bounds and limits, and the polynomial cluster map against polynomials."""
    import warnings

    from simpeg import maps

    warnings.simplefilter("ignore")
    rng = ctx.rng
    for _ in range(ctx.n(8, 20)):
        n = int(rng.integers(2, 7))
        s0, s1 = np.exp(rng.uniform(-3, 2, 2))
        if abs(np.log(s0 / s1)) < 0.1:
            continue
        a0, a1 = (float(rng.choice([1.0, 0.4, 3.0])) for _ in range(2))
        mk = lambda: maps.SelfConsistentEffectiveMedium(nP=n, sigma0=s0, sigma1=s1, alpha0=a0, alpha1=a1, rel_tol=1e-10, maxIter=2000)  # noqa: E731
        ctx.label(f"effective medium {s0:.3g} {s1:.3g} {a0} {a1}")
        ctx.event("media")
        with ctx.guard():
            p = rng.uniform(0.01, 0.99, n)
            y = mk() * p
            lo, hi = mk().wiener_bounds(p)
            ctx.close(hi, (1 - p) * s0 + p * s1, "arithmetic bound", rtol=1e-12)
            ctx.close(lo, 1 / ((1 - p) / s0 + p / s1), "harmonic bound", rtol=1e-12)
            ctx.check(np.all(y >= lo * (1 - 1e-6)) and np.all(y <= hi * (1 + 1e-6)), "effective medium outside of the Wiener bounds", f"{lo} {y} {hi}")
            l2, h2 = mk().hashin_shtrikman_bounds(p)
            smin, smax = min(s0, s1), max(s0, s1)
            pm = p if s1 > s0 else 1 - p  # fraction of the conductive phase
            # Hashin-Shtrikman: coated spheres
            A = smin + pm / (1 / (smax - smin) + (1 - pm) / (3 * smin))
            B = smax + (1 - pm) / (1 / (smin - smax) + pm / (3 * smax))
            ctx.close(np.sort(np.c_[l2, h2], axis=1), np.sort(np.c_[A, B], axis=1), "Hashin-Shtrikman bounds", rtol=1e-9)
            if a0 == a1 == 1.0:
                ctx.check(np.all(y >= np.minimum(A, B) * (1 - 1e-6)) and np.all(y <= np.maximum(A, B) * (1 + 1e-6)), "effective medium of spheres outside of the Hashin-Shtrikman bounds")
            # self consistency of spheres (Bruggeman), cell by cell and limits
            if a0 == a1 == 1.0:
                r = (1 - p) * (s0 - y) / (s0 + 2 * y) + p * (s1 - y) / (s1 + 2 * y)
                ctx.close(r, 0 * r, "effective medium of spheres", rtol=0, atol=1e-6)
            one = np.array([(maps.SelfConsistentEffectiveMedium(nP=1, sigma0=s0, sigma1=s1, alpha0=a0, alpha1=a1, rel_tol=1e-10, maxIter=2000) * p[i:i + 1])[0] for i in range(n)])
            ctx.close(y, one, "effective medium cell by cell", rtol=1e-6)
            ctx.close(mk() * np.r_[np.zeros(n - 1), 1.0], np.r_[np.full(n - 1, s0), s1], "effective medium of a single phase", rtol=1e-5)
            # concentrations beyond the ends count as the ends, the others are untouched
            q = p.copy()
            q[0] = float(rng.choice([-0.3, 1.7]))
            y2 = mk() * q
            ctx.check(np.shape(y2) == (n,), "effective medium with concentrations out of bounds")
            ctx.close(y2, mk() * np.clip(q, 0, 1), "effective medium with concentrations out of bounds", rtol=1e-6)
    for _ in range(ctx.n(6, 12)):
        k = rng.integers(1, 5, 4)
        cf = [rng.uniform(-1, 1, j) for j in k]
        X = rng.uniform(-2, 2, (int(rng.integers(1, 9)), 2))
        ctx.label(f"polynomial cluster map {k}")
        ctx.event("media")
        with ctx.guard():
            mp = maps.PolynomialPetroClusterMap(coeffxx=cf[0], coeffxy=cf[1], coeffyx=cf[2], coeffyy=cf[3])
            P = lambda c, x: sum(ci * x ** i for i, ci in enumerate(c))  # noqa: E731
            want = np.c_[P(cf[0], X[:, 0]) + P(cf[1], X[:, 1]), P(cf[2], X[:, 0]) + P(cf[3], X[:, 1])]
            X0 = X.copy()
            ctx.close(mp * X, want, "polynomial cluster map", rtol=1e-10)
            ctx.check(np.array_equal(X, X0), "polynomial cluster map changes its argument")
            dP = lambda c, x: sum(i * ci * x ** (i - 1) for i, ci in enumerate(c) if i)  # noqa: E731
            x = X[0]
            want = np.array([[dP(cf[0], x[0]), dP(cf[2], x[0])], [dP(cf[1], x[1]), dP(cf[3], x[1])]], dtype=float)
            ctx.close(mp.deriv(X[0]), want, "derivative of a polynomial cluster map at a point", rtol=1e-10)
            d0 = maps.PolynomialPetroClusterMap() * X
            ctx.close(d0, X, "default polynomial cluster map", rtol=1e-14)
