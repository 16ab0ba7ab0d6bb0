"""C25: selections, conversions, weightings and draping against brute-force geometry, cell by cell."""
import numpy as np

from .core import case, quiet

RULE = "every cell / point is classified, converted, weighted or moved as the geometric definition says"
REQUIRED = {"cells": 30000, "points": 2000, "selections": 300, "weightings": 40, "topographies": 30}


def mesh_of(rng, dim, small=False):
    import discretize

    k = int(rng.integers(3)) if dim > 1 else 0
    if k == 2:
        w = [[(float(rng.uniform(1, 3)), 8 if small else 16)] for _ in range(dim)]
        m = discretize.TreeMesh(w, origin=rng.uniform(-20, 0, dim), diagonal_balance=True)
        lo, hi = m.nodes_x[0], m.nodes_x[-1]
        p = np.stack([rng.uniform(n[0], n[-1], 3) for n in (m.nodes_x, m.nodes_y, m.nodes_z)[:dim]], 1)
        m.insert_cells(p, rng.integers(2, 4 if small else 5, 3), finalize=True)
        return m
    h = [rng.uniform(0.5, 3, int(rng.integers(3, 9))) if k == 0 else np.ones(int(rng.integers(3, 9))) for _ in range(dim)]
    return discretize.TensorMesh(h, origin=rng.uniform(-10, 5, dim) if k == 0 else np.zeros(dim))


def centers(mesh):
    return np.atleast_2d(mesh.cell_centers) if mesh.dim > 1 else np.reshape(mesh.cell_centers, (-1, 1))


@case("C25", "selections", quick=12, thorough=120)
def selections(ctx):
    from simpeg.utils import model_builder as mb

    rng = ctx.rng
    for _ in range(ctx.n(8, 12)):
        dim = int(rng.integers(1, 4))
        mesh = mesh_of(rng, dim)
        C = centers(mesh)
        n = mesh.n_cells
        ctx.label(f"{type(mesh).__name__} {dim}D")
        given = mesh if rng.integers(2) else mesh.cell_centers
        lo, hi = C.min(0), C.max(0)
        pick = lambda: np.where(rng.random(dim) < 0.3, C[rng.integers(n)], rng.uniform(lo - 1, hi + 1))
        p0, p1 = pick(), pick()
        inside = np.all((np.minimum(p0, p1) <= C) & (C <= np.maximum(p0, p1)), axis=1)
        with quiet():
            ind = mb.get_indices_block(p0, p1, given)
            base = rng.standard_normal(n)
            keep = base.copy()
            added = mb.add_block(given, base, p0, p1, 7.5)
            blk = mb.create_block_in_wholespace(given, p0, p1, 2.0, -3.0) if rng.integers(2) else mb.create_block_in_wholespace(given, p0, p1, background_value=2.0, block_value=-3.0)
        ctx.event("selections", 3)
        ctx.event("cells", 3 * n)
        ctx.check(np.array_equal(np.sort(ind), np.where(inside)[0]), "cells of a block", f"{len(ind)} {inside.sum()}")
        ctx.check(np.array_equal(added, np.where(inside, 7.5, keep)) and np.array_equal(base, keep), "add_block", "")
        ctx.check(np.array_equal(blk, np.where(inside, -3.0, 2.0)), "create_block_in_wholespace", "")
        if dim > 1 or C.shape == np.shape(mesh.cell_centers):
            c, r = pick(), float(rng.uniform(0.5, 8))
            d = np.sqrt(((C - c) ** 2).sum(1))
            with quiet():
                s = mb.get_indices_sphere(c, r, given)
            ctx.event("selections")
            ctx.event("cells", n)
            got = np.zeros(n, dtype=bool)
            got[s] = True
            edge = np.abs(d - r) < 1e-9 * (1 + r)
            ctx.check(np.array_equal(got[~edge], (d < r)[~edge]), "cells of a sphere", f"{got.sum()} {(d < r).sum()}")
            if dim > 1:
                an, th, sl = rng.uniform(1, 10, dim), float(rng.uniform(-180, 180)), float(rng.uniform(1, 30))
                with quiet():
                    e = mb.create_ellipse_in_wholespace(given, center=c, anisotropy=an, theta=th, slope=sl)
                t = np.deg2rad(th)
                R = np.eye(dim)
                R[:2, :2] = [[np.cos(t), np.sin(t)], [-np.sin(t), np.cos(t)]]
                D = np.sqrt((((C - c) @ R.T / (an / 2)) ** 2).sum(1))
                ctx.event("selections")
                ctx.event("cells", n)
                ctx.close(e, 0.5 - np.arctan(sl * (D - 1)) / np.pi, "ellipsoid", rtol=1e-9)
        z = C[:, -1]
        nl = int(rng.integers(1, 6))
        tops = np.unique(np.where(rng.random(nl) < 0.3, rng.choice(z, nl), rng.uniform(z.min(), z.max() + 2, nl)))[::-1]
        vals = rng.standard_normal(tops.size)
        want = np.zeros(n)
        for i in range(n):
            j = [k for k in range(tops.size) if z[i] <= tops[k]]
            if j:
                want[i] = vals[j[-1]]
        order = rng.permutation(tops.size) if rng.integers(2) else np.arange(tops.size)
        if C.shape == np.shape(mesh.cell_centers):
            a, b = tops[order].copy(), vals[order].copy()
            with quiet():
                lm = mb.create_layers_model(given, a, b)
            ctx.event("selections")
            ctx.event("cells", n)
            ctx.check(np.array_equal(lm, want), "model of layers", f"ordered {np.array_equal(order, np.arange(tops.size))}: {int((lm != want).sum())} cells")
            ctx.check(np.array_equal(a, tops[order]) and np.array_equal(b, vals[order]), "layers changed", "")
            dep = float(rng.uniform(0.2, max(z.max() - z.min(), 0.5)))
            with quiet():
                two = mb.create_2_layer_model(given, dep, 5.0, 9.0)
            ctx.event("selections")
            ctx.event("cells", n)
            # the depth is counted from the centers of the top cells
            below = z <= z.max() - dep
            edge = np.abs(z - z.max() + dep) < 1e-9
            ctx.check(np.array_equal(two[~edge], np.where(below, 9.0, 5.0)[~edge]), "model of two layers", f"{(two == 9.0).sum()} {below.sum()}")
            fun = [lambda x: x**2, lambda x, y: x - 2 * y, lambda x, y, z: x * y + z][dim - 1]
            ctx.check(np.array_equal(mb.create_from_function(given, fun), fun(*C.T)), "model of a function", "")
        if dim > 1:
            m = int(rng.integers(dim + 2, dim + 6))
            pts = rng.uniform(lo - 2, hi + 2, (m, dim))
            with quiet():
                s = np.asarray(mb.get_indices_polygon(mesh, pts))
            # brute force: a point is in the convex hull when it lies on the inner side of every facet
            from scipy.spatial import ConvexHull

            q = ConvexHull(pts).equations
            v = (C @ q[:, :-1].T + q[:, -1]).max(1)
            edge = np.abs(v) < 1e-8
            ctx.event("selections")
            ctx.event("cells", n)
            ctx.check(np.array_equal(s[~edge], (v < 0)[~edge]), "cells of a polygon", f"{s.sum()} {(v < 0).sum()}")
        shape = tuple(int(x) for x in rng.integers(3, 12, dim))
        lo_, hi_ = np.sort(rng.uniform(-5, 5, 2))
        r1 = mb.create_random_model(shape, random_seed=int(rng.integers(100)), its=int(rng.integers(0, 20)), bounds=[lo_, hi_])
        ctx.check(r1.shape == shape and abs(r1.min() - lo_) < 1e-9 and abs(r1.max() - hi_) < 1e-9, "random model within its bounds", f"{r1.min()} {r1.max()}")


@case("C25", "conversions", quick=10, thorough=80)
def conversions(ctx):
    from simpeg import utils
    from simpeg.utils import mat_utils as mu

    rng = ctx.rng
    for _ in range(ctx.n(10, 20)):
        n = int(rng.integers(1, 30))
        x = rng.standard_normal((n, 3)) * 10.0 ** rng.integers(-2, 3, (n, 1))
        x[rng.random((n, 3)) < 0.15] = 0
        ctx.event("points", n)
        ctx.label(f"{n} vectors")
        a = mu.cartesian2spherical(x).reshape(3, -1).T
        r = np.sqrt((x**2).sum(1))
        ctx.close(a[:, 0], r, "amplitude", rtol=1e-12)
        back = mu.spherical2cartesian(a).reshape(3, -1).T
        # the amplitude is offset by 1e-8
        ctx.close(back, x, "spherical -> cartesian", rtol=1e-12, atol=3e-8)
        s = np.c_[10.0 ** rng.uniform(-1, 2, n), rng.uniform(-np.pi / 2, np.pi / 2, n), rng.uniform(-np.pi, np.pi, n)]
        c = mu.spherical2cartesian(s).reshape(3, -1).T
        want = np.c_[np.cos(s[:, 1]) * np.cos(s[:, 2]), np.cos(s[:, 1]) * np.sin(s[:, 2]), np.sin(s[:, 1])] * s[:, :1]
        ctx.close(c, want, "spherical -> cartesian formula", rtol=1e-12, atol=3e-8)
        s2 = mu.cartesian2spherical(c).reshape(3, -1).T
        ctx.close(s2[:, 0], s[:, 0], "amplitude round trip", rtol=1e-9, atol=3e-8)
        ctx.close(s2[:, 1:], s[:, 1:], "angle round trip", rtol=1e-7)
        dip, az = rng.uniform(-90, 90, n), rng.uniform(-360, 720, n)
        v = mu.dip_azimuth2cartesian(dip, az)
        w = np.c_[np.cos(np.deg2rad(dip)) * np.sin(np.deg2rad(az)), np.cos(np.deg2rad(dip)) * np.cos(np.deg2rad(az)), -np.sin(np.deg2rad(dip))]
        ctx.close(v, w, "dip and azimuth", rtol=1e-12)
        th = rng.uniform(-30, 30, n)
        ct = mu.coterminal(th)
        ctx.check(bool(np.all((ct >= -np.pi - 1e-12) & (ct <= np.pi + 1e-12))), "coterminal angles in range", "")
        ctx.close(np.exp(1j * ct), np.exp(1j * th), "coterminal angles", rtol=1e-9)
        p = rng.standard_normal((3, 3)) * 10
        A, B, Cc, D = mu.define_plane_from_points(*p)
        ctx.close(p @ np.r_[A, B, Cc] + D, np.zeros(3), "plane through points", rtol=1e-9, scale=10.0)
        ctx.check(np.linalg.norm([A, B, Cc]) > 0, "plane normal", "")
        u, v2 = rng.standard_normal(3), rng.standard_normal(3)
        u, v2 = u / np.linalg.norm(u), v2 / np.linalg.norm(v2)
        if rng.random() < 0.1:
            v2 = u
        R = utils.rotation_matrix_from_normals(u, v2)
        ctx.close(R @ R.T, np.eye(3), "rotation orthogonal", rtol=1e-8)
        ctx.close(R @ u, v2, "rotation of a direction", rtol=1e-8)
        ctx.check(abs(np.linalg.det(R) - 1) < 1e-8, "rotation orientation", "")
        M = rng.integers(0, 3, (int(rng.integers(1, 20)), int(rng.integers(1, 4)))).astype(float)
        un, i, j = mu.unique_rows(M)
        ctx.check(np.array_equal(un[np.ravel(j)], M) and np.array_equal(M[i], un) and len({tuple(q) for q in un}) == len(un), "unique rows", "")
        k = int(rng.integers(2, 30))
        d = rng.uniform(1, 5, k)
        bw = int(rng.integers(1, k + 1))
        Mt = np.diag(d)
        ctx.close(mu.estimate_diagonal(Mt, k, k=bw), d, "diagonal of a diagonal matrix by probing", rtol=1e-12)
        full = rng.standard_normal((k, k))
        ctx.close(mu.estimate_diagonal(full, k, k=k), np.diag(full), "diagonal with as many probes as columns", rtol=1e-10)
        ctx.close(mu.estimate_diagonal(lambda q: full @ q, k, k=k), np.diag(full), "diagonal of a function", rtol=1e-10)


@case("C25", "eigenvalue", quick=3, thorough=20)
def eigenvalue(ctx):
    from discretize import TensorMesh
    from simpeg import data_misfit, data, maps, objective_function, regularization, simulation, survey, utils

    rng = ctx.rng
    mesh = TensorMesh([int(rng.integers(4, 9))])
    n = mesh.n_cells
    A = rng.standard_normal((n + 2, n))
    sim = simulation.LinearSimulation(G=A, model_map=maps.IdentityMap(nP=n))
    sv = sim.survey
    dm = data_misfit.L2DataMisfit(data.Data(sv, dobs=np.zeros(n + 2), standard_deviation=np.full(n + 2, 0.5)), sim)
    reg = regularization.WeightedLeastSquares(mesh)
    f = 2.0 * dm + 0.3 * reg if rng.integers(2) else dm
    m = rng.standard_normal(n)
    with quiet():
        H = np.stack([np.asarray(f.deriv2(m, v=e)) for e in np.eye(n)], 1)
        ev = utils.eigenvalue_by_power_iteration(f, m, n_pw_iter=2000, random_seed=int(rng.integers(100)))
        few = utils.eigenvalue_by_power_iteration(f, m, n_pw_iter=3, random_seed=int(rng.integers(100)))
    top = np.linalg.eigvalsh(0.5 * (H + H.T))[-1]
    ctx.label(f"n {n}")
    ctx.event("points")
    ctx.close(ev, top, "largest eigenvalue", rtol=1e-4)
    ctx.check(few <= top * (1 + 1e-9), "eigenvalue estimate above the largest", f"{few} {top}")


@case("C25", "weightings", quick=8, thorough=60)
def weightings(ctx):
    from simpeg import utils

    rng = ctx.rng
    for _ in range(ctx.n(4, 8)):
        dim = int(rng.integers(1, 4))
        mesh = mesh_of(rng, dim, small=True)
        C = centers(mesh)
        n = mesh.n_cells
        act = rng.random(n) < 0.7 if rng.integers(2) else None
        if act is not None:
            act[0] = True
        sel = np.ones(n, dtype=bool) if act is None else act
        ex, thr = float(rng.uniform(0.5, 4)), (float(rng.uniform(0.01, 2)) if rng.integers(2) else None)
        t = 0.5 * np.min(mesh.h_gridded) if thr is None else thr
        refs = rng.uniform(C.min(0) - 3, C.max(0) + 3, (int(rng.integers(1, 12)), dim))
        ctx.label(f"{type(mesh).__name__} {dim}D exponent {ex:.2f} threshold {thr} active {act is not None}")
        keep = refs.copy()
        D = np.sqrt(((C[sel][:, None] - refs[None]) ** 2).sum(-1))
        w = np.sqrt(((D + t) ** (-2 * ex)).sum(1))
        ref = w / w.max()
        for eng in ("numba", "scipy"):
            with quiet():
                g = utils.distance_weighting(mesh, refs, active_cells=act, exponent=ex, threshold=thr, engine=eng)
            ctx.event("weightings")
            ctx.event("cells", n)
            ctx.close(g, ref, f"distance weighting {eng}", rtol=1e-9)
        if dim > 1:
            hd = np.sqrt(((C[:, None, :-1] - refs[None, :, :-1]) ** 2).sum(-1))
            near = hd.argmin(1)
            srt = np.sort(hd, 1)
            clear = np.ones(n, dtype=bool) if refs.shape[0] == 1 else (srt[:, 1] - srt[:, 0] > 1e-9)
            dz = np.abs(C[:, -1] - refs[near, -1])
            z0 = float(rng.uniform(C[:, -1].min(), C[:, -1].max() + 3))
            for r, d, ok in ((refs, dz, clear), (z0, np.abs(C[:, -1] - z0), np.ones(n, dtype=bool))):
                w = ((d + t) ** (-ex / 2))[sel]
                with quiet():
                    g = utils.depth_weighting(mesh, r, active_cells=act, exponent=ex, threshold=thr)
                ctx.event("weightings")
                if ok.all():
                    ctx.close(g, w / w.max(), "depth weighting", rtol=1e-9)
        ctx.check(np.array_equal(keep, refs), "reference locations changed", "")


@case("C25", "topography", quick=10, thorough=80)
def topography(ctx):
    from discretize.utils import active_from_xyz
    from simpeg import utils

    rng = ctx.rng
    for _ in range(ctx.n(4, 8)):
        dim = int(rng.integers(2, 4))
        mesh = mesh_of(rng, dim, small=True)
        C, h = mesh.cell_centers, mesh.h_gridded
        n = mesh.n_cells
        zb, zt = (mesh.nodes_y if dim == 2 else mesh.nodes_z)[[0, -1]]
        # surface: a plane with bumps, between 20 % and 90 % of the mesh
        k = rng.standard_normal(dim - 1) * 0.1
        f = lambda x: zb + (zt - zb) * np.clip(0.55 + 0.15 * np.sin(x @ k * 3 + 1.0) + 0.1 * np.cos(x[:, 0]), 0.3, 0.9)
        act = C[:, -1] < f(C[:, :-1])
        # every column keeps its lowest cells
        low = C[:, -1] - h[:, -1] / 2 < zb + 1e-9
        act |= low
        cut = "top" if rng.integers(2) else "center"
        ctx.label(f"{type(mesh).__name__} {dim}D {cut}")
        ctx.event("topographies")
        with quiet():
            topo = np.asarray(utils.get_discrete_topography(mesh, act, topo_cell_cutoff=cut))
        # brute force: for any horizontal position inside a top cell, the surface is that of the highest active cell there
        horiz = rng.uniform(0, 1, (40, dim - 1))
        lo = np.array([mesh.nodes_x[0], mesh.nodes_y[0]][: dim - 1])
        hi = np.array([mesh.nodes_x[-1], mesh.nodes_y[-1]][: dim - 1])
        P = lo + horiz * (hi - lo)
        tops = {}
        for p in P:
            over = np.all(np.abs(C[:, :-1] - p) < h[:, :-1] / 2, axis=1) & act
            i = np.where(over)[0][np.argmax(C[over, -1])]
            z = C[i, -1] + (h[i, -1] / 2 if cut == "top" else 0)
            tops[i] = z
            ctx.event("points")
            # the highest cell of a column is listed with its own center and height
            hit = np.all(np.isclose(topo[:, :-1], C[i, :-1]), axis=1) & np.isclose(topo[:, -1], z)
            ctx.check(bool(hit.any()), "highest active cell missing in the topography", f"cell {i} z {z}")
        # nothing else is listed than tops of active cells below an inactive cell or the top of the mesh
        for q in topo:
            i = np.where(np.all(np.isclose(C[:, :-1], q[:-1]), axis=1) & np.isclose(C[:, -1] + (h[:, -1] / 2 if cut == "top" else 0), q[-1]))[0]
            ctx.check(i.size == 1 and bool(act[i[0]]), "topography point is not the top of an active cell", f"{q}")
        # shifting points
        pts = np.c_[P, rng.uniform(zb, zt, len(P))]
        keep = pts.copy()
        hgt = rng.choice(["none", "float", "array"])
        heights = {"none": 0.0, "float": float(rng.uniform(0, 3)), "array": rng.uniform(0, 3, len(P))}[str(hgt)]
        for sh in (True, False):
            arg = pts if rng.integers(2) else pts[:, :-1]
            with quiet():
                out = np.asarray(utils.shift_to_discrete_topography(mesh, arg, act, topo_cell_cutoff=cut, shift_horizontal=sh, heights=heights))
            ctx.event("points", len(P))
            if not ctx.check(out.shape == pts.shape, "shape of shifted points", f"{out.shape}"):
                continue
            d = np.sqrt(((P[:, None] - topo[None, :, :-1]) ** 2).sum(-1))
            zz = out[:, -1] - heights
            for j in range(len(P)):
                cand = np.where(d[j] <= d[j].min() + 1e-9)[0]
                ok = any(abs(zz[j] - topo[c, -1]) < 1e-9 * (1 + abs(zz[j])) and np.allclose(out[j, :-1], topo[c, :-1] if sh else P[j]) for c in cand)
                ctx.check(ok, "point shifted to the surface", f"{out[j]} {topo[cand]}")
        ctx.check(np.array_equal(pts, keep), "points changed", "")


@case("C25", "surface_layers", quick=4, thorough=20)
def surface_layers(ctx):
    import discretize
    from simpeg.utils.model_utils import surface_layer_index

    rng = ctx.rng
    for _ in range(5):
        mesh = discretize.TensorMesh([np.ones(int(rng.integers(2, 7))), np.ones(int(rng.integers(2, 7))), np.ones(9)])
        nx, ny = mesh.shape_cells[:2]
        k = rng.integers(4, 8, (nx, ny))
        X, Y = np.meshgrid(mesh.cell_centers_x, mesh.cell_centers_y, indexing="ij")
        topo = np.c_[X.ravel(), Y.ravel(), (k + 0.5).ravel()][rng.permutation(nx * ny)]
        ind = int(rng.integers(0, 4))
        with quiet():
            got = np.asarray(surface_layer_index(mesh, topo, index=ind)).reshape(mesh.shape_cells, order="F")
        want = np.zeros(mesh.shape_cells, dtype=bool)
        for i in range(nx):
            for j in range(ny):
                want[i, j, k[i, j] - ind] = True
        ctx.label(f"{mesh.shape_cells} layer {ind}")
        ctx.event("topographies")
        ctx.event("cells", mesh.n_cells)
        ctx.check(np.array_equal(got, want), "layer of cells below the surface", f"{got.sum()} {want.sum()}")
