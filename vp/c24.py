"""C24: electrode utilities against the geometry of each datum.

Random surveys with every mixture of poles and dipoles; each utility's output is compared, datum by datum and in data
order, with formulas evaluated on the electrodes of that datum alone."""
import numpy as np

from .core import case, digest, quiet
from .dcgen import as_array, kinds_of, random_survey, rows_of

RULE = "random surveys x utilities; distinct when mixture, dimension and utility are new"
REQUIRED = {"surveys": 25, "tables": 20, "tables after a change": 20, "generated": 60, "draped": 20}


def dist(p, q):
    return np.sqrt(((p - q) ** 2).sum())


@case("C24", "separations", quick=4, thorough=30)
def separations(ctx):
    from simpeg.electromagnetics.static.utils import static_utils as su

    rng = ctx.rng
    for it in range(8):
        dim = int(rng.choice([2, 3]))
        buried = rng.random() < 0.5
        sv, table = random_survey(rng, dim=dim, buried=buried)
        ctx.event("surveys")
        ctx.label(f"{dim}D buried {buried} src {sorted(set(t[0] for t in table))} rx {sorted(set(t[3] for t in table))}")
        inf = np.inf
        exp = {k: [] for k in ("AB", "MN", "AM", "AN", "BM", "BN")}
        G = []
        for ks, a, b, kr, m, n, _ in table:
            pa, pr = ks == "pole", kr == "pole"
            v = dict(AB=inf if pa else dist(a, b), MN=inf if pr else dist(m, n), AM=dist(a, m), AN=inf if pr else dist(a, n),
                     BM=inf if pa else dist(b, m), BN=inf if pa or pr else dist(b, n))
            for k in exp:
                exp[k].append(v[k])
            G.append(1 / v["AM"] - 1 / v["BM"] - 1 / v["AN"] + 1 / v["BN"])
        G = np.array(G)
        with ctx.guard():
            sep = su.electrode_separations(sv)
            for k in exp:
                ctx.close(sep[k], np.array(exp[k]), "separation " + k, rtol=1e-9)
            k = str(rng.choice(list(exp)))
            one = su.electrode_separations(sv, k)
            ctx.check(list(one) == [k], "requested separation only")
            ctx.close(one[k], np.array(exp[k]), "one separation", rtol=1e-9)
            two = [str(x) for x in rng.permutation(list(exp))[:2]]
            ctx.check(set(su.electrode_separations(sv, two)) == set(two), "requested separations only")
        with ctx.guard():
            for st, f in (("half space", 2), ("whole space", 4), ("halfspace", 2), ("whole-space", 4)):
                ctx.close(su.geometric_factor(sv, space_type=st), G / (f * np.pi), "geometric factor", rtol=1e-9)
            rho = 10 ** rng.uniform(-1, 4)
            volts = rho * G / (2 * np.pi)
            keep = np.abs(G) > 1e-4 * np.abs(G).max()
            app = su.apparent_resistivity_from_voltage(sv, volts)
            exact = np.abs(volts / (G / (2 * np.pi) + 1e-10))
            ctx.close(app[keep], exact[keep], "apparent resistivity", rtol=1e-9)
            far = np.abs(G) / (2 * np.pi) > 1e-5
            if far.any():
                ctx.close(app[far], np.full(far.sum(), rho), "apparent resistivity of a half-space", rtol=1e-4)
            ctx.close(su.apparent_resistivity_from_voltage(sv, volts / 2, space_type="whole space", eps=0.0)[keep], np.full(keep.sum(), rho), "apparent resistivity of a whole space", rtol=1e-8)
            # what the survey stores for apparent-resistivity receivers
            for s in sv.source_list:
                for r in s.receiver_list:
                    r.data_type = "apparent_resistivity"
            ctx.close(sv.set_geometric_factor(), G / (2 * np.pi), "geometric factor of the survey", rtol=1e-9)
        with ctx.guard():
            P = su.pseudo_locations(sv)
            ctx.check(P.shape == (len(table), dim), "shape of pseudo-locations")
            for i, (ks, a, b, kr, m, n, _) in enumerate(table):
                s, r = (a + b) / 2, (m + n) / 2
                h = np.sqrt(((r - s)[:-1] ** 2).sum())
                if h < 0.2:
                    continue
                mid, d = (s + r) / 2, r - s
                L = np.sqrt((d ** 2).sum()) / 2
                exp_ = mid.copy()
                exp_[:-1] -= d[-1] / 2 * d[:-1] / L
                exp_[-1] -= h / 2
                ctx.close(P[i], exp_, "pseudo-location", rtol=1e-8, msg=f"{i}")
            # nested arrays: depth from the current electrodes
        with ctx.guard():
            from simpeg.electromagnetics.static import resistivity as dc

            x0, ab, mn, z = rng.uniform(-50, 50), rng.uniform(10, 50), rng.uniform(1, 8), rng.uniform(-3, 3)
            mk = lambda x: np.r_[x, z] if dim == 2 else np.r_[x, 2.0, z]  # noqa: E731
            w = dc.Survey([dc.sources.Dipole([dc.receivers.Dipole(mk(x0 - mn)[None], mk(x0 + mn)[None])], mk(x0 - ab), mk(x0 + ab))])
            e = mk(x0)
            e[-1] -= ab
            ctx.close(su.pseudo_locations(w)[0], e, "pseudo-location of a nested array", rtol=1e-9)


@case("C24", "tables", quick=4, thorough=30)
def tables(ctx):
    from simpeg.electromagnetics.static import resistivity as dc
    from simpeg.electromagnetics.static.utils import static_utils as su

    rng = ctx.rng
    for it in range(6):
        dim = int(rng.choice([2, 3]))
        sv, table = random_survey(rng, dim=dim, buried=rng.random() < 0.5)
        ctx.event("tables")
        ctx.label(f"{dim}D src {sorted(set(t[0] for t in table))} rx {sorted(set(t[3] for t in table))}")
        T = as_array(table)
        A, B, M, N = (T[:, i * dim:(i + 1) * dim] for i in range(4))
        with ctx.guard():
            tb = dict(zip("abmn", (A, B, M, N)))
            for nm in rng.permutation(list("abmn")):  # whichever is read first
                ctx.check(np.array_equal(getattr(sv, "locations_" + str(nm)), tb[str(nm)]), "electrode table of a survey", str(nm))
            U = sv.unique_electrode_locations
            ctx.check(np.array_equal(U, np.unique(np.vstack([A, B, M, N]), axis=0)), "unique electrodes")
            sa, sb = sv.source_locations
            first = [next(r for r in table if r[-1] == i) for i in dict.fromkeys(t[-1] for t in table)]
            ctx.check(np.array_equal(sa, [r[1] for r in first]), "source locations")
            isd = np.array([r[0] == "dipole" for r in first])
            ctx.check(sb.shape == sa.shape and np.array_equal(sb[isd], [r[2] for r in first if r[0] == "dipole"] if isd.any() else sb[:0]), "source locations")
            # another list of sources, then a moved receiver: the tables follow
            keep = sorted(rng.permutation(len(sv.source_list))[:max(1, len(sv.source_list) - 1)])
            src = list(sv.source_list)
            su.geometric_factor(sv)
            sv.source_list = [src[i] for i in keep]
            T2 = as_array(rows_of(sv))
            for i, nm in enumerate("abmn"):
                ctx.check(np.array_equal(getattr(sv, "locations_" + nm), T2[:, i * dim:(i + 1) * dim]), "electrode table after the sources changed", nm)
            ctx.check(len(su.geometric_factor(sv)) == sv.nD, "geometric factor after the sources changed")
            sv.source_list = src
            ctx.event("tables after a change")
        perm = rng.permutation(len(table))
        jit = rng.uniform(-2e-5, 2e-5, size=T.shape) if rng.random() < 0.4 else 0 * T
        Tp = (T + jit)[perm]
        # poles stay poles: the same jitter on both ends
        for i, p in enumerate(perm):
            if table[p][0] == "pole":
                Tp[i, dim:2 * dim] = Tp[i, :dim]
            if table[p][3] == "pole":
                Tp[i, 3 * dim:] = Tp[i, 2 * dim:3 * dim]
        a, b, m, n = (Tp[:, i * dim:(i + 1) * dim].copy() for i in range(4))
        dg = digest([a, b, m, n])
        dt = str(rng.choice(["volt", "apparent_resistivity", "apparent_chargeability"]))
        with ctx.guard(), quiet():
            kw = dict(locations_a=a, locations_b=b, locations_m=m, locations_n=n)
            if all(t[0] == "pole" for t in table) and rng.random() < 0.5:
                kw.pop("locations_b")
            if all(t[3] == "pole" for t in table) and rng.random() < 0.5:
                kw.pop("locations_n")
            s2, idx = su.generate_survey_from_abmn_locations(data_type=dt, output_sorting=True, **kw)
            ctx.check(digest([a, b, m, n]) == dg, "electrode tables unchanged")
            rows = rows_of(s2)
            ctx.check(np.array_equal(np.sort(idx), np.arange(len(table))), "every row exactly once", f"{len(rows)} rows of {len(table)}")
            if np.array_equal(np.sort(idx), np.arange(len(table))):
                ctx.close(as_array(rows), Tp[idx], "survey of an electrode table", rtol=0, atol=1e-4)
                ctx.check(kinds_of(rows) == [kinds_of(table)[perm[i]] for i in idx], "kinds of electrodes of a table")
            ctx.check(all(r.data_type == dt for s in s2.source_list for r in s.receiver_list), "data type of receivers")
            ctx.check(len(s2.source_list) == len({t[-1] for t in table}), "one source per current electrode pair", f"{len(s2.source_list)} {len({t[-1] for t in table})}")
        # the other builder (one kind of array, sorted by source)
        ks, kr = str(rng.choice(["pole", "dipole"])), str(rng.choice(["pole", "dipole"]))
        sv, table = random_survey(rng, dim=dim, kinds=(ks,), rx_kinds=(kr,), n_src=int(rng.integers(2, 6)))
        T = as_array(table)[rng.permutation(len(table))]
        a, b, m, n = (T[:, i * dim:(i + 1) * dim].copy() for i in range(4))
        v = rng.standard_normal(len(T))
        with ctx.guard(), quiet():
            ctx.label(f"IO {dim}D {ks}-{kr}")
            io = dc.IO()
            li = np.arange(len(T))
            if len(np.unique(np.vstack([a, b, m, n])[:, 0])) < 2:
                continue
            s3 = io.from_abmn_locations_to_survey(a, b, m, n, survey_type=f"{ks}-{kr}", data_dc=v, data_ip=2 * v, dimension=dim, line_inds=li, data_dc_type="volt", data_ip_type="apparent_chargeability")
            ii = io.sort_inds
            ctx.check(np.array_equal(np.sort(ii), np.arange(len(T))), "every row exactly once")
            ctx.check(np.array_equal(as_array(rows_of(s3)), T[ii]), "survey of an electrode table")
            ctx.check(np.array_equal(io.data_dc, v[ii]) and np.array_equal(io.data_ip, 2 * v[ii]) and np.array_equal(io.line_inds, ii), "data sorted with their electrodes")
            G = su.geometric_factor(s3)
            ctx.close(io.G, G, "geometric factor", rtol=1e-12)
            keep = np.abs(G) > 1e-6 * np.abs(G).max()
            ctx.close(io.apparent_resistivity[keep], (io.data_dc / G)[keep], "apparent resistivity", rtol=1e-12)
            ctx.close(io.apparent_conductivity[keep], (G / io.data_dc)[keep], "apparent conductivity", rtol=1e-10)
            ctx.close(io.voltages_ip, io.data_ip * io.data_dc, "IP voltages", rtol=1e-12)


@case("C24", "generated", quick=3, thorough=20)
def generated(ctx):
    from simpeg.electromagnetics.static.utils import static_utils as su

    rng = ctx.rng
    for it in range(12):
        st = str(rng.choice(["pole-pole", "pole-dipole", "dipole-pole", "dipole-dipole"]))
        ks, kr = st.split("-")
        three = rng.random() < 0.5
        sp = float(rng.choice([1.0, 5.0, 12.5]))
        nst = int(rng.integers(4, 15))
        nrx = int(rng.integers(1, 8))
        ang = rng.uniform(0, 2 * np.pi) if three else 0.0
        u = np.array([np.cos(ang), np.sin(ang)])
        p0 = rng.uniform(-100, 100, 2) if three else np.r_[rng.uniform(-100, 100), 0.0]
        p1 = p0 + u * sp * (nst + 0.4)
        flat = rng.random() < 0.5
        c = rng.uniform(-0.3, 0.3, 3)
        if flat:
            topo = float(rng.uniform(-5, 5))
            z = lambda q: topo + 0 * q[..., 0]  # noqa: E731
        elif three:
            g = np.array([[x, y] for x in np.linspace(-500, 500, 5) for y in np.linspace(-500, 500, 5)])
            z = lambda q: c[0] + c[1] * q[..., 0] + c[2] * q[..., 1]  # noqa: E731
            topo = np.c_[g, z(g)]
        else:
            x = np.linspace(-600, 600, 40)
            z = lambda q: c[0] + c[1] * q[..., 0]  # noqa: E731
            topo = np.c_[x, c[0] + c[1] * x]
        ctx.label(st, "3D" if three else "2D", "flat" if flat else "slope")
        ctx.event("generated")
        with ctx.guard():
            ends = np.r_[p0[0], p1[0], p0[1], p1[1]] if three else np.r_[p0[0], p1[0]]
            srcs = su.generate_dcip_sources_line(st, "volt", "3D" if three else "2D", ends, topo, nrx, sp)
            P = np.array([p0 + i * sp * u for i in range(nst + 1)])
            P = np.c_[P if three else P[:, :1], z(P)]
            exp = []
            ns = 1 if ks == "pole" else 2
            nr = 1 if kr == "pole" else 2
            for i in range(nst + 1):
                if i + ns - 1 > nst:
                    break
                first = i + ns  # nearest electrode a receiver may start at
                lst = []
                for k in range(nrx):
                    j = first + k
                    if ks == "pole" and kr == "dipole":
                        j = i + 1 + k
                    if j + nr - 1 > nst:
                        break
                    lst.append((ks, P[i], P[i + ns - 1], kr, P[j], P[j + nr - 1]))
                exp += lst
            rows = rows_of(type("S", (), dict(source_list=srcs))())
            ctx.check(all(r[0] == ks and r[3] == kr for r in rows), "kinds of a generated line")
            # electrodes are stations of the line, in order away from the source, spaced by one station, none shared
            idx = lambda p: int(np.argmin(((P - p) ** 2).sum(1)))  # noqa: E731
            for ks_, a, b, kr_, m, n in rows:
                ok = all(np.allclose(P[idx(p)], p, rtol=0, atol=1e-7) for p in (a, b, m, n))
                ia, ib, im, in_ = idx(a), idx(b), idx(m), idx(n)
                ok = ok and ib - ia == ns - 1 and in_ - im == nr - 1 and im > ib
                ctx.check(ok, "electrodes of a generated line", f"{ia} {ib} {im} {in_}")
            per = {}
            for r in rows:
                per.setdefault(idx(r[1]), []).append(idx(r[4]))
            for i, js in per.items():
                ctx.check(js == list(range(js[0], js[0] + len(js))) and len(js) <= nrx, "receivers of a source are consecutive")
                ctx.check(len(js) == nrx or js[-1] + nr - 1 == nst, "receivers of a source reach the end or the requested number", f"{i} {js} {nst}")
                ctx.check(js[0] - (i + ns - 1) == min(x[0] - (k + ns - 1) for k, x in per.items()), "first receiver at the same separation for all sources")


@case("C24", "generated_surveys", quick=2, thorough=10)
def generated_surveys(ctx):
    from simpeg.electromagnetics.static.utils import static_utils as su

    rng = ctx.rng
    for it in range(8):
        st = str(rng.choice(["pole-pole", "pole-dipole", "dipole-pole", "dipole-dipole", "gradient"]))
        dim = int(rng.choice([2, 3])) if st != "gradient" else 3
        a = float(rng.choice([5.0, 10.0]))
        b = a * int(rng.integers(1, 3))
        n = int(rng.integers(1, 8))
        L = a * int(rng.integers(8, 16))
        ang = rng.uniform(0, 2 * np.pi) if dim == 3 else 0.0
        u = np.array([np.cos(ang), np.sin(ang)])
        p = rng.uniform(-50, 50, 2)
        z = float(rng.uniform(-5, 5))
        if dim == 3:
            endl = np.array([np.r_[p, z], np.r_[p + L * u, z]])
        else:
            endl = np.array([[p[0], z], [p[0] + L, z]])
        ctx.label(st, f"{dim}D")
        ctx.event("generated")
        with ctx.guard():
            sv = su.generate_dcip_survey(endl, st, a, b, n, dim=dim)
            rows = rows_of(sv)
            ctx.check(len(rows) > 0, "generated data")
            ks, kr = ("dipole", "dipole") if st == "gradient" else st.split("-")
            ctx.check(all(r[0] == ks and r[3] == kr for r in rows), "kinds of a generated survey")
            al = lambda q: ((q[:-1] - endl[0, :-1]) @ u[:dim - 1])  # noqa: E731
            for _, A, B, _, M, N in rows:
                ctx.close([A[-1], B[-1], M[-1], N[-1]], [z] * 4, "elevation of a generated survey", rtol=1e-12)
                if st == "gradient":
                    ctx.close(dist(M, N), a, "receiver dipoles of a gradient array", rtol=1e-9)
                    ctx.close(dist(A, B), L, "source dipole of a gradient array", rtol=1e-9)
                    continue
                if ks == "dipole":
                    ctx.close(al(B) - al(A), a, "source dipole", rtol=1e-8)
                if kr == "dipole":
                    ctx.close(al(N) - al(M), a, "receiver dipole", rtol=1e-8)
                k = (al(M) - (al(A) + a) - b) / a
                ctx.check(abs(k - round(k)) < 1e-6 and -1e-6 < k < n - 1 + 1e-6, "receiver position", f"{k} of {n}")
        with ctx.guard():
            # line numbers of lines collected one after the other
            nl = int(rng.integers(1, 4))
            from simpeg.electromagnetics.static import resistivity as dc

            srcs, exp = [], []
            kind = str(rng.choice(["pole", "dipole"]))
            for i in range(nl):
                y = 40.0 * i
                for j in range(8):
                    x = 10.0 * (j if i % 2 == 0 else j)
                    rx = [dc.receivers.Pole(np.c_[x + 200, y, 0.0])]
                    srcs.append(dc.sources.Pole(rx, np.r_[x, y, 0.0]) if kind == "pole" else dc.sources.Dipole(rx, np.r_[x, y, 0.0], np.r_[x + 10, y, 0.0]))
                    exp.append(i)
            ctx.label("line numbers", kind, nl)
            ctx.check(np.array_equal(su.xy_2_lineID(dc.Survey(srcs)), exp), "line numbers")


@case("C24", "draped", quick=3, thorough=20)
def draped(ctx):
    import discretize
    from simpeg.utils import get_discrete_topography

    rng = ctx.rng
    for it in range(5):
        dim = int(rng.choice([2, 3]))
        tree = rng.random() < 0.4
        nx = 16
        h = [np.full(nx, 5.0)] * dim
        org = [-40.0] * (dim - 1) + [-80.0]
        c = rng.uniform(-0.6, 0.6, 3)
        surf = lambda xy: -25 + 8 * np.sin(0.05 * xy @ c[:dim - 1] * 10) + 3 * c[2]  # noqa: E731
        if tree:
            mesh = discretize.TreeMesh(h, org)
            g = rng.uniform(-38, 38, (30, dim - 1))
            mesh.refine_surface(np.c_[g, surf(g)], finalize=True, padding_cells_by_level=[1, 1])
        else:
            mesh = discretize.TensorMesh([np.random.default_rng(1).uniform(3, 7, nx) if not tree else x for x in h], org)
        active = mesh.cell_centers[:, -1] < surf(mesh.cell_centers[:, :-1])
        sv, table = random_survey(rng, dim=dim, off=0.0, step=1.0)
        from simpeg.electromagnetics.static.resistivity import survey as _  # noqa: F401

        cut = str(rng.choice(["top", "center"]))
        hor = bool(rng.random() < 0.5)
        ctx.label(f"{dim}D {'tree' if tree else 'tensor'} {cut} horizontal {hor}")
        before = as_array(table)
        with ctx.guard(), quiet():
            sv.drape_electrodes_on_topography(mesh, active, topo_cell_cutoff=cut, shift_horizontal=hor)
            ctx.event("draped")
            rows = rows_of(sv)
            after = as_array(rows)
            ctx.check(kinds_of(rows) == kinds_of(table), "kinds of draped electrodes")
            cc, hh = mesh.cell_centers, mesh.h_gridded
            # active cells with no active cell right above: probe just above the top face
            free = np.zeros(len(cc), bool)
            for sx in np.ndindex(*([2] * (dim - 1))):
                up = cc.copy()
                up[:, -1] += hh[:, -1] / 2 + 1e-6
                up[:, :-1] += hh[:, :-1] * (np.array(sx) - 0.5) * 0.4
                above = mesh.point2index(up)
                inside = up[:, -1] < mesh.nodes_y.max() if dim == 2 else up[:, -1] < mesh.nodes_z.max()
                free |= ~(inside & active[above])
            surface = active & free
            for e in range(4):
                X0, X1 = before[:, e * dim:(e + 1) * dim], after[:, e * dim:(e + 1) * dim]
                ctx.check(np.array_equal(getattr(sv, "locations_" + "abmn"[e]), X1), "electrode table of a draped survey")
                for p, q in zip(X0, X1):
                    if not hor:
                        ctx.close(q[:-1], p[:-1], "horizontal position of a draped electrode", rtol=0, atol=1e-12)
                    # the surface cell whose centre is horizontally closest (any of several)
                    r = np.sqrt(((cc[:, :-1] - p[:-1]) ** 2).sum(1))
                    r[~surface] = np.inf
                    near = np.flatnonzero(r <= r.min() + 1e-9)
                    tops = cc[near, -1] + (hh[near, -1] / 2 if cut == "top" else 0)
                    ctx.check(np.min(np.abs(tops - q[-1])) < 1e-9, "elevation of a draped electrode", f"{p} {q} {tops}")
                    if hor:
                        k = near[np.abs(tops - q[-1]) < 1e-9]
                        ctx.check(len(k) and np.min(np.abs(cc[k, :-1] - q[:-1]).max(1)) < 1e-9, "draped electrode at the cell centre", f"{p} {q}")
            # same electrode, same place
            key = {}
            for p, q in zip(before.reshape(-1, dim), after.reshape(-1, dim)):
                k = tuple(p[:-1])
                ctx.check(np.array_equal(key.setdefault(k, q), q), "an electrode is draped to one place")


@case("C24", "legacy", quick=2, thorough=12)
def legacy(ctx):
    """utilities next to the survey class: discrete topography of active cells, nearest points, ready-made arrays."""
    import warnings

    import discretize
    from simpeg.electromagnetics.static import resistivity as dc
    from simpeg.electromagnetics.static.utils import static_utils as su

    warnings.simplefilter("ignore")
    rng = ctx.rng
    for it in range(6):
        dim = int(rng.choice([2, 3]))
        tree = rng.random() < 0.4
        nx = 8
        h = [np.full(nx, 5.0)] * dim if tree else [rng.uniform(3, 7, int(rng.integers(5, 10))) for _ in range(dim)]
        mesh = (discretize.TreeMesh if tree else discretize.TensorMesh)(h, rng.uniform(-30, 0, dim))
        if tree:
            mesh.refine_ball(mesh.origin + 20, [8.0], [3])
        c = rng.uniform(-0.3, 0.3, 2)
        ztop = mesh.nodes[:, -1].max()
        zlow = mesh.nodes[:, -1].min()
        surf = lambda xy: np.maximum(ztop - 12 + (xy - xy.mean(0)) @ c[:dim - 1], zlow + 11)  # noqa: E731
        cc, hh = mesh.cell_centers, mesh.h_gridded
        act = cc[:, -1] < surf(cc[:, :-1])
        act |= cc[:, -1] < zlow + 11  # every column has ground
        cut = str(rng.choice(["top", "center"]))
        pts = mesh.origin[:dim - 1] + rng.uniform(0.1, 0.9, (7, dim - 1)) * [x.sum() for x in h[:dim - 1]]
        ctx.event("draped")
        ctx.label(f"legacy topography {dim}D {'tree' if tree else 'tensor'} {cut}")
        with ctx.guard(), quiet():
            g, z = su.gettopoCC(mesh, act, option=cut)
            xy = g.cell_centers.reshape(-1, dim - 1) if not tree else g.reshape(-1, dim - 1)
            # highest active cell of each column of a tensor mesh; cells with free tops of a tree
            if not tree:
                ctx.check(len(xy) == len(z) == np.prod([len(x) for x in h[:-1]]), "one elevation per column")
            for q, t in zip(xy, z):
                col = act & np.all(np.abs(cc[:, :-1] - q) < 1e-9, axis=1)
                e = cc[:, -1] + (hh[:, -1] / 2 if cut == "top" else 0)
                if not tree:
                    ctx.close(t, e[np.flatnonzero(col)[np.argmax(cc[col, -1])]], "elevation of a column of active cells", rtol=1e-12)
                else:
                    ctx.check(np.any(np.abs(e[col] - t) < 1e-9), "elevation of a surface cell")
            dr = su.drapeTopotoLoc(mesh, pts, act, option=cut)
            ctx.check(dr.shape == (7, dim), "shape of draped points")
            for p, q in zip(pts, dr):
                r = np.sqrt(((xy - p) ** 2).sum(1))
                near = np.flatnonzero(r < r.min() + 1e-9)
                ctx.check(np.min(np.abs(z[near] - q[-1])) < 1e-9, "elevation of a draped point")
                if tree:
                    ctx.check(np.any(np.all(np.abs(xy[near] - q[:-1]) < 1e-9, axis=1)), "draped point at a cell centre")
                else:
                    ctx.close(q[:-1], p, "horizontal position of a draped point", rtol=0, atol=1e-12)
        with ctx.guard(), quiet():
            grid = rng.uniform(-10, 10, (25, 2))
            q = rng.uniform(-10, 10, (9, 2))
            ctx.check(np.array_equal(su.closestPointsGrid(grid, q), [np.argmin(((grid - x) ** 2).sum(1)) for x in q]), "nearest points of a grid")
            ctx.check(np.array_equal(su.closestPointsGrid(grid[:, 0], q[:, 0], dim=1), [np.argmin(np.abs(grid[:, 0] - x)) for x in q[:, 0]]), "nearest points of a line")
        with ctx.guard(), quiet():
            n, a = int(rng.integers(4, 14)), float(rng.choice([1.0, 2.5, 10.0]))
            two = bool(rng.integers(2))
            ctx.label(f"Wenner {n} {a} 2D {two}")
            ctx.event("generated")
            got = set()
            for s in dc.utils.WennerSrcList(n, a, in2D=two):
                (rx,) = s.receiver_list
                e = [np.asarray(s.location[0]), rx.locations[0][0], rx.locations[1][0], np.asarray(s.location[1])]
                ctx.check(all(len(x) == (2 if two else 3) and np.all(x[1:] == 0) for x in e), "electrodes of a Wenner array")
                i = [(x[0] + (n - 1) * a / 2) / a for x in e]
                ctx.close(i, np.round(i), "electrodes of a Wenner array", rtol=0, atol=1e-9)
                got.add(tuple(np.round(i).astype(int).tolist()))
            want = {(i, i + k, i + 2 * k, i + 3 * k) for k in range(1, n) for i in range(n) if i + 3 * k < n}
            ctx.check(got == want, "combinations of a Wenner array", f"{len(got)} {len(want)}")
        with ctx.guard(), quiet():
            st = str(rng.choice(["pole-pole", "pole-dipole", "dipole-pole", "dipole-dipole"]))
            nl, ns = int(rng.integers(1, 4)), int(rng.integers(1, 6))
            x0, y0, off = (float(rng.choice([0.0, -35.0, 12.0])) for _ in range(3))
            sp = float(rng.choice([20.0, 35.0]))
            a_ = float(rng.choice([5.0, 10.0]))
            L = a_ * int(rng.integers(8, 14))
            ctx.label(f"3D lines {st} {nl}")
            ctx.event("generated")
            io, sv = su.gen_3d_survey_from_2d_lines(st, a_, a_, ns, n_lines=nl, line_length=L, line_spacing=sp, x0=x0, y0=y0, src_offset_y=off)
            one = su.generate_dcip_survey(np.array([[x0, 0.0, 0.0], [x0 + L, 0.0, 0.0]]), st, a_, a_, ns, dim=3)
            want = sorted((tuple(np.round(np.r_[a + [0, y0 + i * sp + off, 0], b + [0, y0 + i * sp + off, 0], m + [0, y0 + i * sp, 0], n_ + [0, y0 + i * sp, 0]], 6)), i)
                          for i in range(nl) for _, a, b, _, m, n_ in rows_of(one))
            rows = rows_of(sv)
            got = sorted((tuple(np.round(np.r_[a, b, m, n_], 6)), int(i)) for (_, a, b, _, m, n_), i in zip(rows, io.line_inds))
            ctx.check(got == want, "survey of parallel lines", f"{len(got)} {len(want)}")
            for nm, k in zip("abmn", (1, 2, 4, 5)):
                ctx.check(np.array_equal(getattr(io, nm + "_locations"), [r[k] for r in rows]), "sorted electrodes of a line reader", nm)
