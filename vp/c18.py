"""C18: discrete Maxwell laws of the full-wave solvers, source terms, agreement of formulations, survey independence.

The monitors read stored and derived fields and put them into Faraday's, Ampere's and the constitutive relations, with
inner-product matrices rebuilt from the mesh and the physical properties; primary fields of the sources are recomputed
from closed forms, wires are judged by exact line integrals of trilinear functions.
"""
import numpy as np
from scipy.special import ellipe, ellipk

from .core import case, quiet
from .scen import rough
from .scen_em import ALLRX, FD, MU0, TDFORM, TDN, axis_loop, axis_path, em_mesh, fd_rx, fd_src, rx_locs, td_src

RULE = "Faraday, Ampere, constitutive relations on every field; E==B and H==J; linear, additive, order-free; wires conserve charge"
REQUIRED = {"field relation": 700, "data agreement": 60, "wire": 60, "primary field": 20, "survey regrouping": 20, "cross formulation": 8}


def flat(a):
    return np.asarray(a).reshape(-1)


class M:
    """matrices of our own for one mesh and model"""

    def __init__(self, msh, sig, mu, eb):
        self.C = msh.edge_curl
        self.D = msh.face_divergence
        self.Me, self.Mf = msh.get_edge_inner_product(), msh.get_face_inner_product()
        if eb:
            self.Ms, self.Mm = msh.get_edge_inner_product(sig), msh.get_face_inner_product(1 / mu)
        else:
            self.Ms, self.Mm = msh.get_face_inner_product(1 / sig), msh.get_edge_inner_product(mu)


def rel(ctx, terms, key, rtol=1e-7, **kw):
    """sum of terms is zero relative to the largest term"""
    terms = [np.asarray(t) + 0 for t in terms]
    tot = sum(terms)
    sc = max(float(np.max(np.abs(t))) if t.size else 0.0 for t in terms)
    ctx.event("field relation")
    ctx.close(tot, np.zeros_like(tot), key, rtol=rtol, scale=sc, atol=1e-300, **kw)


# -------------------------------------------------------------- closed forms of the sources
def dip_a(m, loc, p, mu=MU0):
    r = p - loc
    d = np.linalg.norm(r, axis=1)[:, None]
    return mu / (4 * np.pi) * np.cross(m, r) / d**3


def dip_b(m, loc, p, mu=MU0):
    r = p - loc
    d = np.linalg.norm(r, axis=1)[:, None]
    return mu / (4 * np.pi) * (3 * r * (r @ m)[:, None] / d**5 - m / d**3)


def loop_a(cur, a, loc, p, mu=MU0):
    """vector potential of a z-directed circular loop"""
    r = p - loc
    rho = np.maximum(np.hypot(r[:, 0], r[:, 1]), 1e-12)
    k2 = 4 * a * rho / ((a + rho) ** 2 + r[:, 2] ** 2)
    k = np.sqrt(k2)
    A = mu * cur / (np.pi * k) * np.sqrt(a / rho) * ((1 - k2 / 2) * ellipk(k2) - ellipe(k2))
    return np.c_[-A * r[:, 1] / rho, A * r[:, 0] / rho, 0 * A]


ORI = {"x": np.r_[1.0, 0, 0], "y": np.r_[0, 1.0, 0], "z": np.r_[0, 0, 1.0]}


def primary_b(src, kind, msh, form):
    """primary flux on faces (EB) or primary field*mu on edges (HJ) as documented, from closed forms"""
    if form in "eb":
        if kind == "MagDipole_Bfield":
            return msh.project_face_vector(dip_b(np.asarray(src.orientation) * src.moment, src.location, msh.faces))
        if kind == "CircularLoop":
            a = loop_a(src.current * src.n_turns, src.radius, src.location, msh.edges)
        else:
            a = dip_a(np.asarray(src.orientation) * src.moment, src.location, msh.edges)
        return msh.edge_curl @ msh.project_edge_vector(a)
    if kind == "MagDipole_Bfield":
        return msh.project_edge_vector(dip_b(np.asarray(src.orientation) * src.moment, src.location, msh.edges))
    return None


# -------------------------------------------------------------- frequency domain
FDK = ["MagDipole", "MagDipole_Bfield", "CircularLoop", "Line", "Loop", "RawVec_e", "RawVec_m", "RawVec"]


def fd_laws(ctx, form, kind, mesh):
    from simpeg import maps
    from simpeg.electromagnetics import frequency_domain as F

    rng = ctx.rng
    msh = em_mesh(rng, mesh, n=5)
    nC = msh.n_cells
    sig = rough(rng, nC, 1e-2, 1.0)
    mu = MU0 * (rough(rng, nC, 1, 3) if rng.integers(3) else np.ones(nC))
    freqs = np.round(np.exp(rng.uniform(0, np.log(1e4), 2)), 3)
    eb = form in "eb"
    with quiet():
        srcs = [fd_src(rng, F, k, [], float(fr), msh, form) for fr in freqs for k in kind.split("+")]
    kinds = [k for fr in freqs for k in kind.split("+")]
    perm = rng.permutation(len(srcs))
    srcs, kinds = [srcs[i] for i in perm], [kinds[i] for i in perm]
    other = {"e": "b", "b": "e", "h": "j", "j": "h"}[form]
    res = {}
    kw = dict(sigmaMap=maps.ExpMap(nP=nC)) if rng.integers(2) else dict(rhoMap=maps.ExpMap(nP=nC))
    m = np.log(sig) if "sigmaMap" in kw else -np.log(sig)
    for fm in (form, other):
        with quiet():
            sim = getattr(F, FD[fm])(msh, survey=F.Survey(srcs), mu=mu, **kw)
            res[fm] = (sim, sim.fields(m))
    X = M(msh, sig, mu, eb)
    axi = mesh == "cyl"
    for i, (s, k) in enumerate(zip(srcs, kinds)):
        ctx.label(form, kind, mesh, "f", s.frequency, k)
        iw = 2j * np.pi * s.frequency
        sim, f = res[form]
        g = lambda n: flat(f[s, n])
        with quiet():
            sm, se = s.eval(sim)
        sm, se = (np.zeros(n, complex) + v for v, n in ((sm, X.C.shape[0] if eb else X.C.shape[1]), (se, X.C.shape[1] if eb else X.C.shape[0])))
        if eb:
            e, b = g("e"), g("b")
            es, bs = g("eSecondary"), g("bSecondary")
            rel(ctx, [X.C @ es, iw * bs, -sm], "faraday")
            rel(ctx, [X.C.T @ (X.Mm @ bs), -X.Ms @ es, -se], "ampere")
            rel(ctx, [g("ePrimary") + es, -e], "total e")
            rel(ctx, [g("bPrimary") + bs, -b], "total b")
            rel(ctx, [X.Mf @ g("h"), -X.Mm @ b], "h of b")
            rel(ctx, [X.Me @ g("j"), -X.Ms @ e], "j of e")
            if k in ("MagDipole", "CircularLoop", "MagDipole_Bfield", "CylLoop"):
                # no magnetic current in the total field; its source current is the curl of the primary field
                rel(ctx, [X.C @ e, iw * b], "total faraday")
                Mp = msh.get_face_inner_product(np.full(nC, 1 / MU0))
                rel(ctx, [X.C.T @ (X.Mm @ b), -X.Ms @ e, -X.C.T @ (Mp @ g("bPrimary"))], "total ampere", rtol=1e-6)
                if not axi:
                    ctx.event("primary field")
                    bp = primary_b(s, k, msh, form)
                    ctx.close(g("bPrimary"), bp, "primary flux", rtol=1e-6 if k != "CircularLoop" else 1e-5)
            if k in ("Line", "Loop"):
                rel(ctx, [X.C @ e, iw * b], "total faraday")
                ctx.check(np.all(sm == 0), "wire has no magnetic source")
        else:
            h, j = g("h"), g("j")
            hs, js = g("hSecondary"), g("jSecondary")
            rel(ctx, [X.C @ hs, -js, -se], "ampere")
            rel(ctx, [X.C.T @ (X.Ms @ js), iw * (X.Mm @ hs), -sm], "faraday")
            rel(ctx, [g("hPrimary") + hs, -h], "total h")
            rel(ctx, [g("jPrimary") + js, -j], "total j")
            rel(ctx, [X.Me @ g("b"), -X.Mm @ h], "b of h")
            rel(ctx, [X.Mf @ g("e"), -X.Ms @ j], "e of j")
            if k in ("MagDipole", "CircularLoop", "MagDipole_Bfield"):
                rel(ctx, [X.C.T @ (X.Ms @ j), iw * (X.Mm @ h)], "total faraday", rtol=1e-6)
                bp = primary_b(s, k, msh, form)
                if bp is not None:
                    ctx.event("primary field")
                    ctx.close(g("hPrimary"), bp / MU0, "primary field", rtol=1e-6)
        for nm in "ebhj":
            ctx.event("data agreement")
            ctx.close(flat(res[form][1][s, nm]), flat(res[other][1][s, nm]), f"{form} and {other} agree", rtol=2e-5)


# -------------------------------------------------------------- time domain
TDK = ["MagDipole:step", "CircularLoop:tri", "Loop:ramp", "Loop:step", "Line:step", "Line:raw", "Line:vtem", "MagDipole:trap", "CircularLoop:step"]


def td_laws(ctx, form, kind, mesh):
    from simpeg import maps
    from simpeg.electromagnetics import time_domain as T

    rng = ctx.rng
    msh = em_mesh(rng, mesh, n=5)
    nC = msh.n_cells
    sig = rough(rng, nC, 1e-2, 1.0)
    eb = form in "eb"
    ksrc, kw_ = kind.split(":")
    varmu = bool(rng.integers(2)) and not (kw_ == "step" and (not eb or ksrc in ("Line", "Loop")))
    mu = MU0 * (rough(rng, nC, 1, 2) if varmu else np.ones(nC))
    nst = rng.permutation(4)
    dts = [[(1e-5, 2), (4e-5, 2), (2e-5, 1), (1e-5, 2)][i] for i in nst]
    tt = np.cumsum(np.r_[0, np.concatenate([[d] * n for d, n in dts])])
    with quiet():
        srcs = [td_src(rng, T, kind, [], form, tt[-1]) for _ in range(2)]
    other = {"e": "b", "b": "e", "h": "j", "j": "h"}[form]
    if form == "e" and kind == "Line:step" or form == "b" and kind == "Line:step":
        other = None  # galvanic initial fields are not implemented in b
        form = "e"
    kw = dict(sigmaMap=maps.ExpMap(nP=nC)) if rng.integers(2) else dict(rhoMap=maps.ExpMap(nP=nC))
    m = np.log(sig) if "sigmaMap" in kw else -np.log(sig)
    res = {}
    for fm in filter(None, (form, other)):
        with quiet():
            if varmu:
                kw["mu"] = mu
            sim = getattr(T, FD[fm])(msh, survey=T.Survey(srcs), time_steps=dts, **kw)
            res[fm] = (sim, sim.fields(m))
    X = M(msh, sig, mu, eb)
    sim, f = res[form]
    ctx.close(sim.times, tt, "time nodes", rtol=1e-12)
    for si, s in enumerate(srcs):
        ctx.label(form, kind, mesh, "varmu" if varmu else "mu0", "src", si)
        g = lambda n, i: flat(f[s, n, i])
        ne = X.C.shape[1] if eb else X.C.shape[0]
        nm = X.C.shape[0] if eb else X.C.shape[1]
        with quiet():
            ev = [s.eval(sim, t) for t in tt]
        sm = [np.zeros(nm) + a[0] for a in ev]
        se = [np.zeros(ne) + a[1] for a in ev]
        # the time stepping
        for n in range(1, len(tt)):
            dt = tt[n] - tt[n - 1]
            if form == "b":
                rel(ctx, [(g("b", n) - g("b", n - 1)) / dt, X.C @ g("e", n), -sm[n]], "faraday step", rtol=1e-6)
                rel(ctx, [X.C.T @ (X.Mm @ g("b", n)), -X.Ms @ g("e", n), -se[n]], "ampere step", rtol=1e-6)
            elif form == "e":
                rel(ctx, [X.C.T @ (X.Mm @ (X.C @ g("e", n))), X.Ms @ (g("e", n) - g("e", n - 1)) / dt, (se[n] - se[n - 1]) / dt, -X.C.T @ (X.Mm @ sm[n])], "electric step", rtol=1e-6)
            elif form == "h":
                rel(ctx, [X.C @ g("h", n), -g("j", n), -se[n]], "ampere step", rtol=1e-6)
                rel(ctx, [X.C.T @ (X.Ms @ g("j", n)), X.Mm @ (g("h", n) - g("h", n - 1)) / dt, -sm[n]], "faraday step", rtol=1e-6)
            else:
                import scipy.sparse.linalg as sl

                y = sl.spsolve(X.Mm.tocsc(), X.C.T @ (X.Ms @ g("j", n)) - sm[n])
                rel(ctx, [X.C @ y, (g("j", n) - g("j", n - 1)) / dt, (se[n] - se[n - 1]) / dt], "current step", rtol=1e-6)
        # derived fields
        for n in (1, len(tt) // 2, len(tt) - 1):
            if eb:
                rel(ctx, [g("dbdt", n), X.C @ g("e", n), -sm[n]], "dbdt", rtol=1e-6)
                rel(ctx, [X.Mf @ g("dhdt", n), -X.Mm @ g("dbdt", n)], "dhdt of dbdt", rtol=1e-6)
                rel(ctx, [X.Me @ g("j", n), -X.Ms @ g("e", n)], "j of e", rtol=1e-6)
                if form == "b":
                    rel(ctx, [X.Mf @ g("h", n), -X.Mm @ g("b", n)], "h of b", rtol=1e-6)
            else:
                rel(ctx, [X.Mm @ g("dhdt", n), X.C.T @ (X.Ms @ g("j", n)), -sm[n]], "dhdt", rtol=1e-6)
                rel(ctx, [X.Me @ g("dbdt", n), -X.Mm @ g("dhdt", n)], "dbdt of dhdt", rtol=1e-6)
                rel(ctx, [X.Mf @ g("e", n), -X.Ms @ g("j", n)], "e of j", rtol=1e-6)
                if form == "h":
                    rel(ctx, [X.Me @ g("b", n), -X.Mm @ g("h", n)], "b of h", rtol=1e-6)
        # initial fields
        if not s.waveform.has_initial_fields:
            v = f[s, {"e": "e", "b": "b", "h": "h", "j": "j"}[form], 0]
            ctx.check(np.all(np.asarray(v) == 0), "no field before the source starts")
        elif ksrc == "Line":
            vol = msh.cell_volumes
            if form == "e":
                G = msh.nodal_gradient
                e0 = g("e", 0)
                rel(ctx, [X.C @ e0, np.abs(X.C) @ np.abs(e0) * 0], "galvanic e is curl free") if False else None
                ctx.event("field relation")
                ctx.close(X.C @ e0, np.zeros(X.C.shape[0]), "galvanic field is curl free", rtol=1e-7, scale=np.max(np.abs(X.C) @ np.abs(e0)))
                rel(ctx, [G.T @ (X.Ms @ e0), G.T @ se[0]], "galvanic charge balance", rtol=1e-6)
            else:
                j0 = g("j", 0)
                rel(ctx, [vol * (X.D @ j0), vol * (X.D @ se[0])], "galvanic charge balance", rtol=1e-6)
                if form == "h":
                    rel(ctx, [X.C @ g("h", 0), -j0, -se[0]], "magnetostatic ampere", rtol=1e-6)
        elif form == "b":
            b0 = g("b", 0)
            ctx.event("field relation")
            ctx.close(msh.cell_volumes * (X.D @ b0), np.zeros(nC), "initial flux has no divergence", rtol=1e-8, scale=np.max(msh.cell_volumes * (np.abs(X.D) @ np.abs(b0))))
            if ksrc in ("MagDipole", "CircularLoop"):
                rel(ctx, [X.C.T @ (X.Mm @ b0), -se[0]], "magnetostatic ampere", rtol=1e-6)
                if not varmu:
                    a = dip_a(np.asarray(s.orientation) * s.moment, s.location, msh.edges) if ksrc == "MagDipole" else loop_a(s.current * s.n_turns, s.radius, s.location, msh.edges)
                    ctx.event("primary field")
                    ctx.close(b0, X.C @ msh.project_edge_vector(a), "initial flux of the source", rtol=1e-5)
        if other and not (ksrc == "Loop" and s.waveform.has_initial_fields):
            f2 = res[other][1]
            for nmf in sorted(set(TDFORM[form].split()) & set(TDFORM[other].split())):
                A = np.array([flat(f[s, nmf, n]) for n in range(1, len(tt))])
                B = np.array([flat(f2[s, nmf, n]) for n in range(1, len(tt))])
                ctx.event("data agreement")
                ctx.close(A, B, f"{form} and {other} agree", rtol=2e-5)


# -------------------------------------------------------------- wires
def line_moments(path):
    """integral of (1, x, y, z, xy, yz, xz) dl along a polyline, per component, by Gauss quadrature (exact)"""
    x, w = np.polynomial.legendre.leggauss(4)
    x, w = (x + 1) / 2, w / 2
    out = 0
    for a, b in zip(path[:-1], path[1:]):
        p = a + x[:, None] * (b - a)
        mono = np.c_[np.ones(4), p, p[:, 0] * p[:, 1], p[:, 1] * p[:, 2], p[:, 0] * p[:, 2]]
        out = out + np.einsum("q,qm,d->dm", w, mono, b - a)
    return out


def hostile_path(rng, msh, closed, n):
    nodes = [getattr(msh, "nodes_" + c) for c in "xyz"] if hasattr(msh, "nodes_x") else None
    lo, hi = np.array([v[0] for v in nodes]), np.array([v[-1] for v in nodes])
    p = lo + (hi - lo) * rng.uniform(0.02, 0.98, (n, 3))
    for i in range(n):  # put some coordinates exactly on grid planes, some equal to the previous vertex
        for d in range(3):
            u = rng.integers(5)
            if u == 0:
                p[i, d] = nodes[d][rng.integers(1, len(nodes[d]) - 1)]
            elif u == 1 and i:
                p[i, d] = p[i - 1, d]
    if closed:
        p = np.r_[p, p[:1]]
    keep = np.r_[True, np.linalg.norm(np.diff(p, axis=0), axis=1) > 0]
    return p[keep]


def corner(msh, a, b):
    """the segment crosses an edge of the finest grid (discretize's get_cells_along_line may then leave out a cell)"""
    ts = []
    for d, c in enumerate("xyz"):
        if a[d] != b[d]:
            t = (getattr(msh, "nodes_" + c) - a[d]) / (b[d] - a[d])
            ts += list(np.unique(t[(t > -1e-9) & (t < 1 + 1e-9)]))
    ts = np.sort(ts)
    return bool(np.any(np.diff(ts) < 1e-6))


def wire_edges(ctx, mesh):
    from simpeg.electromagnetics.utils import segmented_line_current_source_term as term

    rng = ctx.rng
    for r in range(ctx.n(14, 60)):
        msh = em_mesh(rng, mesh, n=int(rng.integers(4, 8)))
        closed = bool(rng.integers(2))
        path = hostile_path(rng, msh, closed, int(rng.integers(2 + closed, 6)))
        if len(path) < 2 or mesh == "tree" and any(corner(msh, a, b) for a, b in zip(path[:-1], path[1:])):
            continue
        ctx.label(mesh, "closed" if closed else "open", len(path), r)
        ctx.event("wire")
        with quiet():
            s = np.asarray(term(msh, path))
        L = np.linalg.norm(np.diff(path, axis=0), axis=1).sum()
        h = msh.h[0].min()
        G = msh.nodal_gradient
        P = msh.get_interpolation_matrix(path[[0, -1]], "N")
        want = flat((P[1] - P[0]).toarray())
        ctx.close(G.T @ s, want, "charge only at the ends of the wire", rtol=1e-7, scale=max(1.0, L / h), path=path)
        ctx.event("wire")
        ctx.close(np.abs(flat(G.T @ s)).sum() if closed else (G.T @ s)[want > 0].sum() - want[want > 0].sum(), 0.0, "net current", atol=1e-7 * max(1.0, L / h) * 10)
        out = path.copy()
        out[int(rng.integers(len(out))), int(rng.integers(3))] = float(rng.choice([-1, 1])) * 1e4
        with quiet():
            ctx.raises(ValueError, lambda: term(msh, out), "wire leaving the mesh", path=out)
        # reversal, subdivision, additivity
        k = int(rng.integers(len(path) - 1))
        t = float(rng.uniform(0.2, 0.8))
        mid = path[k] + t * (path[k + 1] - path[k])
        with quiet():
            rev = np.asarray(term(msh, path[::-1]))
            cut = np.asarray(term(msh, np.r_[path[: k + 1], mid[None], path[k + 1 :]]))
            two = np.asarray(term(msh, np.r_[path[: k + 1], mid[None]])) + np.asarray(term(msh, np.r_[mid[None], path[k + 1 :]]))
        sc = max(float(np.max(np.abs(s))), 1e-3 * L)
        ctx.close(rev, -s, "reversed wire", rtol=1e-7, scale=sc, path=path)
        ctx.close(cut, s, "subdivided wire", rtol=1e-6, scale=sc, path=path)
        ctx.close(two, s, "wire of two parts", rtol=1e-6, scale=sc, path=path)
        if mesh == "tensor":
            want = line_moments(path)
            for d, (E, n0, n1) in enumerate(((msh.edges_x, 0, msh.n_edges_x), (msh.edges_y, msh.n_edges_x, msh.n_edges_x + msh.n_edges_y), (msh.edges_z, msh.n_edges_x + msh.n_edges_y, msh.n_edges))):
                a, b = [i for i in range(3) if i != d]
                got = np.r_[s[n0:n1].sum(), s[n0:n1] @ E[:, a], s[n0:n1] @ E[:, b], s[n0:n1] @ (E[:, a] * E[:, b])]
                prod = {(0, 1): 4, (1, 2): 5, (0, 2): 6}[(a, b)]
                w = np.r_[want[d, 0], want[d, 1 + a], want[d, 1 + b], want[d, prod]]
                ctx.event("wire")
                R = 120.0
                ctx.close(got / np.r_[1, R, R, R * R], w / np.r_[1, R, R, R * R], "line integral along the wire", rtol=1e-9, scale=L, path=path)


def wire_faces(ctx):
    from simpeg.electromagnetics.utils import line_through_faces

    rng = ctx.rng
    for r in range(ctx.n(14, 60)):
        msh = em_mesh(rng, "tensor", n=int(rng.integers(5, 9)))
        closed = bool(rng.integers(2))
        cc = [getattr(msh, "cell_centers_" + c) for c in "xyz"]
        n = [len(c) for c in cc]
        if closed:
            i0, j0 = rng.integers(0, n[0] // 2), rng.integers(0, n[1] // 2)
            i1, j1, k = rng.integers(n[0] // 2 + 1, n[0]), rng.integers(n[1] // 2 + 1, n[1]), rng.integers(n[2])
            ijk = np.array([[i0, j0, k], [i1, j0, k], [i1, j1, k], [i0, j1, k], [i0, j0, k]])
        else:
            lo = [int(rng.integers(0, m // 2)) for m in n]
            hi = [int(rng.integers(m // 2 + 1, m)) for m in n]
            ijk, cur = [lo[:]], lo[:]
            for d in rng.permutation(3)[: int(rng.integers(1, 4))]:
                cur = cur[:]
                cur[d] = hi[d]
                ijk.append(cur)
            ijk = np.array(ijk)
        if rng.integers(2):
            ijk = ijk[::-1]
        P = np.c_[cc[0][ijk[:, 0]], cc[1][ijk[:, 1]], cc[2][ijk[:, 2]]]
        ctx.label("faces", "closed" if closed else "open", len(P), r)
        with quiet():
            s = np.asarray(line_through_faces(msh, P, normalize_by_area=True))
            su = np.asarray(line_through_faces(msh, P, normalize_by_area=False))
            rv = np.asarray(line_through_faces(msh, P[::-1], normalize_by_area=True))
        ctx.event("wire")
        ctx.close(s * msh.face_areas, su, "normalised by area", rtol=1e-12)
        ctx.close(rv, -s, "reversed wire", rtol=1e-12)
        q = msh.cell_volumes * (msh.face_divergence @ s)
        ends = [int(np.argmin(np.linalg.norm(msh.cell_centers - p, axis=1))) for p in P[[0, -1]]]
        want = np.zeros(msh.n_cells)
        ctx.check(abs(q.sum()) < 1e-9, "net current", q=q.sum())
        ctx.event("wire")
        if closed:
            ctx.close(q, want, "charge only at the ends of the wire", rtol=1e-9, scale=1.0, path=P)
        else:
            want[ends[0]], want[ends[1]] = 1.0, -1.0
            ctx.close(q * np.sign(q[ends[0]]), want, "charge only at the ends of the wire", rtol=1e-9, scale=1.0, path=P)
            ctx.check(q[ends[0]] > 0, "direction of a wire on faces", "the current flows from the last to the first point", path=P)


# -------------------------------------------------------------- survey independence, linearity
STRENGTH = {"MagDipole": "moment", "MagDipole_Bfield": "moment", "CircularLoop": "current", "Line": "current", "Loop": "current"}


def per_rx(survey, d):
    out, k = {}, 0
    for s in survey.source_list:
        for r in s.receiver_list:
            out[id(r)] = d[k : k + r.nD]
            k += r.nD
    return out


def regroup(ctx, dom, form, kind):
    import copy

    from simpeg import maps
    from simpeg.electromagnetics import frequency_domain as F
    from simpeg.electromagnetics import time_domain as T

    rng = ctx.rng
    msh = em_mesh(rng, "tensor", n=5)
    nC = msh.n_cells
    sig = rough(rng, nC, 1e-2, 1.0)
    dts = [(1e-5, 2), (4e-5, 2), (2e-5, 2)]
    tmax = 1.4e-4
    srcs = []
    freqs = np.round(np.exp(rng.uniform(0, np.log(1e4), 2)), 3)
    ks = kind.split("+")
    for i in range(4):
        k = ks[i % len(ks)]
        if dom == "fd":
            names = list(rng.permutation(ALLRX[:4])[:3])
            srcs.append(fd_src(rng, F, k, fd_rx(rng, F, names, "tensor", 3), float(freqs[i // 2]), msh, form))
        else:
            rxs = [getattr(T.Rx, TDN[n])(rx_locs(rng, 2), np.sort(rng.uniform(0.1, 0.99, 3)) * tmax, orientation="xyz"[int(rng.integers(3))]) for n in rng.permutation(TDFORM[form].split())[:3]]
            srcs.append(td_src(rng, T, k, rxs, form, tmax))
    Mod = F if dom == "fd" else T
    kw = {} if dom == "fd" else dict(time_steps=dts)

    def run(sl):
        with quiet():
            sim = getattr(Mod, FD[form])(msh, survey=Mod.Survey(sl), sigmaMap=maps.IdentityMap(nP=nC), **kw)
            return per_rx(sim.survey, sim.dpred(sig))

    ctx.label(dom, form, kind)
    base = run(srcs)
    mx = {id(r): max(np.abs(base[id(r)]).max(), 1e-300) for s in srcs for r in s.receiver_list}

    def cmp(got, key, fac=lambda r: 1.0, tol=1e-6):
        for s in srcs:
            for r in s.receiver_list:
                ctx.close(got[id(r)], fac(s) * base[id(r)], key, rtol=tol, scale=mx[id(r)] * abs(fac(s)))

    perm = [srcs[i] for i in rng.permutation(len(srcs))]
    ctx.event("survey regrouping")
    cmp(run(perm), "order of the sources")
    alone = {}
    for s in srcs[:2]:
        alone.update(run([s]))
    ctx.event("survey regrouping")
    for s in srcs[:2]:
        for r in s.receiver_list:
            ctx.close(alone[id(r)], base[id(r)], "source alone", rtol=1e-6, scale=mx[id(r)])
    # every receiver in a source of its own, order of receivers reversed
    split = []
    for s in srcs:
        for r in s.receiver_list[::-1]:
            c = copy.deepcopy(s)
            c.receiver_list = [r]
            split.append(c)
    ctx.event("survey regrouping")
    cmp(run([split[i] for i in rng.permutation(len(split))]), "receivers split over sources")
    # linear in the strength
    fac, cl = {}, []
    for i, s in enumerate(srcs):
        c = copy.deepcopy(s)
        c.receiver_list = s.receiver_list
        a = STRENGTH[ks[i % len(ks)]]
        q = float(rng.uniform(2, 5)) * (-1 if a == "current" and "Line" in ks[i % len(ks)] else 1)
        fac[id(s)] = abs(q)
        for at in ("_dipole", "_loop", "_1d_h", "_Mejs", "_Mfjs", "_hp"):
            if hasattr(c, at):
                try:
                    delattr(c, at)
                except AttributeError:
                    pass
        setattr(c, a, getattr(s, a) * abs(q))
        cl.append(c)
    ctx.event("survey regrouping")
    cmp(run(cl), "linear in the source strength", fac=lambda s: fac[id(s)])


def additive(ctx, dom, form):
    """current along A-B-C is the sum of A-B and B-C; a loop is the sum of two loops sharing a side"""
    from simpeg import maps
    from simpeg.electromagnetics import frequency_domain as F
    from simpeg.electromagnetics import time_domain as T

    rng = ctx.rng
    msh = em_mesh(rng, "tensor", n=6)
    nC = msh.n_cells
    sig = rough(rng, nC, 1e-2, 1.0)
    tmax = 1.4e-4
    if form in "eb":
        P = rng.uniform(-30, 30, (4, 3))
    else:
        P = axis_path(rng)
    paths = [P, P[:3], P[2:]]
    L = axis_loop(rng)
    c = msh.cell_centers_x
    xm = 0.5 * (L[0, 0] + L[1, 0]) if form in "eb" else c[np.argmin(np.abs(c - 0.5 * (L[0, 0] + L[1, 0])))]
    loops = [L, np.array([L[0], [xm, *L[0, 1:]], [xm, *L[2, 1:]], L[3], L[0]]), np.array([[xm, *L[0, 1:]], L[1], L[2], [xm, *L[2, 1:]], [xm, *L[0, 1:]]])]
    for nm, ps in (("path", paths), ("loop", loops)):
        ctx.label(dom, form, nm)
        sl = []
        cur = float(rng.uniform(0.5, 2))
        if dom == "fd":
            rx = lambda: [F.Rx.PointElectricField(LOC, orientation="y", component="real"), F.Rx.PointMagneticFluxDensity(LOC, orientation="z", component="imag"), F.Rx.PointMagneticFluxDensity(LOC, orientation="x", component="real")]
            LOC = rx_locs(rng, 3)
            fr = float(np.exp(rng.uniform(0, 9)))
            sl = [F.Src.LineCurrent(rx(), fr, location=p, current=cur) for p in ps]
            Mod, kw = F, {}
        else:
            LOC = rx_locs(rng, 3)
            tms = np.sort(rng.uniform(0.1, 0.99, 3)) * tmax
            rx = lambda: [T.Rx.PointElectricField(LOC, tms, orientation="y"), T.Rx.PointMagneticFluxTimeDerivative(LOC, tms, orientation="z")]
            w = T.sources.TriangularWaveform(start_time=0.0, peak_time=tmax * 0.2, off_time=tmax * 0.4)
            sl = [T.Src.LineCurrent(rx(), location=p, current=cur, waveform=w) for p in ps]
            Mod, kw = T, dict(time_steps=[(1e-5, 2), (4e-5, 2), (2e-5, 2)])
        with quiet():
            sim = getattr(Mod, FD[form])(msh, survey=Mod.Survey(sl), sigmaMap=maps.IdentityMap(nP=nC), **kw)
            d = sim.dpred(sig).reshape(3, -1)
        nk = len(sl[0].receiver_list)
        ctx.event("survey regrouping")
        for a, b, c_ in zip(*(np.split(v, nk) for v in d)):
            ctx.close(a, b + c_, "additive over wires", rtol=1e-6, scale=max(np.abs(a).max(), np.abs(b).max(), np.abs(c_).max()))


# -------------------------------------------------------------- E/B against H/J
def cross(ctx, dom, kind):
    from discretize import TensorMesh

    from simpeg import maps
    from simpeg.electromagnetics import frequency_domain as F
    from simpeg.electromagnetics import time_domain as T

    rng = ctx.rng
    h = [(10.0, 3, -1.5), (10.0, 10), (10.0, 3, 1.5)]
    msh = TensorMesh([h, h, h], origin="CCC")
    sig = float(rng.uniform(0.05, 0.2)) * np.ones(msh.n_cells)
    cc = msh.cell_centers
    blk = np.all(np.abs(cc - np.r_[20, -10, -30.0]) < 25, axis=1)
    sig[blk] *= float(rng.choice([0.3, 3.0]))
    ctx.label(dom, kind)
    c = msh.cell_centers_x
    c = c[np.abs(c) < 36]
    lo, hi = c[0], c[-1]
    if kind == "Line":
        P = np.array([[lo, c[3], c[4]], [hi, c[3], c[4]]])
    else:
        P = np.array([[c[1], c[1], c[4]], [c[5], c[1], c[4]], [c[5], c[5], c[4]], [c[1], c[5], c[4]], [c[1], c[1], c[4]]])
    # receivers away from the wire
    locs = np.array([[4.0, 42.0, 3.0], [-22.0, -41.0, 12.0], [12.0, 20.0, 40.0], [-30, 5.0, -41.0]]) + rng.uniform(-3, 3, (4, 3))
    out = {}
    for form in "ej":
        if dom == "fd":
            fr = 200.0
            rx = [getattr(F.Rx, n)(locs, orientation=o, component=k) for n, k in (("PointElectricField", "real"), ("PointMagneticFluxDensity", "real")) for o in "xyz"]
            if kind == "MagDipole":
                src = F.Src.MagDipole(rx, fr, location=np.r_[2.0, -3, 4], orientation="z", moment=100.0)
                for r in rx[:3]:
                    r.component = "imag"
            else:
                src = F.Src.LineCurrent(rx, fr, location=P, current=3.0)
                if kind == "Loop":
                    for r in rx[:3]:
                        r.component = "imag"
            Mod, kw = F, {}
        else:
            tms = np.r_[2.5e-5, 5e-5]
            rx = [getattr(T.Rx, n)(locs, tms, orientation=o) for n in ("PointElectricField", "PointMagneticFluxTimeDerivative") for o in "xyz"]
            w = T.sources.RampOffWaveform(ramp_start=0.0, ramp_end=1e-5) if kind.endswith("off") else T.sources.TrapezoidWaveform(ramp_on=np.r_[0.0, 1e-5], ramp_off=np.r_[1e-3, 2e-3])
            if kind.startswith("MagDipole"):
                src = T.Src.MagDipole(rx, location=np.r_[2.0, -3, 4], orientation="z", moment=100.0, waveform=w)
            else:
                src = T.Src.LineCurrent(rx, location=P, current=3.0, waveform=w)
            Mod, kw = T, dict(time_steps=[(2.5e-6, 20)])
        with quiet():
            sim = getattr(Mod, FD[form])(msh, survey=Mod.Survey([src]), sigmaMap=maps.IdentityMap(nP=msh.n_cells), **kw)
            out[form] = sim.dpred(sig).reshape(2, -1)
    for nm, a, b in zip(("electric", "magnetic"), out["e"], out["j"]):
        ctx.event("cross formulation")
        sc = max(np.linalg.norm(a), np.linalg.norm(b))
        err, anti = np.linalg.norm(a - b) / sc, np.linalg.norm(a + b) / sc
        tol = 0.8 if dom == "td" and kind == "MagDipole" else CROSS_TOL
        if kind[:4] in ("Line", "Loop") and err > 1 and anti < tol:
            ctx.check(False, "E and J formulations have opposite signs for a wire", f"relative difference {err:.2f}, of the negative {anti:.2f}", e=a, j=b)
        else:
            ctx.check(err < tol, f"{nm} data of E and J formulations", f"relative difference {err:.2f}", e=a, j=b)


CROSS_TOL = 0.5


def _reg():
    for form in "ebhj":
        for i, k in enumerate(FDK):
            mesh = "tensor" if i % 3 or k in ("Line", "Loop") and form in "hj" else "tree"
            case("C18", f"fd_{form}_{k}", quick=1, thorough=8, cost=3)(lambda ctx, form=form, k=k, i=i, mesh=mesh: fd_laws(ctx, form, k + "+" + FDK[(i + 3) % len(FDK)] if mesh == "tensor" else k, mesh))
        for i, k in enumerate(TDK):
            if form == "b" and k == "Line:step":
                continue
            mesh = "tree" if i % 4 == 1 and form in "eb" or k == "MagDipole:trap" and form in "hj" else "tensor"
            case("C18", f"td_{form}_{k.replace(':', '_')}", quick=1, thorough=8, cost=3)(lambda ctx, form=form, k=k, mesh=mesh: td_laws(ctx, form, k, mesh))
        for dom, kinds in (("fd", ("MagDipole+Line", "CircularLoop+Loop")), ("td", ("MagDipole:trap", "Loop:tri", "CircularLoop:step"))):
            for kind in kinds:
                if dom == "fd":
                    case("C18", f"re_{dom}_{form}_{kind}".replace("+", "_"), quick=1, thorough=6, cost=4)(lambda ctx, dom=dom, form=form, kind=kind: regroup(ctx, dom, form, kind))
                else:
                    case("C18", f"re_{dom}_{form}_{kind}".replace(":", "_"), quick=1, thorough=6, cost=4)(lambda ctx, dom=dom, form=form, kind=kind: regroup_td(ctx, form, kind))
            case("C18", f"add_{dom}_{form}", quick=1, thorough=6, cost=3)(lambda ctx, dom=dom, form=form: additive(ctx, dom, form))
    case("C18", "fd_e_cyl", quick=1, thorough=6)(lambda ctx: fd_laws(ctx, "e", "CylLoop", "cyl"))
    case("C18", "fd_b_cyl", quick=1, thorough=6)(lambda ctx: fd_laws(ctx, "b", "CylLoop", "cyl"))
    for mesh in ("tensor", "tree"):
        case("C18", f"wire_{mesh}", quick=2, thorough=8)(lambda ctx, mesh=mesh: wire_edges(ctx, mesh))
    case("C18", "wire_faces", quick=2, thorough=8)(wire_faces)
    for dom, ks in (("fd", ("Line", "Loop", "MagDipole")), ("td", ("Line_off", "Line", "Loop_off", "Loop", "MagDipole"))):
        for k in ks:
            case("C18", f"cross_{dom}_{k}", quick=1, thorough=3, cost=6)(lambda ctx, dom=dom, k=k: cross(ctx, dom, k))


def regroup_td(ctx, form, kind):
    old = dict(STRENGTH)
    STRENGTH[kind] = STRENGTH[kind.split(":")[0]]
    try:
        regroup(ctx, "td", form, kind)
    finally:
        STRENGTH.clear()
        STRENGTH.update(old)


_reg()
