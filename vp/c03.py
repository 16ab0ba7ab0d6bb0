"""C03: explicit sensitivities, Gram diagonals, precomputed fields and storage options agree with implicit products."""
import numpy as np
import scipy.sparse as sp

from . import scen
from .c01 import register

RULE = "scenarios x option variants x random model/vectors/weights; distinct when the option tuple and the compared pair (fields, getJ, Gram diagonal, storage toggle) are new"
REQUIRED = {"fields_pairs": 100, "getJ_pairs": 60, "gtg_pairs": 40, "toggle_pairs": 60}
TOL = 1e-7


def cmp(ctx, a, b, key, tol=TOL, blks=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or blks is None:
        return ctx.close(a, b, key, rtol=tol)
    for lab, ix in blks:
        ctx.close(a[ix], b[ix], key, rtol=tol, atol=1e-12 * np.abs(b).max(), msg=lab)


def full_J(s, **over):
    """rows of J from unit-vector transposed products of a fresh simulation."""
    b = s.build(**over)
    nD = np.asarray(b.sim.dpred(b.m)).size
    return np.vstack([np.asarray(b.sim.Jtvec(b.m, e)) for e in np.eye(nD)])


def toggles(name, o):
    """alternative values of options that must not change results."""
    out = []
    if name in ("dc3d", "dc2d"):
        out = [dict(storeJ=not o["storeJ"]), dict(mini=not o["mini"]), dict(storeJ=not o["storeJ"], mini=not o["mini"])]
        # receivers of other kinds than voltages are not drawn with mini: keep the draw
        out = [t for t in out if "mini" not in t]
    elif name in ("ip", "sip", "sp", "magdiff"):
        if name == "sip" and o["dim"] == 2:
            return []
        out = [dict(storeJ=not o["storeJ"])]
    elif name in ("grav3d", "mag3d", "eqlayer"):
        alt = ["ram", "disk"] if o["eng"] == "geoana" else ["ram", "disk", "forward_only"]
        out = [dict(store=a) for a in alt if a != o["store"]]
        if name == "eqlayer":
            out = [t for t in out if t["store"] != "disk"] + [t for t in out if t["store"] == "disk"]
    elif name in ("em1d_fd", "em1d_td"):
        out = [dict(fixJ=False)]
    return out


def judge(ctx, s):
    ctx.label(s.label)
    fl = s.info["flags"]
    b = s.build()
    sim, m = b.sim, b.m
    tol = 10 * TOL if b.kw.get("adj_rtol", 0) >= 1e-6 else TOL
    v = b.direction(ctx.rng)
    d0 = np.asarray(sim.dpred(m))
    w = ctx.rng.standard_normal(d0.size)
    blks = b.kw.get("blks") or scen.blocks(sim, nD=d0.size)
    # independent objects: results without precomputed fields
    b1 = s.build()
    Jv = np.asarray(b1.sim.Jvec(m, v))
    Jtw = np.asarray(s.build().sim.Jtvec(m, w))
    # (1) fields supplied
    with ctx.guard():
        b2 = s.build()
        f = b2.sim.fields(m)
        cmp(ctx, b2.sim.dpred(m, f=f), d0, "dpred(m,f)!=dpred(m)", tol, blks)
        cmp(ctx, b2.sim.Jvec(m, v, f=f), Jv, "Jvec(m,v,f)!=Jvec(m,v)", tol, blks)
        cmp(ctx, b2.sim.Jtvec(m, w, f=f), Jtw, "Jtvec(m,w,f)!=Jtvec(m,w)", tol)
        ctx.event("fields_pairs", 3)
    # (2) explicit sensitivity
    J = Jx = None
    if fl.get("getJ"):
        with ctx.guard():
            nm = fl["getJ"] if isinstance(fl["getJ"], str) else "getJ"
            b3 = s.build()
            if hasattr(b3.sim, nm):
                try:
                    J = getattr(b3.sim, nm)(m)
                except NotImplementedError:
                    ctx.event("getJ_not_offered")
                    J = None
                if J is not None:
                    J = as_matrix(ctx, J, b3.sim, m, v, w)
                    scale = getattr(b3.sim, "_scale", None) if s.name == "ip" else None
                    if scale is not None:  # the IP matrix is in voltage units, see BaseIPSimulation
                        Jx = np.asarray(J) * scale[:, None]
                    else:
                        Jx = J
                    cmp(ctx, Jx @ v, Jv, "getJ@v!=Jvec", tol, blks)
                    cmp(ctx, Jx.T @ w, Jtw, "getJ.T@w!=Jtvec", tol)
                    ctx.event("getJ_pairs", 2)
    # (3) Gram diagonal
    if fl.get("gtg") and b.kw.get("single", True):
        with ctx.guard():
            Jm = np.asarray(Jx) if isinstance(Jx, np.ndarray) else full_J(s)
            ws = [None, ctx.rng.uniform(0.2, 3, d0.size), ctx.rng.uniform(0.2, 3, d0.size)]
            order = ctx.rng.permutation(3)
            b4 = s.build()
            seen = []
            for k in order:
                W = ws[k]
                arg = None if W is None else sp.diags(W)
                try:
                    g = np.asarray(b4.sim.getJtJdiag(m, W=arg))
                except NotImplementedError:
                    ctx.event("gtg_not_offered")
                    break
                ref = np.sum((Jm if W is None else W[:, None] * Jm) ** 2, axis=0)
                seen.append("none" if W is None else "W")
                cmp(ctx, g, ref, "getJtJdiag!=diag(JtWtWJ)[" + ",".join(seen) + "]", 1e-6)
                ctx.event("gtg_pairs")
            # products are unaffected by having formed the diagonal
            cmp(ctx, b4.sim.Jvec(m, v), Jv, "Jvec after getJtJdiag", tol, blks)
            cmp(ctx, b4.sim.Jtvec(m, w), Jtw, "Jtvec after getJtJdiag", tol)
    # (4) storage options
    for t in toggles(s.name, s.opts):
        with ctx.guard():
            ctx.label(s.label, "toggled", t)
            c = s.build(**t)
            cmp(ctx, c.sim.dpred(m), d0, "dpred depends on storage", tol, blks)
            cmp(ctx, c.sim.Jvec(m, v), Jv, "Jvec depends on storage", tol, blks)
            cmp(ctx, c.sim.Jtvec(m, w), Jtw, "Jtvec depends on storage", tol)
            ctx.event("toggle_pairs", 3)
    ctx.label(s.label)


def as_matrix(ctx, J, sim, m, v, w):
    if isinstance(J, (list, tuple)):
        return np.vstack([np.asarray(j) for j in J])
    if isinstance(J, dict):  # 1D EM: one block per property
        out = 0
        for k, A in J.items():
            D = {"ds": "sigmaDeriv", "dmu": "muDeriv", "dh": "hDeriv", "dthick": "thicknessesDeriv"}.get(k)
            if D is None or np.isscalar(A):
                continue
            out = out + np.asarray(A) @ getattr(sim, D)
        return out
    return J


scen.load_all()
for _n in scen.REG:
    register("C03", _n, judge)
