"""C02: Jtvec is the exact adjoint of Jvec."""
import numpy as np

from . import scen
from .c01 import register
from .calc import check_adjoint


def judge(ctx, s):
    b = s.build()
    ctx.label(s.label)
    sim, m = b.sim, b.m
    for k in range(2):
        v = b.direction(ctx.rng)
        Jv = np.asarray(sim.Jvec(m, v))
        blks = b.kw.get("blks") or scen.blocks(sim, nD=Jv.size)
        if sum(len(i) for _, i in blks) != Jv.size:
            blks = [("all", np.arange(Jv.size))]
        W = np.zeros(Jv.size)
        for lab, ix in blks:
            n = np.linalg.norm(Jv[ix])
            w = np.zeros(Jv.size)
            w[ix] = ctx.rng.standard_normal(len(ix)) / (n if n > 0 else 1.0)
            W += w
        if k == 0:
            groups = [("all", np.arange(Jv.size))]
        else:
            groups = blks if len(blks) <= 6 else [blks[i] for i in ctx.rng.choice(len(blks), 6, replace=False)]
        for lab, ix in groups:
            w = np.zeros(Jv.size)
            w[ix] = W[ix]
            Jtw = np.asarray(sim.Jtvec(m, w))
            ctx.event("adjoint_pairs")
            if Jtw.shape != m.shape:
                ctx.check(False, "Jtvec shape", f"{Jtw.shape} != {m.shape}")
                continue
            check_adjoint(ctx, Jv, Jtw, v, w, blks, "w.Jv!=v.Jtw", rtol=b.kw.get("adj_rtol", 1e-8))
            ctx.distinct(lab)


scen.load_all()
REQUIRED = {"adjoint_pairs": 300}
for _n in scen.REG:
    register("C02", _n, judge)
