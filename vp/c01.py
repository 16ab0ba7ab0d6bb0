"""C01: Jvec is the derivative of dpred."""
import numpy as np

from . import scen
from .calc import check_deriv
from .core import case

RULE = "scenarios x option variants x random mesh/survey/model/direction; a case is distinct when its option tuple and the receiver block judged are new, non-trivial when the block's numerical derivative is observable (accurate to 2%)"
REQUIRED = {"blocks_judged": 300}


def judge(ctx, s, b=None):
    b = b or s.build()
    ctx.label(s.label)
    sim, m = b.sim, b.m
    v = b.direction(ctx.rng)
    blks = b.kw.get("blks") or scen.blocks(sim, nD=None)
    Jv = np.asarray(sim.Jvec(m, v))
    if sum(len(i) for _, i in blks) != Jv.size:
        blks = [("all", np.arange(Jv.size))]
    ctx.event("Jvec_calls")
    F = b.kw.get("F") or (lambda x: np.asarray(s.build().sim.dpred(x)) if b.kw.get("fresh") else np.asarray(sim.dpred(x)))
    check_deriv(ctx, F, Jv, m, v, blks, "Jvec!=d(dpred)", h=b.kw.get("h", 1e-2), rtol=b.kw.get("rtol", 2e-6), eps=b.kw.get("eps", 2e-12))


def register(pid, name, fn, quick=1, thorough=12, chunk=6):
    info = scen.REG[name]
    vs = scen.variants_of(name)
    cost = info["flags"].get("cost", 1.0)
    nch = max(1, int(np.ceil(len(vs) / info["flags"].get("chunk", chunk))))
    for c in range(nch):
        def run(ctx, c=c):
            from . import scen_pf

            scen_pf.SUBSET = int(ctx.rng.integers(2**31))
            for i in range(c, len(vs), nch):
                seed = int(ctx.rng.integers(2**31))
                s = scen.Scn(name, vs[i], seed)
                ctx.label(s.label)
                with ctx.guard():
                    fn(ctx, s)
        case(pid, f"{name}.{c}", quick=quick, thorough=thorough, cost=cost)(run)


scen.load_all()
for _n in scen.REG:
    register("C01", _n, judge)
