"""C04: results depend on the current inputs, never on the call history.

One instance is driven through a random history of calls, model changes (large, tiny and in place),
property and mapping reassignments.  After each call the result is compared with that of a newly
built simulation which makes only this call in the same configuration."""
import numpy as np
import scipy.sparse as sp

from . import scen
from .c01 import register

RULE = "scenarios x random histories of calls and reassignments; distinct when the option tuple, the call and the preceding reassignment are new"
REQUIRED = {"calls_compared": 1200, "model_changes": 500, "property_changes": 40, "map_changes": 60, "kept_fields": 80}
TOL = 1e-8
PROPS = ["sigma", "rho", "mu", "mui", "eta", "tau", "taui", "c", "thicknesses", "h", "rem", "chi", "q", "dchi", "slowness"]


def set_props(sim):
    """names of properties holding a fixed array or number."""
    out = []
    for p in PROPS:
        x = getattr(sim, "_" + p, None)
        if isinstance(x, (np.ndarray, float, int)) and isinstance(getattr(type(sim), p, None), property):
            if np.all(np.asarray(x) != 0):
                out.append(p)
    return out


def set_maps(sim):
    return sorted(n for n in getattr(sim, "_all_map_names", ()) if getattr(sim, "_" + n, None) is not None)


def apply_conf(sim, conf, b):
    from simpeg import maps

    for op in conf:
        if op[0] == "prop":
            setattr(sim, op[1], getattr(sim, op[1]) * op[2])
        else:
            n = b.m.size
            A = maps.LinearMap(sp.diags(1 + 0.1 * np.cos(np.arange(n)), format="csr"), op[2] * np.ones(n) * b.kw.get("vscale", 1.0))
            setattr(sim, op[1], getattr(sim, "_" + op[1]) * A)


def judge(ctx, s):
    rng = ctx.rng
    fl = s.info["flags"]
    ctx.label(s.label)
    b = s.build()
    sim = b.sim
    tol = 1e-6 if b.kw.get("adj_rtol", 0) >= 1e-6 else TOL
    d = b.direction(rng)
    models = [b.m, b.m + 0.2 * d, b.m + 3e-6 * d, b.m * (1 + 4e-6)]
    v = b.direction(rng)
    nD = np.asarray(s.build().sim.dpred(b.m)).size
    w = rng.standard_normal(nD)
    W = sp.diags(rng.uniform(0.5, 2, nD))
    calls = {"dpred": lambda x, m: x.dpred(m), "Jvec": lambda x, m: x.Jvec(m, v), "Jtvec": lambda x, m: x.Jtvec(m, w),
             "dpred_f": lambda x, m: x.dpred(m, f=x.fields(m)),
             "Jvec_f": lambda x, m: x.Jvec(m, v, f=x.fields(m)), "Jtvec_f": lambda x, m: x.Jtvec(m, w, f=x.fields(m)),
             "residual": lambda x, m: x.residual(m, w)}
    late = {"dpred": lambda x, m, f: x.dpred(m, f=f), "Jvec": lambda x, m, f: x.Jvec(m, v, f=f), "Jtvec": lambda x, m, f: x.Jtvec(m, w, f=f)}
    kept = {}
    if fl.get("gtg"):
        calls["gtg"] = lambda x, m: x.getJtJdiag(m)
        calls["gtgW"] = lambda x, m: x.getJtJdiag(m, W=W)
    names = list(calls)
    conf, memo, last = [], {}, "start"

    def ref(nm, k):
        key = (nm, k, len(conf))
        if key not in memo:
            c = s.build()
            apply_conf(c.sim, conf, c)
            try:
                memo[key] = np.array(calls[nm](c.sim, models[k].copy()))
            except NotImplementedError:
                memo[key] = None
        return memo[key]

    k = 0
    buf = models[0].copy()
    n = ctx.n(8, 40)
    for step in range(n):
        r = rng.random()
        if r < 0.5 or step == n // 2:
            k = int(rng.integers(4))
            ctx.event("model_changes")
            if rng.random() < 0.5:
                buf = models[k].copy()
                last = f"model {k}"
            else:
                buf[:] = models[k]  # the caller reuses its array
                last = "model in place"
        elif r < 0.6 and set_props(sim) and len(conf) < 3:
            p = str(rng.choice(set_props(sim)))
            op = ("prop", p, 1.1 if p == "c" else 1.3)
            conf.append(op)
            apply_conf(sim, [op], b)
            ctx.event("property_changes")
            last = "property " + p
        elif r < 0.7 and set_maps(sim) and len(conf) < 3:
            op = ("map", str(rng.choice(set_maps(sim))), 0.05)
            conf.append(op)
            apply_conf(sim, [op], b)
            ctx.event("map_changes")
            last = "map " + op[1]
        if rng.random() < 0.3:
            # fields of several models are alive at the same time
            kept[k, len(conf)] = (models[k].copy(), sim.fields(models[k]))
        olds = [q for q in kept if q[1] == len(conf)]
        if olds and rng.random() < 0.3:
            q = olds[int(rng.integers(len(olds)))]
            nm = str(rng.choice(list(late)))
            a = ref(nm, q[0])
            if a is None:
                continue
            ctx.event("kept_fields")
            if not ctx.close(np.asarray(late[nm](sim, *kept[q])), a, f"{nm} of kept fields depends on history[{last}]", rtol=tol):
                break
            continue
        nm = names[int(rng.integers(len(names)))]
        a = ref(nm, k)
        if a is None:
            continue
        try:
            got = np.asarray(calls[nm](sim, buf))
        except NotImplementedError:
            ctx.check(False, f"{nm} depends on history[{last}]", "not offered after this history")
            continue
        ctx.event("calls_compared")
        if not ctx.close(got, a, f"{nm} depends on history[{last}]", rtol=tol):
            # do not report the consequences of the first difference
            break


scen.load_all()
for _n in scen.REG:
    register("C04", _n, judge)
