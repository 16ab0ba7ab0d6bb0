"""C10: fields objects.

(1) generic Fields / TimeFields under random sequences of writes and reads, against a dictionary that
holds one vector per (source, name, time); derived fields are functions that know the source and the
time they are evaluated for.  (2) the fields of every scenario: any selection of sources, in any order,
and of times, against reading one source and one time at a time; reading never changes the store, and
fields of a survey with its sources reordered are the same per source."""
import numpy as np

from . import scen
from .c01 import register
from .core import case

RULE = "fields classes x selections of sources, names and times x histories of writes; distinct when class, name and kind of selection are new"
REQUIRED = {"writes": 150, "reads": 800, "scenario_fields": 60, "selections": 400}


def world(rng, timed):
    from discretize import TensorMesh
    from simpeg import simulation, survey

    mesh = TensorMesh([int(rng.integers(1, 4)) for _ in range(3)])
    ns = int(rng.integers(1, 5))
    sv = survey.BaseSurvey([survey.BaseSrc([]) for _ in range(ns)])
    if timed:
        from simpeg.base import BasePDESimulation

        class Timed(simulation.BaseTimeSimulation, BasePDESimulation):
            pass

        sim = Timed(mesh=mesh, survey=sv, time_steps=rng.uniform(0.1, 1, int(rng.integers(1, 5))))
    else:
        from simpeg.base import BasePDESimulation

        sim = BasePDESimulation(mesh, survey=sv)
    return mesh, sv, sim


SIZE = {"CC": "n_cells", "N": "n_nodes", "F": "n_faces", "E": "n_edges"}


def choose_src(rng, ns):
    """(key for the fields object, list of source numbers, kind)"""
    k = int(rng.integers(4))
    if k == 0:
        i = int(rng.integers(ns))
        return i, [i], "one"
    if k == 1:
        p = [int(i) for i in rng.permutation(ns)[: int(rng.integers(1, ns + 1))]]
        return p, p, "list"
    if k == 2:
        return slice(None), list(range(ns)), "all"
    a, b = sorted(int(i) for i in rng.integers(0, ns + 1, 2))
    if a == b:
        return slice(None), list(range(ns)), "all"
    return slice(a, b), list(range(ns))[a:b], "slice"


def choose_time(rng, nt):
    k = int(rng.integers(4))
    if k == 0:
        i = int(rng.integers(nt))
        return i, [i], "one"
    if k == 1:
        return slice(None), list(range(nt)), "all"
    a, b = sorted(int(i) for i in rng.integers(0, nt + 1, 2))
    if a == b:
        return slice(None), list(range(nt)), "all"
    if k == 2:
        return slice(a, b), list(range(nt))[a:b], "slice"
    i = int(rng.integers(nt))
    return -1 - i, [nt - 1 - i], "from the end"


@case("C10", "generic", quick=6, thorough=120)
def generic(ctx):
    from simpeg.fields import Fields

    rng = ctx.rng
    for _ in range(ctx.n(6, 8)):
        mesh, sv, sim = world(rng, False)
        ns = sv.nSrc
        cplx = bool(rng.integers(2))
        dt = complex if cplx else float
        locs = {f"k{i}": str(rng.choice(["CC", "N", "F", "E"])) for i in range(int(rng.integers(1, 4)))}
        seen = []

        def derived(u, srcs):
            seen.append(list(srcs))
            fac = np.array([float(1 + sv.source_list.index(s)) for s in srcs])
            return u * fac + fac**2

        ctx.label("Fields", f"complex={cplx} nSrc={ns}")
        with ctx.guard():
            f = Fields(sim, knownFields=dict(locs), aliasFields={"d0": ["k0", locs["k0"], derived]}, dtype=dt)
            ref = {}
            for step in range(12):
                nm = list(locs)[int(rng.integers(len(locs)))]
                n = getattr(mesh, SIZE[locs[nm]])
                key, ids, kind = choose_src(rng, ns)
                kk = key if isinstance(key, slice) else (sv.source_list[key] if isinstance(key, int) else [sv.source_list[i] for i in key])
                x = rng.standard_normal((n, len(ids))) + (1j * rng.standard_normal((n, len(ids))) if cplx else 0)
                how = int(rng.integers(4))
                ctx.event("writes")
                if nm not in ref:
                    ref[nm] = np.zeros((n, ns), dtype=dt)
                if how == 0 and len(ids) == 1:
                    f[kk, nm] = x[:, 0]
                elif how == 1:
                    f[kk] = {nm: x}
                elif how == 2:
                    x = np.full((n, len(ids)), rng.standard_normal())
                    f[kk, nm] = float(x[0, 0])
                else:
                    f[kk, nm] = x
                given = x.copy()
                ref[nm][:, ids] = x
                if isinstance(x, np.ndarray):
                    x[:] = 1e9  # the store does not follow the caller's array
                del given
                for r in range(3):
                    key, ids, kind = choose_src(rng, ns)
                    kk = key if isinstance(key, slice) else (sv.source_list[key] if isinstance(key, int) else [sv.source_list[i] for i in key])
                    for q in list(ref):
                        ctx.event("reads")
                        ctx.distinct("read", kind)
                        y = f[kk, q]
                        ctx.check(y.shape == ref[q][:, ids].shape and np.array_equal(y, ref[q][:, ids]), "stored field read back", f"{kind} {q} {ids}")
                    if "k0" in ref:
                        fac = np.array(ids, dtype=float) + 1
                        ctx.event("reads")
                        y = f[kk, "d0"]
                        ctx.check(y.shape == ref["k0"][:, ids].shape and np.allclose(y, ref["k0"][:, ids] * fac + fac**2, rtol=1e-13, atol=1e-13), "derived field", f"{kind} {ids}")
                        ctx.check(seen[-1] == [sv.source_list[i] for i in ids], "sources of a derived field", kind)
                    allf = f[kk]
                    ctx.check(sorted(allf) == sorted(ref) and all(np.array_equal(allf[q], ref[q][:, ids]) for q in ref), "all fields of sources")
            ctx.check(all(q in f for q in ref) and ("d0" in f) == ("k0" in ref), "membership")
            ctx.raises(KeyError, lambda: f.__setitem__((slice(None), "d0"), 1.0), "derived field is assigned")
            ctx.raises(KeyError, lambda: f[:, "nothing"], "unknown field")


@case("C10", "timed", quick=6, thorough=120)
def timed(ctx):
    from simpeg.fields import TimeFields

    rng = ctx.rng
    for _ in range(ctx.n(6, 8)):
        mesh, sv, sim = world(rng, True)
        ns, nt = sv.nSrc, sim.nT + 1
        locs = {f"k{i}": str(rng.choice(["N", "F", "E"])) for i in range(int(rng.integers(1, 4)))}
        calls = []

        def derived(u, srcs, t):
            t = int(np.squeeze(t))
            calls.append((list(srcs), t))
            fac = np.array([float(1 + sv.source_list.index(s)) for s in srcs])
            return u * fac + 10.0 * t

        ctx.label("TimeFields", f"nSrc={ns}")
        with ctx.guard():
            f = TimeFields(sim, knownFields=dict(locs), aliasFields={"d0": ["k0", locs["k0"], derived]})
            ref = {}
            for step in range(10):
                nm = list(locs)[int(rng.integers(len(locs)))]
                n = getattr(mesh, SIZE[locs[nm]])
                key, ids, kind = choose_src(rng, ns)
                kk = key if isinstance(key, slice) else (sv.source_list[key] if isinstance(key, int) else [sv.source_list[i] for i in key])
                tk, ts, tkind = choose_time(rng, nt)
                if nm not in ref:
                    ref[nm] = np.zeros((n, ns, nt))
                x = rng.standard_normal((n, len(ids), len(ts)))
                ctx.event("writes")
                if rng.random() < 0.2:
                    x[:] = rng.standard_normal()
                    f[kk, nm, tk] = float(x.flat[0])
                elif rng.random() < 0.3:
                    f[kk, nm, tk] = x.ravel(order="F")
                else:
                    f[kk, nm, tk] = np.squeeze(x, axis=tuple(a for a in (1, 2) if x.shape[a] == 1)) if rng.random() < 0.5 else x
                ref[nm][np.ix_(range(n), ids, ts)] = x
                for r in range(3):
                    key, ids, kind = choose_src(rng, ns)
                    kk = key if isinstance(key, slice) else (sv.source_list[key] if isinstance(key, int) else [sv.source_list[i] for i in key])
                    tk, ts, tkind = choose_time(rng, nt)
                    for q in list(ref) + (["d0"] if "k0" in ref else []):
                        ctx.event("reads")
                        ctx.distinct("read", q[0], kind, tkind)
                        if q == "d0":
                            want = ref["k0"][np.ix_(range(len(ref["k0"])), ids, ts)] * (np.array(ids) + 1.0)[None, :, None] + 10.0 * np.array(ts)[None, None, :]
                        else:
                            want = ref[q][np.ix_(range(len(ref[q])), ids, ts)]
                        y = f[kk, q, tk]
                        ctx.check(y.size == want.size and np.allclose(y.ravel(order="F"), want.ravel(order="F"), rtol=1e-13, atol=1e-13), "stored field read back" if q != "d0" else "derived field", f"{q} {kind} {tkind} {ids} {ts} {y.shape}")
                        sh = tuple(s for s in want.shape if s > 1)
                        sh = sh + (1,) if len(sh) == 1 else sh
                        ctx.check(want.shape[0] == 1 or y.shape == sh, "shape of a field", f"{y.shape} {sh}")


def names(f):
    return list(f.knownFields) + list(f.aliasFields)


def judge(ctx, s):
    from simpeg.fields import Fields, TimeFields

    b = s.build()
    sim, m, rng = b.sim, b.m, ctx.rng
    ctx.label(s.label)
    try:
        f = sim.fields(m)
    except NotImplementedError:
        return
    if not isinstance(f, Fields):
        ctx.event("no_fields_object")
        return
    sv = f.survey
    ns = sv.nSrc
    if ns < 1:
        return
    ctx.event("scenario_fields")
    is_t = isinstance(f, TimeFields)
    two_d = is_t and not hasattr(sim, "time_steps")
    srcs = sv.source_list
    nt = sim.nT + 1 if is_t and not two_d else None
    snap = {q: np.array(f[:, q]) for q in f.knownFields if q in f}
    for q in names(f):
        if q not in f or q == "charge_density" and "mesh=cyl" in s.label:  # (no node averaging on such meshes)
            continue
        try:
            y = np.asarray(f[srcs[0], q] if not is_t or two_d else f[srcs[0], q, 0])
        except (NotImplementedError, AttributeError):
            continue
        ctx.event("fields_read")
        # one at a time
        if nt is None:
            one = [np.asarray(f[x, q]) for x in srcs]
            one = [x.reshape(x.shape[0], -1) if not two_d or q in f.aliasFields else x for x in one]
        else:
            one = [[np.asarray(f[x, q, t]).ravel() for t in range(nt)] for x in srcs]
        sc = max(np.abs(np.asarray(x)).max() for x in one) or 1.0
        for _ in range(ctx.n(4, 12)):
            key, ids, kind = choose_src(rng, ns)
            kk = key if isinstance(key, slice) else (srcs[key] if isinstance(key, int) else [srcs[i] for i in key])
            ctx.event("selections")
            if nt is None:
                ctx.distinct(q, kind)
                y = np.asarray(f[kk, q])
                if two_d and q in f.knownFields:
                    want = np.stack([x.reshape(x.shape[0], -1) for x in (one[i] for i in ids)], axis=1)
                    ctx.close(y.ravel(order="F"), want.ravel(order="F"), "fields of a selection of sources", rtol=1e-9, atol=1e-11 * sc, msg=f"{q} {kind} {ids}")
                else:
                    want = np.concatenate([one[i] for i in ids], axis=1)
                    ctx.close(y.reshape(want.shape, order="F"), want, "fields of a selection of sources", rtol=0, atol=1e-10 * sc, msg=f"{q} {kind} {ids}")
            else:
                tk, ts, tkind = choose_time(rng, nt)
                ctx.distinct(q, kind, tkind)
                y = np.asarray(f[kk, q, tk])
                want = np.stack([np.stack([one[i][t] for i in ids], axis=1) for t in ts], axis=2)
                ctx.close(y.ravel(order="F"), want.ravel(order="F"), "fields of a selection of sources and times", rtol=0, atol=1e-10 * sc, msg=f"{q} {kind} {tkind} {ids} {ts}")
    for q in snap:
        ctx.check(np.array_equal(snap[q], f[:, q]), "reading changes the store", q)
    # sources in another order: the same fields for each source
    if ns > 1 and not two_d and sv is sim.survey:
        b2 = s.build()
        p = rng.permutation(ns)
        old = list(b2.sim.survey.source_list)
        try:
            b2.sim.survey.source_list = [old[i] for i in p]
        except (AttributeError, ValueError, TypeError):
            return
        f2 = b2.sim.fields(m)
        ctx.event("reordered")
        for q in snap:
            for i in range(ns):
                x, y = np.asarray(f[srcs[i], q]), np.asarray(f2[old[i], q])
                ctx.close(y, x, "fields of a source in a reordered survey", rtol=1e-7, atol=1e-10 * np.abs(snap[q]).max(), msg=q)


scen.load_all()
for _n in scen.REG:
    if scen.REG[_n]["group"] not in ("pf",) and _n not in ("linear",):
        register("C10", _n, judge, quick=1)
