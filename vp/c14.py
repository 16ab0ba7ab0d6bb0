"""C14: engines, precision, storage and every kind of parallel execution give the same answers.

The serial, in-memory, double-precision run of one engine is the reference of a trace of calls; the same calls are
replayed on every other engine / storage / type / thread / process / dask configuration and compared call by call.
Thread schedules are varied by thread counts, injected delays (a member that sleeps) and repetition."""
import os
import tempfile
import time
import warnings

import numpy as np
import scipy.sparse as sp

from . import scen, scen_pf
from .c15 import Member, draw
from .core import case, quiet

RULE = "scenario x execution configuration (engine, storage, type, threads, processes, chunks) x call; distinct when the configuration and the call are new"
REQUIRED = {"engine calls": 600, "process calls": 70, "dask calls": 300, "dask sims": 20, "worker errors": 4}


def trace(sim, m, v, w, Ws, gtg=True, fwd=False):
    out = {"dpred": np.asarray(sim.dpred(m))}
    if fwd:
        return out
    out["Jvec"] = np.asarray(sim.Jvec(m, v))
    out["Jtvec"] = np.asarray(sim.Jtvec(m, w))
    if gtg:
        for i, W in enumerate(Ws):
            try:
                out[f"gtg{i}"] = np.asarray(sim.getJtJdiag(m, W))
            except NotImplementedError:
                pass
    return out


def compare(ctx, got, ref, key, tol, blks, ev):
    for k in got:
        if k not in ref:
            continue
        a, b = got[k], ref[k]
        ctx.event(ev)
        ctx.distinct((key, k))
        if k in ("dpred", "Jvec") and blks:
            for lab, ix in blks:
                ctx.close(a[ix], b[ix], f"{k} differs: {key}", rtol=tol, msg=lab)
        else:
            ctx.close(a, b, f"{k} differs: {key}", rtol=tol)


def pf_blocks(sim):
    """one block per component (of each receiver list): components have different units"""
    out, i = [], 0
    for rx in sim.survey.source_field.receiver_list:
        n, nc = rx.locations.shape[0], len(rx.components)
        for c in range(nc):
            out.append((rx.components[c], i + np.arange(n) * nc + c))
        i += n * nc
    return out


GROUPS = [("grav3d", {"mesh": "tensor", "mp": "act"}, ["gx", "gy", "gz", "gxx"]),
          ("grav3d", {"mesh": "tree", "mp": "exp"}, ["gxy", "gxz", "gyy"]),
          ("grav3d", {"mesh": "tensor", "mp": "surject"}, ["gyz", "gzz", "guv"]),
          ("eqlayer", {"mesh": "tensor", "fld": "grav"}, ["gx", "gz", "gxy", "guv"]),
          ("eqlayer", {"mesh": "tree", "fld": "grav"}, ["gy", "gyy", "gzz"]),
          ("eqlayer", {"mesh": "tensor", "fld": "mag"}, ["tmi", "bx", "tmi_y"]),
          ("eqlayer", {"mesh": "tree", "fld": "magvec"}, ["tmi", "bz", "tmi_x"]),
          ("eqlayer", {"mesh": "tensor", "fld": "magvec"}, ["by", "tmi_z", "bxy"]),
          ("mag3d", {"mesh": "tensor", "mp": "act", "typ": "amp"}, None)]
for _t in ("scalar", "vector"):
    GROUPS += [("mag3d", {"mesh": "tree", "mp": "act", "typ": _t}, ["bx", "by", "bz", "tmi"]),
               ("mag3d", {"mesh": "tensor", "mp": "exp" if _t == "scalar" else "act", "typ": _t}, ["tmi_x", "tmi_y", "tmi_z"]),
               ("mag3d", {"mesh": "tensor", "mp": "full", "typ": _t}, ["bxx", "bxy", "bxz", "byy", "byz", "bzz"])]


def engines(ctx, name, opts, comps):
    rng = ctx.rng
    scen_pf.ONLY = comps
    seed = int(rng.integers(2**31))
    s = scen.Scn(name, dict(opts, eng="geoana", store="ram", par=False), seed)
    b = s.build()
    m = b.m
    v = b.direction(rng)
    nd = np.asarray(b.sim.dpred(m)).size
    w = rng.standard_normal(nd)
    Ws = [None, sp.diags(rng.uniform(0.3, 3, nd))]
    amp = opts.get("typ") == "amp"
    blks = None if amp else pf_blocks(b.sim)
    ref = trace(b.sim, m, v, w, Ws)
    confs = [dict(eng="geoana", store="ram", dtype="f4"), dict(eng="geoana", store="disk"), dict(eng="geoana", store="forward_only"),
             dict(eng="geoana", store="ram", nproc=2)]
    for par in (False, True):
        confs += [dict(eng="choclo", store="ram", par=par), dict(eng="choclo", store="forward_only", par=par)]
    confs += [dict(eng="choclo", store="ram", par=True, dtype="f4"), dict(eng="choclo", store="disk", par=False)]
    if not ctx.thorough:
        # the kernels of the parallel and the serial runs are compiled separately
        confs[0]["skip"] = bool(rng.integers(2))
    for c in confs:
        if c.pop("skip", False):
            continue
        c = dict(c)
        npr = c.pop("nproc", 1)
        lab = ",".join(f"{k}={x}" for k, x in c.items()) + (f",processes={npr}" if npr > 1 else "")
        ctx.label(f"{s.label} {lab}")
        with ctx.guard():
            with quiet():
                x = s.build(**c)
                if npr > 1:
                    x.sim.n_processes = npr
                fwd = c["eng"] == "geoana" and c["store"] == "forward_only"
                if fwd and amp:
                    continue
                got = trace(x.sim, m, v, w, Ws, fwd=fwd)
            tol = 2e-4 if c.get("dtype") == "f4" else 1e-7
            compare(ctx, got, ref, lab, tol, blks, "engine calls")
    scen_pf.ONLY = None


def _fld(n, o):
    return "grav" if n == "grav3d" or o.get("fld") == "grav" else "mag"


# two scenarios of the same field per process: they share the compiled kernels
_S = sorted(range(len(GROUPS)), key=lambda i: _fld(*GROUPS[i][:2]))
for _k in range(0, len(_S), 2):
    def _run(ctx, ids=_S[_k:_k + 2]):
        for i in ids:
            engines(ctx, *GROUPS[i])
    case("C14", "engines." + "+".join(f"{i}{GROUPS[i][0]}" for i in _S[_k:_k + 2]), quick=1, thorough=4, cost=16)(_run)


@case("C14", "threads", quick=1, thorough=6, cost=6)
def threads(ctx):
    """many receivers on all threads, repeated: every schedule gives the serial result"""
    import numba
    from simpeg import maps
    from simpeg.potential_fields import gravity, magnetics

    rng = ctx.rng
    mesh = scen.tensor3(rng, n=(6, 6, 5))
    act = rng.random(mesh.n_cells) < 0.9
    n = int(act.sum())
    locs = np.c_[rng.uniform(-60, 60, (64, 2)), rng.uniform(1, 30, 64)]
    m = rng.uniform(0, 0.1, n)

    def mk(mag, store, par):
        kw = dict(active_cells=act, engine="choclo", store_sensitivities=store, numba_parallel=par, sensitivity_dtype=np.float64)
        if mag:
            src = magnetics.UniformBackgroundField(receiver_list=[magnetics.Point(locs, components=["tmi"])], amplitude=5e4, inclination=60.0, declination=10.0)
            return magnetics.Simulation3DIntegral(mesh, survey=magnetics.Survey(src), chiMap=maps.IdentityMap(nP=n), **kw)
        return gravity.Simulation3DIntegral(mesh, survey=gravity.Survey(gravity.SourceField([gravity.Point(locs, components=["gz"])])), rhoMap=maps.IdentityMap(nP=n), **kw)

    w = rng.standard_normal(64)
    W = sp.diags(rng.uniform(0.5, 2, 64))
    for mag in (False, True):
        for store in ("ram", "forward_only"):
            ctx.label(f"{'mag' if mag else 'grav'} {store}")
            ref = trace(mk(mag, store, False), m, m, w, [W])
            for nt in sorted({1, 2, numba.config.NUMBA_NUM_THREADS}):
                numba.set_num_threads(nt)
                for _ in range(ctx.n(6, 30)):
                    compare(ctx, trace(mk(mag, store, True), m, m, w, [W]), ref, f"threads {store}", 1e-10, None, "engine calls")
            numba.set_num_threads(numba.config.NUMBA_NUM_THREADS)


# ------------------------------------------------------------------ processes
LIGHT = ["linear", "grav3d", "dc1d", "nsem1d", "em1d_fd", "tomo", "dc2d"]


def serial_of(kind, mems):
    from simpeg import meta

    if kind == "RepeatedSimulation":
        return meta.RepeatedSimulation(mems[0].sim(), [m.mk() for m in mems])
    return getattr(meta, kind)([m.sim() for m in mems], [m.mk() for m in mems])


def members(rng, kind, N, k):
    if kind == "MetaSimulation":
        return [Member(rng, draw(rng, LIGHT), N, str(rng.choice(["one", "dense"]))) for _ in range(k)]
    s = draw(rng, LIGHT)
    return [Member(rng, s, N, str(rng.choice(["one", "dense"])), shift=0.05 * i) for i in range(k)]


def replay(ctx, ser, par, N, key, ev, steps):
    """the same random history of calls on both; kept fields included"""
    rng = ctx.rng
    nD = ser.survey.nD
    ctx.check(par.survey.nD == nD, f"nD differs: {key}", f"{par.survey.nD} != {nD}")
    xs = [rng.standard_normal(N) for _ in range(3)]
    v, w = rng.standard_normal(N), rng.standard_normal(nD)
    Ws = [None, sp.diags(rng.uniform(0.5, 2, nD)), sp.diags(rng.uniform(0.5, 2, nD))]
    ops = ["dpred", "Jvec", "Jtvec", "gtg", "fields", "model"]
    kept = {}
    for i in range(steps):
        x = xs[int(rng.integers(3))].copy()
        op = ops[i] if i < 4 else str(rng.choice(ops))
        W = Ws[int(rng.integers(3))]
        with_f = bool(rng.integers(2))
        res = []
        for sm, tag in ((ser, 0), (par, 1)):
            f = kept.get((tag, x.tobytes())) if with_f else None
            if op == "fields":
                kept[tag, x.tobytes()] = sm.fields(x)
                continue
            if op == "model":
                sm.model = x
                res.append(np.asarray(sm.dpred()))
            elif op == "dpred":
                res.append(np.asarray(sm.dpred(x, f=f)))
            elif op == "Jvec":
                res.append(np.asarray(sm.Jvec(x, v, f=f)))
            elif op == "Jtvec":
                res.append(np.asarray(sm.Jtvec(x, w, f=f)))
            else:
                try:
                    res.append(np.asarray(sm.getJtJdiag(x, W=W, f=f)))
                except (NotImplementedError, AttributeError):
                    break
        if len(res) == 2:
            ctx.event(ev)
            ctx.distinct((key, op, with_f))
            if not ctx.close(res[1], res[0], f"{op} differs: {key}", rtol=1e-9, msg=f"step {i}"):
                return


@case("C14", "processes", quick=5, thorough=30, cost=4)
def processes(ctx):
    from simpeg.meta import multiprocessing as mp

    rng = ctx.rng
    for kind in ("MetaSimulation", "SumMetaSimulation", "RepeatedSimulation"):
        N = int(rng.integers(4, 12))
        k = int(rng.integers(1, 6))
        mems = members(rng, kind, N, k)
        npr = int(rng.integers(1, k + 2))
        ctx.label(f"{kind} {k} members on {npr} processes: " + "+".join(m.s.name for m in mems))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ser = serial_of(kind, mems)
            cls = getattr(mp, "Multiprocessing" + kind)
            if kind == "RepeatedSimulation":
                par = cls(mems[0].sim(), [m.mk() for m in mems], n_processes=npr)
            else:
                par = cls([m.sim() for m in mems], [m.mk() for m in mems], n_processes=npr)
        try:
            with ctx.guard():
                replay(ctx, ser, par, N, f"Multiprocessing{kind}, {'fewer' if npr < k else 'enough'} processes", "process calls", ctx.n(9, 25))
        finally:
            par.join()


def failing():
    """a member that fails for models with a negative sum, and answers at its own pace"""
    global Sometimes
    from simpeg import simulation

    class Sometimes(simulation.LinearSimulation):
        __qualname__ = "Sometimes"
        delay = 0.0

        def fields(self, m):
            time.sleep(self.delay)
            if np.sum(m) < 0:
                raise FloatingPointError("cannot do this model")
            return super().fields(m)

        def Jvec(self, m, v, f=None):
            if np.sum(v) < 0:
                raise ZeroDivisionError("cannot do this vector")
            return super().Jvec(m, v, f=f)

    return Sometimes


@case("C14", "worker_errors", quick=2, thorough=10, cost=3)
def worker_errors(ctx):
    """an error in a worker reaches the caller, and later calls are answered as if it had not happened"""
    from simpeg import maps
    from simpeg.meta import multiprocessing as mp
    from simpeg.survey import BaseSurvey, BaseSrc, BaseRx

    rng = ctx.rng
    n, nd = 5, 4
    cls = failing()
    Gs = [rng.standard_normal((nd, n)) for _ in range(3)]
    sims = []
    for i, G in enumerate(Gs):
        # nD from a survey of random data
        rx = BaseRx(np.zeros((nd, 1)), storeProjections=False)
        s = cls(survey=BaseSurvey([BaseSrc([rx])]), model_map=maps.IdentityMap(nP=n), G=G)
        s.delay = float(rng.uniform(0, 0.03))
        sims.append(s)
    # only the second member sees the sign
    mps = [maps.LinearMap(sp.identity(n, format="csr"), 100 * np.ones(n)), maps.IdentityMap(nP=n), maps.LinearMap(sp.identity(n, format="csr"), 50 * np.ones(n))]
    offs = [100.0, 0.0, 50.0]
    for kind in ("MetaSimulation", "SumMetaSimulation"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            par = getattr(mp, "Multiprocessing" + kind)(sims, mps, n_processes=int(rng.integers(1, 4)))
        ctx.label(f"Multiprocessing{kind} with failing member")

        def want(what, x, v):
            r = [G @ (x + o) if what == "dpred" else G @ v for G, o in zip(Gs, offs)]
            return np.concatenate(r) if kind == "MetaSimulation" else sum(r)

        try:
            for i in range(ctx.n(10, 40)):
                x = np.abs(rng.standard_normal(n))
                v = np.abs(rng.standard_normal(n))
                r = rng.random()
                if r < 0.35:
                    ctx.event("worker errors")
                    ctx.raises(Exception, lambda: par.dpred(-x), "error of a worker process is lost")
                elif r < 0.5:
                    ctx.event("worker errors")
                    ctx.raises(Exception, lambda: par.Jvec(x, -v), "error of a worker process is lost")
                else:
                    ctx.event("process calls", 2)
                    ctx.close(par.dpred(x), want("dpred", x, v), f"dpred after worker errors: {kind}", rtol=1e-10)
                    ctx.close(par.Jvec(x, v), want("Jvec", x, v), f"Jvec after worker errors: {kind}", rtol=1e-10)
        finally:
            par.join()


# ------------------------------------------------------------------ dask
@case("C14", "dask_meta", quick=3, thorough=12, cost=6)
def dask_meta(ctx):
    import logging

    from dask.distributed import Client, LocalCluster
    from simpeg.meta import dask_sim

    logging.getLogger("distributed").setLevel(logging.CRITICAL)
    rng = ctx.rng
    nw, nt = [(1, 1), (1, 4), (2, 2), (3, 1), (2, 4)][int(rng.integers(5))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        cluster = LocalCluster(n_workers=nw, threads_per_worker=nt, processes=False, dashboard_address=None)
        client = Client(cluster)
        try:
            for kind in ("MetaSimulation", "SumMetaSimulation", "RepeatedSimulation"):
                for _ in range(2):
                    N = int(rng.integers(4, 12))
                    k = int(rng.integers(1, 6)) if kind != "RepeatedSimulation" else int(rng.integers(4, 9))
                    mems = members(rng, kind, N, k)
                    ctx.label(f"Dask{kind} {k} members on {nw}x{nt} threads: " + "+".join(m.s.name for m in mems))
                    ser = serial_of(kind, mems)
                    cls = getattr(dask_sim, "Dask" + kind)
                    with ctx.guard():
                        if kind == "RepeatedSimulation":
                            par = cls(mems[0].sim(), [m.mk() for m in mems], client)
                        else:
                            par = cls([m.sim() for m in mems], [m.mk() for m in mems], client)
                        replay(ctx, ser, par, N, f"Dask{kind}", "dask calls", ctx.n(9, 25))
        finally:
            client.close()
            cluster.close()


DASK = [("grav3d", dict(mesh="tensor", mp="exp", eng="geoana", store="ram", par=False)),
        ("grav3d", dict(mesh="tree", mp="act", eng="geoana", store="disk", par=False)),
        ("grav3d", dict(mesh="tree", mp="act", eng="geoana", store="forward_only", par=False)),
        ("mag3d", dict(mesh="tree", mp="act", eng="geoana", store="ram", par=False, typ="vector")),
        ("mag3d", dict(mesh="tensor", mp="exp", eng="geoana", store="disk", par=False, typ="scalar")),
        ("mag3d", dict(mesh="tensor", mp="act", eng="geoana", store="ram", par=False, typ="amp")),
        ("mag3d", dict(mesh="tensor", mp="act", eng="geoana", store="ram", par=False, typ="vecamp")),
        ("dc3d", dict(storeJ=True, mini=False)), ("dc3d", dict(storeJ=True, mini=True)), ("dc3d", dict(storeJ=False, mini=False)),
        ("ip", dict(storeJ=True)), ("ip", dict(storeJ=False))]


@case("C14", "dask_sims", quick=4, thorough=16, cost=8)
def dask_sims(ctx):
    """results of the simulations as they are, then with the dask variants of their methods loaded in the same process"""
    rng = ctx.rng
    todo = []
    for name, o in DASK:
        if rng.random() < 0.3 and not ctx.thorough:
            continue
        vs = [x for x in scen.variants_of(name) if all(x.get(k, o[k]) == o[k] for k in o)]
        if name in ("grav3d", "mag3d"):
            vs = [o]
        if name == "ip":
            vs = [x for x in vs if x.get("dim", 3) == 3]
        if not vs:
            continue
        s = scen.Scn(name, vs[int(rng.integers(len(vs)))], int(rng.integers(2**31)))
        b = s.build()
        d = b.direction(rng)
        ms = [b.m, b.m + 0.1 * d]
        v = b.direction(rng)
        fwd = s.opts.get("store") == "forward_only"
        nd = np.asarray(b.sim.dpred(b.m)).size
        w = rng.standard_normal(nd)
        Ws = [None, sp.diags(rng.uniform(0.5, 2, nd)), sp.diags(rng.uniform(0.5, 2, nd))]
        with quiet():
            refs = [trace(s.build().sim, x, v, w, Ws, fwd=fwd) for x in ms]
        todo.append((s, ms, v, w, Ws, fwd, refs))
    import dask

    with quiet():
        import simpeg.dask  # noqa: F401

    dask.config.set(scheduler=str(rng.choice(["threads", "synchronous"])))
    for s, ms, v, w, Ws, fwd, refs in todo:
        chunk = str(rng.choice(["equal", "row", "auto"]))
        ctx.label(f"dask {s.label} chunks={chunk}")
        ctx.event("dask sims")
        with ctx.guard():
            with quiet():
                sim = s.build().sim
                sim.chunk_format = chunk
                sim.max_chunk_size = 1
                if s.name in ("dc3d", "ip"):
                    sim.sensitivity_path = os.path.join(tempfile.mkdtemp(dir="."), "sens") + os.sep
                for i in (0, 1, 0):
                    got = trace(sim, ms[i], v, w, Ws, fwd=fwd)
                    compare(ctx, got, refs[i], f"dask {s.name}", 1e-6, None, "dask calls")


scen.load_all()
