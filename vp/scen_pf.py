"""Scenarios: gravity and magnetics."""
import os
import tempfile

import numpy as np

from .scen import Built, hvec, rough, scen, tensor3, tree3

G_COMP = ["gx", "gy", "gz", "gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"]
M_COMP = ["bx", "by", "bz", "tmi", "bxx", "bxy", "bxz", "byy", "byz", "bzz", "tmi_x", "tmi_y", "tmi_z"]


def pf_mesh(rng, kind):
    if kind == "tensor":
        return tensor3(rng, n=(5, 4, 4), h=20.0)
    return tree3(rng, h=20.0, n=8)


def pf_map(rng, mesh, kind, nfac=1, lo=-0.5, hi=0.8):
    """(active cells, map from model to active-cell values, model)"""
    from simpeg import maps

    nC = mesh.n_cells
    act = np.ones(nC, bool)
    if kind != "full":
        act = rng.random(nC) < 0.7
        act[:2] = True
    n = int(act.sum()) * nfac
    if kind in ("full", "act"):
        return act, maps.IdentityMap(nP=n), rng.uniform(lo, hi, n)
    if kind == "exp":
        return act, maps.ExpMap(nP=n), np.log(rough(rng, n, 0.01, 0.5))
    if kind == "wires":
        w = maps.Wires(("a", 2), ("s", n), ("b", 1))
        return act, maps.ExpMap(nP=n) * w.s, np.r_[rng.standard_normal(2), np.log(rough(rng, n, 0.01, 0.5)), 0.3]
    if kind == "surject":
        import scipy.sparse as sp

        k = max(3, n // 4)
        ix = rng.integers(0, k, n)
        return act, maps.LinearMap(sp.csr_matrix((rng.uniform(0.5, 2, n), (np.arange(n), ix)), shape=(n, k))), rng.uniform(lo, hi, k)
    raise KeyError(kind)


def pf_locs(rng, n, L=35.0, z=2.0):
    return np.c_[rng.uniform(-L, L, (n, 2)), z + rng.uniform(0, 25, n)]


def some(rng, eng, comps, n, allc):
    """compiling a choclo kernel takes seconds: a subset of components per execution, unless all are asked for"""
    if ONLY is not None:
        return ONLY
    if eng == "choclo" and not allc:
        # one subset per process, so that kernels are compiled once
        r = np.random.default_rng(SUBSET)
        return [str(x) for x in r.permutation(comps)[:n]]
    return comps


SUBSET = 0
ONLY = None  # components asked for


def pf_rx(rng, cls, comps, nrx=3):
    """receivers with different numbers of locations and component subsets/orders, covering all comps"""
    comps = list(rng.permutation(comps))
    k = int(np.ceil(len(comps) / nrx))
    out = []
    for i in range(nrx):
        c = comps[i * k : (i + 1) * k]
        if not c:
            c = [comps[0]]
        out.append(cls(pf_locs(rng, 2 + i % 3), components=[str(x) for x in c]))
    return out


def sens_path(eng):
    d = tempfile.mkdtemp(dir=".")
    return d if eng == "geoana" else os.path.join(d, "sens.bin")


def pf_kw(rng, eng, store, dtype="f8", par=False):
    kw = dict(engine=eng, store_sensitivities=store, numba_parallel=par,
              sensitivity_dtype=np.float64 if dtype == "f8" else np.float32)
    if store == "disk":
        kw["sensitivity_path"] = sens_path(eng)
    return kw


def _v_grav():
    out = []
    for mesh, mp, eng, store in (
        ("tensor", "full", "geoana", "ram"), ("tree", "act", "geoana", "ram"), ("tensor", "exp", "geoana", "disk"),
        ("tree", "wires", "geoana", "ram"), ("tensor", "surject", "geoana", "ram"),
        ("tensor", "act", "choclo", "ram"), ("tree", "full", "choclo", "ram"), ("tree", "exp", "choclo", "forward_only"),
        ("tensor", "surject", "choclo", "forward_only"), ("tensor", "wires", "choclo", "disk")):
        out.append(dict(mesh=mesh, mp=mp, eng=eng, store=store, par=False))
    return out


@scen("grav3d", _v_grav, "pf", getJ=True, gtg=True, linear=True, chunk=12, cost=4)
def grav3d(rng, mesh, mp, eng, store, par, dtype="f8", allc=False):
    from simpeg.potential_fields import gravity

    msh = pf_mesh(rng, mesh)
    act, mapping, m = pf_map(rng, msh, mp)
    rxs = pf_rx(rng, gravity.Point, some(rng, eng, G_COMP, 6, allc))
    survey = gravity.Survey(gravity.SourceField(rxs))
    sim = gravity.Simulation3DIntegral(msh, survey=survey, rhoMap=mapping, active_cells=act, **pf_kw(rng, eng, store, dtype, par))
    return Built(sim, m, rtol=1e-7, act=act, single=mp != "surject")


def mag_survey(rng, comps, nrx=3):
    from simpeg.potential_fields import magnetics

    rxs = pf_rx(rng, magnetics.receivers.Point, comps, nrx)
    src = magnetics.UniformBackgroundField(receiver_list=rxs, amplitude=float(rng.uniform(2e4, 6e4)), inclination=float(rng.uniform(-85, 85)), declination=float(rng.uniform(-180, 180)))
    return magnetics.Survey(src)


def _v_mag():
    out = []
    for mesh, mp, eng, store, typ in (
        ("tensor", "full", "geoana", "ram", "scalar"), ("tree", "act", "geoana", "ram", "vector"), ("tensor", "exp", "geoana", "disk", "scalar"),
        ("tree", "wires", "geoana", "ram", "amp"), ("tensor", "surject", "geoana", "ram", "vecamp"), ("tensor", "full", "geoana", "ram", "amp"),
        ("tensor", "act", "choclo", "ram", "scalar"), ("tree", "full", "choclo", "ram", "vector"), ("tree", "exp", "choclo", "forward_only", "scalar"),
        ("tensor", "act", "choclo", "forward_only", "vector"), ("tensor", "surject", "choclo", "forward_only", "scalar"),
        ("tensor", "wires", "choclo", "disk", "scalar"), ("tensor", "exp", "choclo", "ram", "amp"), ("tree", "act", "choclo", "forward_only", "amp"), ("tensor", "act", "choclo", "ram", "vecamp")):
        out.append(dict(mesh=mesh, mp=mp, eng=eng, store=store, typ=typ, par=False))
    return out


@scen("mag3d", _v_mag, "pf", getJ=True, gtg=True, linear=True, chunk=16, cost=8)
def mag3d(rng, mesh, mp, eng, store, typ, par, dtype="f8", allc=False):
    from simpeg.potential_fields import magnetics

    msh = pf_mesh(rng, mesh)
    vec = typ in ("vector", "vecamp")
    act, mapping, m = pf_map(rng, msh, mp, nfac=3 if vec else 1, lo=0.0 if typ == "amp" else -0.02, hi=0.1)
    amp = typ in ("amp", "vecamp")
    if amp:
        rx = magnetics.receivers.Point(pf_locs(rng, 6), components=["bx", "by", "bz"])
        rx2 = magnetics.receivers.Point(pf_locs(rng, 2), components=["bx", "by", "bz"])
        src = magnetics.UniformBackgroundField(receiver_list=[rx, rx2], amplitude=5e4, inclination=float(rng.uniform(-85, 85)), declination=float(rng.uniform(-180, 180)))
        survey = magnetics.Survey(src)
    else:
        survey = mag_survey(rng, some(rng, eng, M_COMP, 6, allc))
    sim = magnetics.Simulation3DIntegral(msh, survey=survey, chiMap=mapping, active_cells=act, model_type="vector" if vec else "scalar",
                                         is_amplitude_data=amp, **pf_kw(rng, eng, store, dtype, par))
    kw = dict(rtol=1e-6, act=act, single=mp != "surject", h=1e-2)
    if amp:
        kw["nD"] = 8
        kw["blks"] = [(f"amp[{i}]", np.array([i])) for i in range(8)]
        kw["vscale"] = 0.1 if mp in ("exp", "wires") else 0.01
    return Built(sim, m, **kw)


def _v_layer():
    out = []
    for fld in ("grav", "mag", "magvec"):
        for eng, store in (("geoana", "ram"), ("choclo", "ram"), ("choclo", "forward_only")):
            out.append(dict(fld=fld, eng=eng, store=store, mesh="tree" if (fld, store) == ("grav", "ram") else "tensor"))
    return out


@scen("eqlayer", _v_layer, "pf", getJ=True, gtg=True, linear=True, chunk=12, cost=8)
def eqlayer(rng, fld, eng, store, mesh, par=False, dtype="f8", allc=False):
    from discretize import TensorMesh, TreeMesh
    from simpeg import maps
    from simpeg.potential_fields import gravity, magnetics

    if mesh == "tree":
        msh = TreeMesh([[(10.0, 8)]] * 2, origin="CC")
        msh.insert_cells(rng.uniform(-20, 20, (2, 2)), -np.ones(2, int), finalize=True)
    else:
        hs = [hvec(rng, 5, 15), hvec(rng, 4, 15)]
        msh = TensorMesh(hs, origin=np.array([-hs[0].sum() / 2, -hs[1].sum() / 2]))
    act = np.ones(msh.n_cells, bool)
    act[rng.integers(1, msh.n_cells, 3)] = False
    n = int(act.sum())
    top = -rng.uniform(0, 5, n)
    bot = top - rng.uniform(3, 12, n)
    kw = dict(active_cells=act, **pf_kw(rng, eng, store, dtype, par))
    if fld == "grav":
        survey = gravity.Survey(gravity.SourceField(pf_rx(rng, gravity.Point, some(rng, eng, G_COMP, 3, allc))))
        sim = gravity.SimulationEquivalentSourceLayer(msh, top, bot, survey=survey, rhoMap=maps.IdentityMap(nP=n), **kw)
        m = rng.uniform(-1, 1, n)
    else:
        survey = mag_survey(rng, some(rng, eng, M_COMP, 4, allc))
        k = n * (3 if fld == "magvec" else 1)
        sim = magnetics.SimulationEquivalentSourceLayer(msh, top, bot, survey=survey, chiMap=maps.IdentityMap(nP=k), model_type="vector" if fld == "magvec" else "scalar", **kw)
        m = rng.uniform(-0.05, 0.1, k)
    return Built(sim, m, rtol=1e-6, act=act, single=True)


def _v_magdiff():
    out = []
    for prop in ("mu", "mui", "rem", "both", "mufix"):
        for storeJ in (False, True):
            out.append(dict(prop=prop, storeJ=storeJ, mesh="tensor" if storeJ else "tree"))
    return out


@scen("magdiff", _v_magdiff, "pf", getJ=True, chunk=4, cost=2)
def magdiff(rng, prop, storeJ, mesh):
    import scipy.sparse as sp
    from scipy.constants import mu_0
    from simpeg import maps
    from simpeg.potential_fields import magnetics

    msh = tensor3(rng, n=(5, 4, 4), h=20.0, top=40.0) if mesh == "tensor" else tree3(rng, h=20.0, n=8, top=80.0)
    nC = msh.n_cells
    rxs = []
    comps = ["bx", "by", "bz", "tmi"]
    for i in range(2):
        c = [str(x) for x in rng.permutation(comps)][: 4 - i]
        n = 2 + i
        rxs.append(magnetics.receivers.Point(np.c_[rng.uniform(-25, 25, (n, 2)), rng.uniform(1, 15, n)], components=c))
    src = magnetics.UniformBackgroundField(receiver_list=rxs, amplitude=5e4, inclination=float(rng.uniform(-85, 85)), declination=float(rng.uniform(-180, 180)))
    survey = magnetics.Survey(src)
    kw, mparts = {}, []
    chi = rng.uniform(0.0, 0.5, nC)
    rem = rng.uniform(-5e3, 5e3, 3 * nC)
    lin = maps.LinearMap(sp.identity(nC, format="csr") * mu_0, np.full(nC, mu_0))
    if prop == "mu":
        kw["muMap"], m, vs = lin, chi, 0.1
    elif prop == "mui":
        kw["muMap"], m, vs = maps.ExpMap(nP=nC), np.log(mu_0 * (1 + chi)), 0.1
        kw["rem"] = rem
    elif prop == "rem":
        kw["remMap"], m, vs = maps.IdentityMap(nP=3 * nC), rem, 1e3
    elif prop == "mufix":
        kw["remMap"], m, vs = maps.IdentityMap(nP=3 * nC), rem, 1e3
        kw["mu"] = mu_0 * (1 + chi)
    else:
        w = maps.Wires(("chi", nC), ("rem", 3 * nC))
        kw["muMap"] = lin * w.chi
        kw["remMap"] = w.rem
        m = np.r_[chi, rem]
        vs = np.r_[np.full(nC, 0.1), np.full(3 * nC, 1e3)]
    sim = magnetics.Simulation3DDifferential(mesh=msh, survey=survey, storeJ=storeJ, **kw)
    return Built(sim, m, vscale=vs, rtol=2e-6)
