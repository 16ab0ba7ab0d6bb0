"""Scenarios: frequency-domain, time-domain and natural-source EM on meshes."""
import numpy as np

from .scen import Built, cyl, hvec, prop_map, rough, scen, tensor3, tree3

MU0 = 4e-7 * np.pi


def centred(rng, n=(6, 6, 6), h=20.0):
    from discretize import TensorMesh

    hs = [hvec(rng, k, h, 0.25) for k in n]
    return TensorMesh(hs, origin=np.array([-x.sum() / 2 for x in hs]))


def em_mesh(rng, kind, h=20.0, n=6):
    if kind == "tensor":
        return centred(rng, (n, n, n), h)
    if kind == "tree":
        from discretize import TreeMesh

        m = TreeMesh([[(h, 8)]] * 3, origin=-np.ones(3) * 4 * h, diagonal_balance=True)
        m.insert_cells(rng.uniform(-h, h, (2, 3)), -np.ones(2, dtype=int), finalize=True)
        return m
    if kind == "cyl":
        return cyl(rng, 6, 8, h)
    raise KeyError(kind)


def rx_locs(rng, n, L=35.0, kind="tensor"):
    p = rng.uniform(-L, L, (n, 3))
    if kind == "cyl":
        p[:, 0] = rng.uniform(0.3 * L, L, n)
        p[:, 1] = 0.0
    return p


# ------------------------------------------------------------------ FDEM
FD = {"e": "Simulation3DElectricField", "b": "Simulation3DMagneticFluxDensity", "h": "Simulation3DMagneticField", "j": "Simulation3DCurrentDensity"}


def em_props(rng, msh, prop, mp="exp"):
    """kwargs for the simulation, model, direction scale."""
    from simpeg import maps

    nC = msh.n_cells
    if prop == "sigma":
        m, m0, vs = prop_map(rng, msh, mp, 1e-2, 1.0)
        return dict(sigmaMap=m), m0, vs
    if prop == "rho":
        m, m0, vs = prop_map(rng, msh, mp, 1.0, 1e2)
        return dict(rhoMap=m), m0, vs
    sig = rough(rng, nC, 1e-2, 1.0)
    mu = MU0 * rough(rng, nC, 1.0, 2.0)
    if prop == "mu":
        return dict(sigma=sig, muMap=maps.IdentityMap(nP=nC)), mu, mu
    if prop == "mui":
        return dict(sigma=sig, muiMap=maps.IdentityMap(nP=nC)), 1 / mu, 1 / mu
    if prop == "sigma_fixedmu":
        m, m0, vs = prop_map(rng, msh, mp, 1e-2, 1.0)
        return dict(sigmaMap=m, mu=mu), m0, vs
    if prop == "both":
        w = maps.Wires(("s", nC), ("mu", nC))
        m0 = np.r_[np.log(sig), mu]
        return dict(sigmaMap=maps.ExpMap(nP=nC) * w.s, muMap=w.mu), m0, np.r_[np.ones(nC), mu]
    raise KeyError(prop)


def fd_rx(rng, F, names, kind, n=2):
    out = []
    comps = ("real", "imag")
    k = int(rng.integers(2))
    for i, nm in enumerate(names):
        if kind == "cyl":
            o = {"e": "y", "j": "y", "b": "z", "h": "z"}[cyl_class(nm)]
        else:
            o = ["x", "y", "z", np.r_[0.48, -0.6, 0.64]][int(rng.integers(4))]
        out.append(getattr(F.Rx, nm)(rx_locs(rng, 1 + (i + k) % n, kind=kind), orientation=o, component=comps[(i + k) % 2], storeProjections=bool(rng.integers(2))))
    return out


def cyl_class(nm):
    if "Electric" in nm:
        return "e"
    if "Current" in nm:
        return "j"
    return "b" if "Flux" in nm else "h"


def axis_path(rng):
    a, b = rng.uniform(-38, -22, 3), rng.uniform(12, 35, 3)
    return np.array([a, [b[0], a[1], a[2]], [b[0], b[1], a[2]], b])


def axis_loop(rng):
    x0, y0, z = rng.uniform(-38, -22), rng.uniform(-38, -22), rng.uniform(-8, 8)
    x1, y1 = rng.uniform(12, 35, 2)
    return np.array([[x0, y0, z], [x1, y0, z], [x1, y1, z], [x0, y1, z], [x0, y0, z]])


ALLRX = ["PointElectricField", "PointMagneticFluxDensity", "PointMagneticField", "PointCurrentDensity", "PointMagneticFluxDensitySecondary", "PointMagneticFieldSecondary"]


def fd_src(rng, F, kind, rxs, freq, msh, form):
    eb = form in "eb"
    loc = rng.uniform(-15, 15, 3)
    if kind == "MagDipole":
        o = ["x", "y", "z"][int(rng.integers(3))]
        return F.Src.MagDipole(rxs, freq, location=loc, orientation=o, moment=float(rng.uniform(0.5, 3)))
    if kind == "MagDipole_Bfield":
        return F.Src.MagDipole_Bfield(rxs, freq, location=loc, orientation="z", moment=float(rng.uniform(0.5, 3)))
    if kind == "CircularLoop":
        return F.Src.CircularLoop(rxs, freq, location=loc * 0.3, orientation="z", radius=float(rng.uniform(5, 20)), current=float(rng.uniform(0.5, 2)), n_turns=int(rng.integers(1, 4)))
    if kind == "CylLoop":
        return F.Src.CircularLoop(rxs, freq, location=np.r_[0, 0, 0.0], orientation="z", radius=float(rng.uniform(5, 20)))
    if kind == "Line":
        p = rng.uniform(-25, 25, (3, 3))
        if not eb:  # wires must follow the axes on faces
            p = axis_path(rng)
        return F.Src.LineCurrent(rxs, freq, location=p, current=float(rng.uniform(0.5, 2)))
    if kind == "Loop":
        z = float(rng.uniform(-5, 5))
        p = np.array([[-20, -15, z], [15, -18, z], [20, 17, z], [-18, 20, z], [-20, -15, z]], dtype=float)
        if not eb:
            p = axis_loop(rng)
        return F.Src.LineCurrent(rxs, freq, location=p, current=float(rng.uniform(0.5, 2)))
    ne, nm = (msh.n_edges, msh.n_faces) if eb else (msh.n_faces, msh.n_edges)
    s_e, s_m = rng.standard_normal(ne), rng.standard_normal(nm)
    if kind == "RawVec_e":
        return F.Src.RawVec_e(rxs, freq, s_e)
    if kind == "RawVec_m":
        return F.Src.RawVec_m(rxs, freq, s_m)
    if kind == "RawVec":
        return F.Src.RawVec(rxs, freq, s_m, s_e)
    if kind == "PrimSecSigma":
        ep = rng.standard_normal(msh.n_edges) + 1j * rng.standard_normal(msh.n_edges)
        return F.Src.PrimSecSigma(rxs, freq, sigBack=rough(rng, msh.n_cells, 1e-2, 1), ePrimary=ep)
    raise KeyError(kind)


def _v_fdem():
    out = []
    srcs = ["MagDipole", "MagDipole_Bfield", "CircularLoop", "Line", "Loop", "RawVec_e", "RawVec_m", "RawVec"]
    k = 0
    for form in "ebhj":
        for i, s in enumerate(srcs):
            k += 1
            out.append(dict(form=form, srcs=s + "+" + srcs[(i + 3) % len(srcs)], prop=("sigma", "rho", "sigma_fixedmu")[k % 3], mesh="tensor", mp=("exp", "active", "wires", "recip")[k % 4]))
        out.append(dict(form=form, srcs="RawVec+MagDipole", prop="both", mesh="tensor", mp="exp"))
        out.append(dict(form=form, srcs="RawVec_m+RawVec_e", prop="mu", mesh="tensor", mp="exp"))
        out.append(dict(form=form, srcs="MagDipole+MagDipole_Bfield", prop="mu", mesh="tensor", mp="exp"))
        out.append(dict(form=form, srcs="CircularLoop+Loop", prop="mui", mesh="tensor", mp="exp"))
        out.append(dict(form=form, srcs="RawVec_e+RawVec_m", prop="mui", mesh="tensor", mp="exp"))
        out.append(dict(form=form, srcs="MagDipole+RawVec", prop="sigma", mesh="tree", mp="exp"))
        if form in "eb":
            out.append(dict(form=form, srcs="CylLoop", prop="sigma", mesh="cyl", mp="exp"))
    out.append(dict(form="e", srcs="PrimSecSigma+MagDipole", prop="sigma", mesh="tensor", mp="exp"))
    out.append(dict(form="b", srcs="PrimSecSigma+PrimSecSigma", prop="sigma", mesh="tensor", mp="exp"))
    return out


@scen("fdem", _v_fdem, "em", getJ=True, gtg=True, cost=6.0, chunk=4)
def fdem(rng, form, srcs, prop, mesh, mp):
    from simpeg.electromagnetics import frequency_domain as F

    msh = em_mesh(rng, mesh)
    freqs = np.round(np.exp(rng.uniform(np.log(1.0), np.log(1e4), 2)), 3)
    kinds = srcs.split("+")
    sl = []
    for i, k in enumerate(kinds):
        for fr in freqs if len(kinds) > 1 else freqs[:1]:
            if mesh == "cyl":
                names = ["PointElectricField", "PointMagneticFluxDensity"] if form in "eb" else ["PointMagneticField", "PointCurrentDensity"]
                if form in "hj":
                    names = ["PointMagneticField"]
            else:
                names = list(rng.permutation(ALLRX[:5] if form in "eb" else ALLRX[:4])[: 3 if prop not in ('mu', 'mui', 'both') else 5])
            sl.append(fd_src(rng, F, k, fd_rx(rng, F, names, mesh), float(fr), msh, form))
    # interleave frequencies in survey order
    order = rng.permutation(len(sl))
    sl = [sl[i] for i in order]
    kw, m0, vs = em_props(rng, msh, prop, mp)
    sim = getattr(F, FD[form])(msh, survey=F.Survey(sl), **kw)
    return Built(sim, m0, vscale=vs, adj_rtol=1e-6)


# ------------------------------------------------------------------ TDEM
def td_src(rng, T, kind, rxs, form, tmax):
    W = T.sources
    wf = {
        "step": lambda: W.StepOffWaveform(),
        "ramp": lambda: W.RampOffWaveform(off_time=tmax * 0.3),
        "tri": lambda: W.TriangularWaveform(start_time=0.0, peak_time=tmax * 0.2, off_time=tmax * 0.4),
        "trap": lambda: W.TrapezoidWaveform(ramp_on=np.r_[0.0, tmax * 0.1], ramp_off=np.r_[tmax * 0.3, tmax * 0.45]),
        "raw": lambda: W.RawWaveform(off_time=tmax * 0.5, waveform_function=lambda t: np.sin(np.pi * t / (0.5 * tmax)) if t < 0.5 * tmax else 0.0),
        "vtem": lambda: W.VTEMWaveform(off_time=tmax * 0.5, peak_time=tmax * 0.3, ramp_on_rate=3.0),
    }
    sk, wk = kind.split(":")
    w = wf[wk]()
    loc = rng.uniform(-15, 15, 3)
    if sk == "MagDipole":
        return W.MagDipole(rxs, location=loc, orientation=["x", "y", "z"][int(rng.integers(3))], waveform=w, moment=float(rng.uniform(0.5, 3)))
    if sk == "CircularLoop":
        return W.CircularLoop(rxs, location=loc * 0.2, orientation="z", radius=float(rng.uniform(5, 20)), waveform=w)
    if sk == "CylLoop":
        return W.CircularLoop(rxs, location=np.zeros(3), orientation="z", radius=float(rng.uniform(5, 20)), waveform=w)
    if sk == "Line":
        p = np.array([[-25.0, -8, 3], [3, 5, -4], [22, 9, 6]]) + rng.uniform(-3, 3, (3, 3))
        if form in "hj":
            p = axis_path(rng)
        return W.LineCurrent(rxs, location=p, waveform=w, current=float(rng.uniform(0.5, 2)))
    if sk == "Loop":
        z = float(rng.uniform(-5, 5))
        p = np.array([[-20, -15, z], [15, -18, z], [20, 17, z], [-18, 20, z], [-20, -15, z]], dtype=float)
        if form in "hj":
            p = axis_loop(rng)
        return W.LineCurrent(rxs, location=p, waveform=w, current=float(rng.uniform(0.5, 2)))
    raise KeyError(kind)


TDFORM = {"e": "e j dbdt dhdt", "b": "e b h j dbdt dhdt", "h": "e b h j dbdt dhdt", "j": "e j dbdt dhdt"}
TDN = dict(e="PointElectricField", b="PointMagneticFluxDensity", h="PointMagneticField", j="PointCurrentDensity", dbdt="PointMagneticFluxTimeDerivative", dhdt="PointMagneticFieldTimeDerivative")
TDRX = ["PointElectricField", "PointMagneticFluxDensity", "PointMagneticField", "PointCurrentDensity", "PointMagneticFluxTimeDerivative", "PointMagneticFieldTimeDerivative"]


def _v_tdem():
    out = []
    k = 0
    for form in "ebhj":
        for s in ("MagDipole:step", "CircularLoop:tri", "Loop:ramp", "Loop:step", "Line:step", "Line:raw", "Line:vtem", "MagDipole:trap"):
            if s == "Line:step" and form == "b":
                continue  # galvanic initial fields are not implemented in the b formulation
            k += 1
            out.append(dict(form=form, src=s, prop=("sigma", "rho", "sigma_fixedmu")[k % 3] if "step" not in s or form in "e" else ("sigma", "rho")[k % 2], mesh="tensor", mp=("exp", "active", "wires")[k % 3]))
        out.append(dict(form=form, src="MagDipole:raw", prop="sigma", mesh="tree", mp="exp"))
        if form in "eb":
            out.append(dict(form=form, src="CylLoop:step", prop="sigma", mesh="cyl", mp="exp"))
    return out


@scen("tdem", _v_tdem, "em", getJ=False, gtg=False, cost=8.0, chunk=3)
def tdem(rng, form, src, prop, mesh, mp, nsrc=2, last=True):
    from simpeg.electromagnetics import time_domain as T

    msh = em_mesh(rng, mesh, n=5)
    dts = [(1e-5, 3), (4e-5, 3), (1e-5, 2), 7e-5]
    tt = np.cumsum(np.r_[0, [1e-5] * 3, [4e-5] * 3, [1e-5] * 2, 7e-5])
    tmax = tt[-1]
    sl = []
    for i in range(nsrc):
        rxs = []
        names = [TDN[k] for k in rng.permutation(TDFORM[form].split())[:3]] if mesh != "cyl" else ([TDN["dbdt"], "PointElectricField"] if form == "e" else ["PointMagneticFluxDensity", "PointElectricField"])
        for j, nm in enumerate(names):
            o = ["x", "y", "z"][int(rng.integers(3))] if mesh != "cyl" else ("y" if "Electric" in nm else "z")
            times = np.sort(rng.uniform(0.05, 0.999, 2 + j % 2)) * tmax
            rxs.append(getattr(T.Rx, nm)(rx_locs(rng, 1 + (i + j) % 2, kind=mesh), times, orientation=o, storeProjections=bool(rng.integers(2))))
        sl.append(td_src(rng, T, src, rxs, form, tmax))
    kw, m0, vs = em_props(rng, msh, prop, mp)
    sim = getattr(T, FD[form])(msh, survey=T.Survey(sl), time_steps=dts, **kw)
    return Built(sim, m0, vscale=vs, adj_rtol=1e-6)


# ------------------------------------------------------------------ NSEM
def _v_ns1():
    out = []
    for form in "eh":
        for prop in ("sigma", "rho", "mu"):
            out.append(dict(form=form, prop=prop))
    out.append(dict(form="ps", prop="sigma"))
    return out


@scen("nsem1d", _v_ns1, "em", getJ=False, gtg=False)
def nsem1d(rng, form, prop):
    from discretize import TensorMesh
    from simpeg.electromagnetics import natural_source as N

    h = np.r_[rough(rng, 4, 200, 500), rough(rng, 8, 50, 150)]
    msh = TensorMesh([h], origin=np.r_[-h.sum()])
    freqs = np.round(np.exp(rng.uniform(0, np.log(100), 3)), 3)
    o = {"e": "xy", "h": "yx", "ps": "yx"}[form]
    sl = []
    for fr in freqs:
        rxs = [N.Rx.Impedance(np.array([[0.0]]), component=c, orientation=o) for c in ("real", "imag", "apparent_resistivity", "phase")]
        if form == "ps":
            rxs = [N.Rx.Impedance(np.array([[0.0]]), component=c, orientation=o) for c in ("real", "imag")]
            sl.append(N.Src.PlanewaveXYPrimary(rxs, float(fr)))
        else:
            sl.append(N.Src.Planewave(rxs, float(fr)))
    kw, m0, vs = em_props(rng, msh, prop)
    survey = N.Survey(sl)
    if form == "ps":
        sim = N.Simulation1DPrimarySecondary(msh, survey=survey, sigmaPrimary=np.full(msh.n_cells, 0.05), **kw)
    else:
        sim = getattr(N.simulation, "Simulation1DElectricField" if form == "e" else "Simulation1DMagneticField")(msh, survey=survey, **kw)
    return Built(sim, m0, vscale=vs, adj_rtol=1e-6)


def _v_ns2():
    out = []
    for form in "eh":
        for mesh in ("tensor", "tree"):
            for prop in ("sigma" if form == "e" else "rho", "mui" if form == "e" else "mu"):
                out.append(dict(form=form, mesh=mesh, prop=prop))
    return out


@scen("nsem2d", _v_ns2, "em", getJ=True, gtg=True)
def nsem2d(rng, form, mesh, prop):
    from discretize import TensorMesh, TreeMesh
    from simpeg.electromagnetics import natural_source as N

    if mesh == "tensor":
        hx, hy = rough(rng, 9, 80, 200), rough(rng, 9, 80, 200)
        msh = TensorMesh([hx, hy], origin=np.r_[-hx.sum() / 2, -hy.sum() * 0.7])
    else:
        msh = TreeMesh([[(100.0, 16)], [(100.0, 16)]], origin=np.r_[-800.0, -1100.0], diagonal_balance=True)
        msh.insert_cells(rng.uniform(-200, 200, (2, 2)), -np.ones(2, dtype=int), finalize=True)
    freqs = np.round(np.exp(rng.uniform(0, np.log(100), 2)), 3)
    sl = []
    loc = lambda n: np.c_[rng.uniform(-250, 250, n), rng.uniform(-30, 30, n)]
    for i, fr in enumerate(freqs):
        L = loc(2)
        rxs = []
        for c in ("real", "imag", "apparent_resistivity", "phase"):
            rxs.append(N.Rx.Impedance(L, component=c, orientation="xy" if form == "e" else "yx"))
        rxs.append(N.Rx.Admittance(loc(2), component=("real", "imag")[i % 2], orientation="yx" if form == "e" else "xy"))
        if form == "h":
            rxs.append(N.Rx.Impedance(loc(2), loc(2), component="real", orientation="yx"))
        else:
            rxs.append(N.Rx.Impedance(loc(2), loc(2), component="imag", orientation="xy"))
        sl.append(N.Src.Planewave(rxs, float(fr)))
    kw, m0, vs = em_props(rng, msh, prop)
    if prop in ("mu", "mui") and form == "h":
        kw["rho"] = 1 / kw.pop("sigma")
    cls = N.simulation.Simulation2DElectricField if form == "e" else N.simulation.Simulation2DMagneticField
    sim = cls(msh, survey=N.Survey(sl), **kw)
    return Built(sim, m0, vscale=vs, adj_rtol=1e-6)


def _v_ns3():
    out = []
    for i, rx in enumerate(("imp", "tip", "adm", "app", "all")):
        out.append(dict(rx=rx, mp=("exp", "active", "wires")[i % 3], prop="sigma"))
    out.append(dict(rx="all", mp="exp", prop="sigma_fixedmu"))
    return out


def ns3_rx(rng, N, which, n=2):
    loc = lambda k: np.c_[rng.uniform(-150, 150, (k, 2)), rng.uniform(-60, -10, k)]
    rxs = []
    two = bool(rng.integers(2))
    if which in ("imp", "all"):
        for o, c in zip(rng.permutation(["xx", "xy", "yx", "yy"]), ("real", "imag", "apparent_resistivity", "phase")):
            L = loc(n)
            rxs.append(N.Rx.Impedance(L, loc(n) if two else L, orientation=str(o), component=c, storeProjections=bool(rng.integers(2))))
    if which in ("tip", "all"):
        for o in ("zx", "zy", "xx", "yx", "xy", "yy") if which == "tip" else ("zx", "zy"):
            L = loc(n)
            rxs.append(N.Rx.Tipper(L, loc(n) if two or o[0] != "z" else L, orientation=o, component=("real", "imag")[int(rng.integers(2))]))
    if which in ("adm", "all"):
        for o in ("xx", "xy", "yx", "yy", "zx", "zy") if which == "adm" else ("xy", "zx"):
            L = loc(n)
            rxs.append(N.Rx.Admittance(L, loc(n) if two else L, orientation=o, component=("real", "imag")[int(rng.integers(2))]))
    if which in ("app", "all"):
        L = loc(n)
        rxs.append(N.Rx.ApparentConductivity(L, loc(n) if two else L))
    return rxs


@scen("nsem3d", _v_ns3, "em", getJ=True, gtg=True, cost=5.0, chunk=2)
def nsem3d(rng, rx, mp, prop):
    from discretize import TensorMesh
    from simpeg.electromagnetics import natural_source as N

    hs = [hvec(rng, 6, 150), hvec(rng, 6, 150), hvec(rng, 7, 150)]
    msh = TensorMesh(hs, origin=np.array([-hs[0].sum() / 2, -hs[1].sum() / 2, -hs[2].sum() * 0.6]))
    freqs = np.round(np.exp(rng.uniform(0, np.log(100), 2)), 3)
    sl = [N.Src.PlanewaveXYPrimary(ns3_rx(rng, N, rx), float(f)) for f in freqs]
    kw, m0, vs = em_props(rng, msh, prop, mp)
    sim = N.Simulation3DPrimarySecondary(msh, survey=N.Survey(sl), sigmaPrimary=np.full(msh.n_cells, 0.05), **kw)
    return Built(sim, m0, vscale=vs, adj_rtol=1e-6)


def _v_nsr():
    return [dict(prop=p, thick=t) for p in ("sigma",) for t in ("fixed", "map", "only")]


@scen("nsem_rec", _v_nsr, "1d", getJ=False, gtg=True)
def nsem_rec(rng, prop, thick):
    from simpeg import maps
    from simpeg.electromagnetics import natural_source as N

    nl = int(rng.integers(3, 6))
    freqs = rough(rng, 4, 0.01, 1000)
    sl = []
    for f in freqs:
        sl.append(N.Src.Planewave([N.Rx.Impedance([[]], component=c, orientation="xy") for c in ("real", "imag", "apparent_resistivity", "phase")], float(f)))
    survey = N.Survey(sl)
    th, p = rough(rng, nl - 1, 50, 500), rough(rng, nl, 1e-3, 1)
    if thick == "fixed":
        kw, m = {prop + "Map": maps.ExpMap(nP=nl), "thicknesses": th}, np.log(p)
    elif thick == "only":
        kw, m = {prop: p, "thicknessesMap": maps.ExpMap(nP=nl - 1)}, np.log(th)
    else:
        w = maps.Wires(("p", nl), ("t", nl - 1))
        kw, m = {prop + "Map": maps.ExpMap(nP=nl) * w.p, "thicknessesMap": maps.ExpMap(nP=nl - 1) * w.t}, np.r_[np.log(p), np.log(th)]
    return Built(N.Simulation1DRecursive(survey=survey, **kw), m, vscale=1.0)
