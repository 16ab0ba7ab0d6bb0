"""Scenarios: DC resistivity, IP, SIP, SP (static electrical methods)."""
import numpy as np

from .scen import Built, cyl, grid, prop_map, rough, scen, tensor2, tensor3, tree2, tree3


def electrodes3(rng, n, L=40.0, zmax=0.0, depth=0.0):
    xy = rng.uniform(-L, L, (n, 2))
    z = zmax - depth * rng.random((n, 1))
    return np.hstack([xy, z])


def dc_sources(rng, dim, dc, rx_kinds, src_kinds, L=40.0, depth=30.0, top=0.0, data_types=("volt",), n_rx=3, rx_kw=None):
    """Sources of given kinds, each with receivers of given kinds; electrodes well apart."""

    used = []

    def loc(n):
        out = []
        for _ in range(n):
            for _try in range(300):
                if dim == 3:
                    p = np.r_[rng.uniform(-L, L, 2), top - depth * rng.random()]
                else:
                    p = np.r_[rng.uniform(-L, L), top - depth * rng.random()]
                if all(np.linalg.norm(p - q) > L / 8 for q in used):
                    break
            used.append(p)
            out.append(p)
        return np.array(out)

    sources = []
    for k, sk in enumerate(src_kinds):
        used.clear()
        cur = float(rng.choice([1.0, -2.5, 0.3, 7.0]))
        if sk == "pole":
            sl = loc(1)
        elif sk == "dipole":
            sl = loc(2)
        else:
            sl = loc(3)
        rxs = []
        base = list(used)
        for i, rk in enumerate(rx_kinds):
            used[:] = base
            n = 1 + (i + k) % n_rx
            kw = dict(rx_kw or {})
            kw["storeProjections"] = bool(rng.integers(2))
            dt = data_types[(i + k) % len(data_types)]
            if rk == "pole":
                rxs.append(dc.receivers.Pole(loc(n), data_type=dt, **kw))
            else:
                M = loc(n)
                rxs.append(dc.receivers.Dipole(M, loc(n), data_type=dt, **kw))
        if sk == "pole":
            sources.append(dc.sources.Pole(rxs, sl[0], current=cur))
        elif sk == "dipole":
            sources.append(dc.sources.Dipole(rxs, sl[0], sl[1], current=cur))
        else:
            c = rng.uniform(0.5, 2, 3)
            sources.append(dc.sources.Multipole(rxs, sl, current=np.r_[c[0], c[1], -c[2]]))
    return sources


def _v_dc3():
    out = []
    for form, bcs in (("CC", ["Robin", "Dirichlet", "Neumann"]), ("N", ["Robin", "Neumann"])):
        for bc in bcs:
            for prop in ("sigma", "rho"):
                for mp in ("exp", "wires"):
                    out.append(dict(form=form, bc=bc, prop=prop, mp=mp, mesh="tensor", storeJ=False, mini=False))
    k = 0
    for form in ("CC", "N"):
        for mesh in ("tree", "tensor"):
            for storeJ in (False, True):
                for mini in (False, True):
                    mp = ("active", "recip", "linear", "id")[k % 4]
                    k += 1
                    out.append(dict(form=form, bc="Robin" if not (form == "CC" and mesh == "tree") else "Dirichlet", prop=("sigma", "rho")[k % 2], mp=mp, mesh=mesh, storeJ=storeJ, mini=mini))
    return out


@scen("dc3d", _v_dc3, "static", getJ=True, gtg=True)
def dc3d(rng, form, bc, prop, mp, mesh, storeJ, mini):
    from simpeg.electromagnetics.static import resistivity as dc

    msh = tree3(rng) if mesh == "tree" else tensor3(rng)
    cls = dc.Simulation3DCellCentered if form == "CC" else dc.Simulation3DNodal
    multi = (not mini) and bool(rng.integers(2))
    data_types = ("volt",) if (mini or multi) else ("volt", "apparent_resistivity")
    kinds = ["pole", "dipole", "dipole"]
    if multi:
        kinds[2] = "multi"
    rxk = ["dipole", "pole"]
    if bc == "Neumann":
        # the potential is defined up to a constant: only differences and neutral sources
        kinds, rxk = ["dipole", "dipole"], ["dipole", "dipole"]
    survey = dc.Survey(dc_sources(rng, 3, dc, rxk, kinds, data_types=data_types))
    if not (mini or multi):
        survey.set_geometric_factor()
    lo, hi = (1e-3, 1e-1) if prop == "sigma" else (10.0, 1000.0)
    m, m0, vs = prop_map(rng, msh, mp, lo, hi)
    kw = {prop + "Map": m}
    sim = cls(msh, survey=survey, bc_type=bc, storeJ=storeJ, miniaturize=mini, **kw)
    return Built(sim, m0, vscale=vs)


def _v_dc3f():
    return [dict(field=f, orient=o, bc=bc, prop=p) for f, o, p in (("e", "x", "sigma"), ("e", "z", "rho"), ("j", "x", "rho"), ("j", "y", "sigma")) for bc in ("Dirichlet", "Robin")]


@scen("dc3d_ej", _v_dc3f, "static", getJ=False, gtg=False)
def dc3d_ej(rng, field, orient, bc, prop):
    from simpeg.electromagnetics.static import resistivity as dc

    msh = tensor3(rng)
    srcs = dc_sources(rng, 3, dc, ["pole", "pole"], ["dipole", "pole"], rx_kw=dict(projField=field, orientation=orient))
    lo, hi = (1e-3, 1e-1) if prop == "sigma" else (10.0, 1000.0)
    m, m0, vs = prop_map(rng, msh, "exp", lo, hi)
    sim = dc.Simulation3DCellCentered(msh, survey=dc.Survey(srcs), bc_type=bc, **{prop + "Map": m})
    return Built(sim, m0, vscale=vs)


def _v_dc2():
    out = []
    k = 0
    for form, bcs in (("CC", ["Robin", "Dirichlet", "Neumann"]), ("N", ["Robin", "Neumann"])):
        for bc in bcs:
            for storeJ in (False, True):
                k += 1
                out.append(dict(form=form, bc=bc, prop=("sigma", "rho")[k % 2], mp=("exp", "active", "wires")[k % 3], mesh="tensor", storeJ=storeJ, mini=bool(k % 2)))
                out.append(dict(form=form, bc=bc, prop=("rho", "sigma")[k % 2], mp=("id", "linear", "recip")[k % 3], mesh="tensor", storeJ=storeJ, mini=not bool(k % 2)))
    out.append(dict(form="CC", bc="Dirichlet", prop="sigma", mp="exp", mesh="tree", storeJ=False, mini=False))
    out.append(dict(form="N", bc="Robin", prop="rho", mp="exp", mesh="tree", storeJ=True, mini=False))
    return out


@scen("dc2d", _v_dc2, "static", getJ=True, gtg=False)
def dc2d(rng, form, bc, prop, mp, mesh, storeJ, mini, nky=7):
    from simpeg.electromagnetics.static import resistivity as dc

    msh = tree2(rng) if mesh == "tree" else tensor2(rng)
    cls = dc.Simulation2DCellCentered if form == "CC" else dc.Simulation2DNodal
    data_types = ("volt",) if mini else ("volt", "apparent_resistivity")
    srcs = dc_sources(rng, 2, dc, ["dipole", "pole"], ["pole", "dipole", "dipole"], data_types=data_types)
    survey = dc.Survey(srcs)
    if not mini:
        survey.set_geometric_factor()
    lo, hi = (1e-3, 1e-1) if prop == "sigma" else (10.0, 1000.0)
    m, m0, vs = prop_map(rng, msh, mp, lo, hi)
    sim = cls(msh, survey=survey, bc_type=bc, storeJ=storeJ, miniaturize=mini, nky=nky, **{prop + "Map": m})
    return Built(sim, m0, vscale=vs)


def _v_dc1():
    return [dict(prop=p, thick=t) for p in ("sigma", "rho") for t in ("fixed", "map", "only")]


@scen("dc1d", _v_dc1, "1d", getJ=True, gtg=False)
def dc1d(rng, prop, thick):
    from simpeg import maps
    from simpeg.electromagnetics.static import resistivity as dc

    nl = int(rng.integers(3, 6))
    srcs = []
    for k in range(3):
        a = rng.uniform(2, 30)
        A, B = np.r_[-3 * a, 0.3, 0.0], np.r_[3 * a, 0, 0.0]
        M, N = np.r_[[[-a, 0, 0.0], [-1.3 * a, 0.1, 0.0]]], np.r_[[[a, 0.2, 0.0], [0.7 * a, 0, 0.0]]]
        dt = ("volt", "apparent_resistivity")[k % 2]
        rxs = [dc.receivers.Dipole(M, N, data_type=dt), dc.receivers.Pole(M, data_type="volt")]
        cur = float(rng.uniform(0.5, 3))
        srcs.append(dc.sources.Dipole(rxs, A, B, current=cur) if k < 2 else dc.sources.Pole(rxs, A, current=cur))
    survey = dc.Survey(srcs)
    survey.set_geometric_factor()
    lo, hi = (1e-3, 1e-1) if prop == "sigma" else (10.0, 1000.0)
    th = rough(rng, nl - 1, 2.0, 20.0)
    p = rough(rng, nl, lo, hi)
    if thick == "fixed":
        m = np.log(p)
        kw = {prop + "Map": maps.ExpMap(nP=nl), "thicknesses": th}
    elif thick == "only":
        m = np.log(th)
        kw = {prop: p, "thicknessesMap": maps.ExpMap(nP=nl - 1)}
    else:
        w = maps.Wires(("p", nl), ("t", nl - 1))
        m = np.r_[np.log(p), np.log(th)]
        kw = {prop + "Map": maps.ExpMap(nP=nl) * w.p, "thicknessesMap": maps.ExpMap(nP=nl - 1) * w.t}
    return Built(dc.Simulation1DLayers(survey=survey, **kw), m, vscale=1.0)


def _v_ip():
    out = []
    k = 0
    for dim in (3, 2):
        for form in ("CC", "N"):
            for storeJ in (False, True):
                for prop in ("sigma", "rho"):
                    k += 1
                    out.append(dict(dim=dim, form=form, prop=prop, storeJ=storeJ, mp=("id", "active", "wires")[k % 3], dtype=("volt", "apparent_chargeability")[(k // 2) % 2]))
    return out


@scen("ip", _v_ip, "static", getJ=True, gtg=True, linear=True)
def ip(rng, dim, form, prop, storeJ, mp, dtype):
    from simpeg import maps
    from simpeg.electromagnetics.static import induced_polarization as ips
    from simpeg.electromagnetics.static import resistivity as dc

    msh = tensor3(rng) if dim == 3 else tensor2(rng)
    cls = getattr(ips, f"Simulation{dim}D" + ("CellCentered" if form == "CC" else "Nodal"))
    srcs = dc_sources(rng, dim, dc, ["dipole", "pole"], ["dipole", "pole"], data_types=(dtype,))
    nC = msh.n_cells
    if mp == "id":
        m, m0 = maps.IdentityMap(nP=nC), rng.uniform(0, 0.3, nC)
    elif mp == "active":
        act = rng.random(nC) < 0.6
        m = maps.InjectActiveCells(msh, act, 0.0)
        m0 = rng.uniform(0, 0.3, int(act.sum()))
    else:
        w = maps.Wires(("a", 4), ("eta", nC))
        m, m0 = w.eta, np.r_[np.ones(4), rng.uniform(0, 0.3, nC)]
    lo, hi = (1e-3, 1e-1) if prop == "sigma" else (10.0, 1000.0)
    sim = cls(msh, survey=dc.Survey(srcs), etaMap=m, storeJ=storeJ, **{prop: rough(rng, nC, lo, hi)})
    return Built(sim, m0, vscale=0.1)


def _v_sip():
    out = []
    for dim in (3, 2):
        for form in ("CC", "N"):
            for storeJ in ((False, True) if dim == 3 else (True,)):
                for wh in ("eta", "eta_taui", "eta_tau_c" if False else "eta_taui_c"):
                    out.append(dict(dim=dim, form=form, storeJ=storeJ, which=wh, nsrc=2 if wh == "eta_taui" else 1))
    return out


@scen("sip", _v_sip, "static", getJ=False, gtg=False)
def sip(rng, dim, form, storeJ, which, nsrc):
    from simpeg import maps
    from simpeg.electromagnetics.static import spectral_induced_polarization as sips

    msh = tensor3(rng, (5, 5, 4), 25.0) if dim == 3 else tensor2(rng, (8, 6), 14.0)
    cls = getattr(sips, f"Simulation{dim}D" + ("CellCentered" if form == "CC" else "Nodal"))
    times = np.sort(rough(rng, 3, 1e-2, 1.0))
    srcs = []
    for k in range(nsrc):
        from simpeg.electromagnetics.static import resistivity as dc

        s = dc_sources(rng, dim, dc, ["dipole", "pole"][: 1 + k], ["dipole" if k == 0 else "pole"])[0]
        rxs = []
        for rx in s.receiver_list:
            if isinstance(rx.locations, list):
                rxs.append(sips.receivers.Dipole(rx.locations[0], rx.locations[1], times))
            else:
                rxs.append(sips.receivers.Pole(rx.locations, times))
        srcs.append(sips.sources.Dipole(rxs, s.location[0], s.location[1], current=2.0) if k == 0 else sips.sources.Pole(rxs, s.location[0]))
    survey = sips.Survey(srcs)
    nC = msh.n_cells
    eta, taui, c = rng.uniform(0.02, 0.3, nC), rough(rng, nC, 0.5, 20), rng.uniform(0.3, 0.8, nC)
    names = which.split("_")
    w = maps.Wires(*[(n, nC) for n in names])
    kw = {n + "Map": getattr(w, n) for n in names}
    vals = dict(eta=eta, taui=taui, c=c)
    for n in vals:
        if n not in names:
            kw[n] = vals[n]
            if n == "taui":
                kw["tau"] = None
    m0 = np.hstack([vals[n] for n in names])
    sim = cls(msh, survey=survey, sigma=rough(rng, nC, 1e-3, 1e-1), storeJ=storeJ, **kw)
    return Built(sim, m0, vscale=m0 * 0.3)


def _v_sp():
    return [dict(kind=k, bc=b, storeJ=s) for k, b, s in (("cell", "Robin", False), ("cell", "Dirichlet", True), ("current", "Neumann", False), ("head", "Robin", False), ("head", "Dirichlet", True), ("exp", "Robin", True), ("exp", "Robin", False))]


@scen("sp", _v_sp, "static", getJ=True, gtg=True)
def sp(rng, kind, bc, storeJ):
    from simpeg import maps
    from simpeg.electromagnetics.static import resistivity as dc
    from simpeg.electromagnetics.static import self_potential as spm

    msh = tensor3(rng, (5, 5, 4))
    src = spm.sources.StreamingCurrents([r for s in dc_sources(rng, 3, dc, ["dipole", "dipole" if bc == "Neumann" else "pole"], ["dipole"]) for r in s.receiver_list])
    nC = msh.n_cells
    if kind == "cell":
        mp, m = maps.IdentityMap(nP=nC), rng.standard_normal(nC)
    elif kind == "current":
        mp, m = spm.simulation.CurrentDensityMap(msh), rng.standard_normal(3 * nC)
    elif kind == "head":
        mp, m = spm.simulation.HydraulicHeadMap(msh, L=rough(rng, nC, 0.1, 10)), rng.standard_normal(nC)
    else:
        mp, m = maps.ExpMap(nP=nC), rng.standard_normal(nC)
    sim = spm.Simulation3DCellCentered(msh, survey=spm.Survey([src]), sigma=rough(rng, nC, 1e-3, 1e-1), qMap=mp, bc_type=bc, storeJ=storeJ)
    return Built(sim, m, vscale=1.0)
