"""Scenarios: layered-earth EM (frequency and time domain)."""
import numpy as np

from .scen import Built, rough, scen

MU0 = 4e-7 * np.pi


def layered_props(rng, prop, nl, nsrc):
    """(simulation keyword arguments, model, scale of directions)"""
    from discretize import TensorMesh
    from simpeg import maps

    th = rough(rng, nl - 1, 3, 30)
    sig = rough(rng, nl, 1e-3, 0.3)
    mu = MU0 * rough(rng, nl, 1.0, 1.6)
    kw = dict(thicknesses=th)
    ex = maps.ExpMap(nP=nl)
    base = prop.split("+")[0]
    if base == "sigma":
        kw["sigmaMap"], m = ex, np.log(sig)
    elif base == "rho":
        kw["rhoMap"], m = ex, -np.log(sig)
    elif base == "idsig":
        kw["sigmaMap"], m = maps.IdentityMap(nP=nl), sig
    elif base == "mu":
        kw.update(muMap=ex, sigma=sig)
        m = np.log(mu)
    elif base == "thick":
        kw.update(sigma=sig, thicknessesMap=maps.ExpMap(nP=nl - 1))
        del kw["thicknesses"]
        m = np.log(th)
    elif base == "h":
        w = maps.Wires(("s", nl), ("h", nsrc))
        kw.update(sigmaMap=ex * w.s, hMap=maps.ExpMap(nP=nsrc) * w.h)
        m = np.r_[np.log(sig), np.log(rough(rng, nsrc, 1, 20))]
    elif base == "all":
        w = maps.Wires(("s", nl), ("mu", nl), ("t", nl - 1))
        kw.update(sigmaMap=ex * w.s, muMap=ex * w.mu, thicknessesMap=maps.ExpMap(nP=nl - 1) * w.t)
        del kw["thicknesses"]
        m = np.r_[np.log(sig), np.log(mu), np.log(th)]
    elif base == "shared":
        # one parameter drives conductivity and permeability (cross terms of the Gram diagonal)
        msh = TensorMesh([nl])
        kw.update(sigmaMap=maps.ExpMap(msh), muMap=maps.LinearMap(np.eye(nl) * 0.2 * MU0, np.full(nl, 2.5 * MU0)))
        m = np.log(sig)
    else:
        raise KeyError(base)
    if "+eta" in prop:
        kw.update(eta=rng.uniform(0.1, 0.6, nl), tau=rough(rng, nl, 1e-4, 1e-1), c=rng.uniform(0.3, 0.9, nl))
    if "+seta" in prop:
        kw.update(eta=0.4, tau=1e-3, c=0.6)
    if "+chi" in prop:
        kw.update(dchi=rng.uniform(0.01, 0.2, nl), tau1=rough(rng, nl, 1e-10, 1e-8), tau2=rough(rng, nl, 1, 50))
    if "+schi" in prop:
        kw.update(dchi=0.1, tau1=1e-9, tau2=20.0)
    vs = m if base == "idsig" else 1.0
    return kw, m, vs


def unit(rng):
    v = rng.standard_normal(3)
    return v / np.linalg.norm(v)


def fd_rx(rng, fd, i, src_loc, wire=False, loop=False, only=None):
    comp = ("real", "imag", "both")[i % 3]
    off = bool(rng.integers(2)) and not wire
    n = 1 if wire else 1 + i % 3
    d = np.c_[rng.uniform(5, 40, (n, 2)) * rng.choice([-1, 1], (n, 2)), rng.uniform(0, 5, n)]
    if loop:
        d[:, :2] = 0
    loc = d if off else d + np.mean(np.atleast_2d(src_loc), axis=0)
    orient = unit(rng) if i % 2 and not (wire or loop) else ("z" if (wire or loop) else "xyz"[int(rng.integers(3))])
    kind = only or ("sec" if wire else ("sec", "ppm", "tot")[(i // 3) % 3])
    kw = dict(orientation=orient, component=comp, use_source_receiver_offset=off)
    if kind == "tot":
        return fd.receivers.PointMagneticField(loc, **kw)
    return fd.receivers.PointMagneticFieldSecondary(loc, data_type="ppm" if kind == "ppm" else "field", **kw)


def _v_fd1d():
    out = []
    for prop in ("sigma", "rho", "mu", "thick", "all", "h", "idsig", "shared", "sigma+eta", "rho+seta", "all+chi", "sigma+schi", "mu+schi", "sigma+eta+chi"):
        for src in ("dip", "loop", "wire"):
            if src != "dip" and prop in ("idsig", "sigma+schi", "rho+seta", "mu+schi"):
                continue
            out.append(dict(prop=prop, src=src))
    out.append(dict(prop="all", src="mix"))
    out.append(dict(prop="h", src="mix"))
    return out


@scen("em1d_fd", _v_fd1d, "em1d", getJ=True, gtg=True, chunk=10)
def em1d_fd(rng, prop, src, fixJ=False):
    from simpeg.electromagnetics import frequency_domain as fd

    topo = np.r_[0.0, 0.0, float(rng.choice([0.0, 25.0, -10.0]))]
    freqs = rng.permutation(rough(rng, 3, 50, 2e4))
    srcs = []
    kinds = {"dip": ["dip"] * 4, "loop": ["loop"] * 3, "wire": ["wire"] * 2, "mix": ["dip", "wire", "loop", "dip"]}[src]
    for k, kd in enumerate(kinds):
        loc = np.r_[rng.uniform(-20, 20, 2), topo[2] + rng.uniform(1, 15)]
        f = freqs[k % 3]
        if kd == "wire":
            z = topo[2] + rng.uniform(0, 5)
            a = rng.uniform(10, 30)
            c = loc[:2]
            path = np.c_[c + a * np.array([[-1, -1], [1, -1.2], [1.1, 1], [-1, 1.3], [-1, -1]]), np.full(5, z)]
            rxs = [fd_rx(rng, fd, i + k, path[:-1], wire=True) for i in range(3)]
            srcs.append(fd.sources.LineCurrent(rxs, f, path, current=float(rng.uniform(0.5, 4))))
        elif kd == "loop":
            rxs = [fd_rx(rng, fd, i + k, loc, loop=True) for i in range(4)]
            srcs.append(fd.sources.CircularLoop(rxs, f, loc, radius=float(rng.uniform(3, 20)), current=float(rng.uniform(0.5, 3)), orientation="z"))
        else:
            rxs = [fd_rx(rng, fd, i + 3 * k, loc) for i in range(4)]
            ori = unit(rng) if k % 2 else "xyz"[int(rng.integers(3))]
            srcs.append(fd.sources.MagDipole(rxs, f, loc, orientation=ori, moment=float(rng.uniform(0.5, 3))))
    survey = fd.Survey(srcs)
    kw, m, vs = layered_props(rng, prop, 4, len(srcs))
    sim = fd.Simulation1DLayered(survey=survey, topo=topo, fix_Jmatrix=fixJ, n_points_per_path=int(rng.integers(2, 5)), **kw)
    return Built(sim, m, vscale=vs, rtol=1e-5)


def td_wave(rng, i, td):
    s = td.sources
    k = i % 7
    if k == 0:
        return s.StepOffWaveform()
    if k == 1:
        return s.RampOffWaveform(ramp_end=1e-4)
    if k == 2:
        return s.TrapezoidWaveform(ramp_on=np.r_[-2e-3, -1e-3], ramp_off=np.r_[-1e-4, 0.0])
    if k == 3:
        return s.TriangularWaveform(start_time=-2e-3, peak_time=-1e-3, off_time=0.0)
    if k == 4:
        return s.HalfSineWaveform(ramp_on=np.r_[-2e-3, -1e-3], ramp_off=np.r_[-5e-4, 0.0])
    if k == 5:
        return s.PiecewiseLinearWaveform(times=np.r_[-3e-3, -2e-3, -5e-4, 0.0, 5e-5], currents=np.r_[0.0, 0.7, 1.0, 1.0, 0.0])
    return s.QuarterSineRampOnWaveform(ramp_on=np.r_[-2e-3, -1e-3], ramp_off=np.r_[-1e-4, 0.0])


def td_rx(rng, td, i, src_loc, wire=False, loop=False):
    cls = (td.receivers.PointMagneticFluxDensity, td.receivers.PointMagneticFluxTimeDerivative, td.receivers.PointMagneticField)[i % 3]
    off = bool(rng.integers(2)) and not wire
    n = 1 if wire else 1 + i % 2
    d = np.c_[rng.uniform(5, 30, (n, 2)) * rng.choice([-1, 1], (n, 2)), rng.uniform(0, 3, n)]
    if loop:
        d[:, :2] = 0
    loc = d if off else d + np.mean(np.atleast_2d(src_loc), axis=0)
    orient = unit(rng) if i % 2 and not (wire or loop) else ("z" if (wire or loop) else "xyz"[int(rng.integers(3))])
    t = np.sort(rough(rng, 2 + i % 2, 1.5e-4, 5e-3))
    return cls(loc, t, orientation=orient, use_source_receiver_offset=off)


def _v_td1d():
    out = []
    for prop in ("sigma", "rho", "mu", "thick", "all", "h", "sigma+eta", "rho+seta", "all+chi", "shared"):
        for src in ("dip", "loop", "wire"):
            if src != "dip" and prop in ("rho", "rho+seta"):
                continue
            out.append(dict(prop=prop, src=src))
    out.append(dict(prop="all", src="mix"))
    return out


@scen("em1d_td", _v_td1d, "em1d", getJ=True, gtg=True, chunk=4, cost=3)
def em1d_td(rng, prop, src, fixJ=False):
    from simpeg.electromagnetics import time_domain as td

    topo = np.r_[0.0, 0.0, float(rng.choice([0.0, 25.0]))]
    srcs = []
    kinds = {"dip": ["dip"] * 3, "loop": ["loop"] * 2, "wire": ["wire"] * 2, "mix": ["dip", "wire", "loop"]}[src]
    w0 = int(rng.integers(7))
    for k, kd in enumerate(kinds):
        loc = np.r_[rng.uniform(-20, 20, 2), topo[2] + rng.uniform(1, 10)]
        wv = td_wave(rng, w0 + k, td)
        if kd == "wire":
            z = topo[2] + rng.uniform(0, 5)
            a = rng.uniform(10, 30)
            path = np.c_[loc[:2] + a * np.array([[-1, -1], [1, -1.2], [1.1, 1], [-1, 1.3], [-1, -1]]), np.full(5, z)]
            rxs = [td_rx(rng, td, i + k, path[:-1], wire=True) for i in range(3)]
            srcs.append(td.sources.LineCurrent(rxs, path, waveform=wv, current=float(rng.uniform(0.5, 4))))
        elif kd == "loop":
            rxs = [td_rx(rng, td, i + k, loc, loop=True) for i in range(3)]
            srcs.append(td.sources.CircularLoop(rxs, loc, waveform=wv, radius=float(rng.uniform(3, 20)), current=float(rng.uniform(0.5, 3))))
        else:
            rxs = [td_rx(rng, td, i + k, loc) for i in range(3)]
            ori = unit(rng) if k % 2 else "xyz"[int(rng.integers(3))]
            srcs.append(td.sources.MagDipole(rxs, loc, waveform=wv, orientation=ori, moment=float(rng.uniform(0.5, 3))))
    survey = td.Survey(srcs)
    kw, m, vs = layered_props(rng, prop, 3, len(srcs))
    sim = td.Simulation1DLayered(survey=survey, topo=topo, fix_Jmatrix=fixJ, n_points_per_path=int(rng.integers(2, 5)), **kw)
    return Built(sim, m, vscale=vs, rtol=1e-5)
