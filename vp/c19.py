"""C19: layered-earth responses against independent quadrature, and their invariances.

Frequency domain: the field of every source-receiver pair is recomputed by direct quadrature of the Hankel integrals with
an admittance recursion of our own. Time domain: step-off responses are recomputed from the frequency response by an exact
piecewise cosine transform; other waveforms from step-off responses by convolution. Resistivity: own kernel recursion.
Splitting, reordering, scaling, shifting and the reciprocal property are metamorphic relations on the same surveys.
"""
import numpy as np
from scipy.constants import mu_0
from scipy.special import j0, j1

from .core import case, quiet
from .scen import rough
from .scen_1d import td_wave, unit

RULE = "layered response == own quadrature; invariant under splitting, order, shift; linear in moment; waveform convolution"
REQUIRED = {"data against quadrature": 250, "invariance": 600, "step-off data": 12, "convolved data": 30, "resistivity data": 40}


def gl(a, b, panels, n=8):
    x, w = np.polynomial.legendre.leggauss(n)
    e = np.linspace(0, 1, panels + 1) ** 2 * (b - a) + a  # finer near the origin
    h = np.diff(e)
    return (e[:-1, None] + h[:, None] * (x + 1) / 2).ravel(), (h[:, None] * w / 2).ravel()


def csig(earth, w):
    s, e, t, c = (np.asarray(earth[k], float) for k in ("sigma", "eta", "tau", "c"))
    iwt = (1j * w * t) ** c
    return s * (1 - e / (1 + (1 - e) * iwt)) if np.any(e != 0) else s + 0j


def cmu(earth, w):
    m = np.asarray(earth["mu"], float)
    if np.all(earth["dchi"] == 0):
        return m + 0j
    t1, t2 = earth["tau1"], earth["tau2"]
    return m + mu_0 * earth["dchi"] * (1 - np.log((1 + 1j * w * t2) / (1 + 1j * w * t1)) / np.log(t2 / t1))


def rte(lam, w, earth):
    s, m, th = csig(earth, w), cmu(earth, w), earth["th"]
    u = [np.sqrt(lam**2 + 1j * w * m[i] * s[i]) for i in range(len(s))]
    Y = [u[i] / m[i] for i in range(len(s))]
    Z = Y[-1]
    for i in range(len(th) - 1, -1, -1):
        t = np.tanh(u[i] * th[i])
        Z = Y[i] * (Z + Y[i] * t) / (Y[i] + Z * t)
    Y0 = lam / mu_0
    return (Y0 - Z) / (Y0 + Z)


def dip_field(d, s, w, earth):
    """3x3 tensor: secondary field at horizontal offset d, total height s (source plus receiver), per unit moment"""
    rho = np.hypot(*d)
    lam, wt = gl(1e-9, 60.0 / s, 160 + int(rho / s * 12))
    e = rte(lam, w, earth) * np.exp(-lam * s) * wt
    J0, J1 = j0(lam * rho), j1(lam * rho)
    A, B, C = (e * lam**2 * J0).sum(), (e * lam**2 * J1).sum(), (e * lam * J1).sum() / rho
    x, y = np.asarray(d) / rho
    xx, yy, xy = -(x * x * (A - C) + y * y * C), -(y * y * (A - C) + x * x * C), -x * y * (A - 2 * C)
    T = np.array([[xx, xy, x * B], [xy, yy, y * B], [x * B, y * B, A]]) / (4 * np.pi)
    return T * np.array([-1.0, -1.0, 1.0])


def free(dxyz):
    r = np.linalg.norm(dxyz)
    return (3 * np.outer(dxyz, dxyz) / r**2 - np.eye(3)) / (4 * np.pi * r**3)


def loop_field(a, s, w, earth):
    lam, wt = gl(1e-9, 60.0 / s, 160 + int(a / s * 12))
    return a / 2 * (rte(lam, w, earth) * np.exp(-lam * s) * wt * lam * j1(lam * a)).sum()


def quad_pts(path, n=5):
    """points and weights over the (convex) quadrilateral, orientation of the path included"""
    x, w = np.polynomial.legendre.leggauss(n)
    x, w = (x + 1) / 2, w / 2
    P, W = [], []
    for t in ((0, 1, 2), (0, 2, 3)):
        a, b, c = path[list(t), :2]
        area2 = np.cross(b - a, c - a)
        for i in range(n):
            for j in range(n):
                u, v = x[i], x[j] * (1 - x[i])
                P.append(a + u * (b - a) + v * (c - a))
                W.append(w[i] * w[j] * (1 - x[i]) * area2)
    return np.array(P), np.array(W)


def make_earth(rng, nl, full=True, visc=True):
    e = dict(sigma=rough(rng, nl, 1e-3, 0.5), th=rough(rng, nl - 1, 3, 30), mu=np.full(nl, mu_0), eta=np.zeros(nl), tau=np.ones(nl), c=np.full(nl, 0.5), dchi=np.zeros(nl), tau1=np.full(nl, 1e-10), tau2=np.full(nl, 10.0))
    if full and rng.random() < 0.4:
        e["mu"] = mu_0 * rough(rng, nl, 1, 2)
    if full and rng.random() < 0.5:
        e.update(eta=rng.uniform(0.1, 0.6, nl), tau=rough(rng, nl, 1e-4, 1e-1), c=rng.uniform(0.3, 0.9, nl))
    if visc and rng.random() < 0.3:
        e.update(dchi=rng.uniform(0.01, 0.2, nl), tau1=rough(rng, nl, 1e-10, 1e-8), tau2=rough(rng, nl, 1, 50))
    return e


def earth_kw(e, recip=False):
    kw = dict(thicknesses=e["th"].copy(), mu=e["mu"].copy())
    kw["rho" if recip else "sigma"] = 1 / e["sigma"] if recip else e["sigma"].copy()
    if np.any(e["eta"] != 0):
        kw.update(eta=e["eta"].copy(), tau=e["tau"].copy(), c=e["c"].copy())
    if np.any(e["dchi"] != 0):
        kw.update(dchi=e["dchi"].copy(), tau1=e["tau1"].copy(), tau2=e["tau2"].copy())
    return kw


def split(rng, e):
    e = {k: v.copy() for k, v in e.items()}
    nl = e["sigma"].size
    k = int(rng.integers(nl))
    t = rng.uniform(0.2, 0.8)
    th = e["th"]
    if k < nl - 1:
        e["th"] = np.r_[th[:k], th[k] * t, th[k] * (1 - t), th[k + 1 :]]
    else:
        e["th"] = np.r_[th, rng.uniform(2, 40)]
    for n in e:
        if n != "th":
            e[n] = np.insert(e[n], k, e[n][k])
    return e


# ------------------------------------------------------------------ surveys as plain specifications
def fd_spec(rng, kind):
    out = []
    for k in range(2):
        loc = np.r_[rng.uniform(-20, 20, 2), rng.uniform(1, 12)]
        s = dict(kind=kind, loc=loc, f=float(rough(rng, 1, 50, 3e4)[0]), m=float(rng.uniform(0.5, 3) * (1 if kind == 'dip' else rng.choice([-1, 1]))), rx=[])
        if kind == "dip":
            s["o"] = unit(rng)
        elif kind == "loop":
            s["a"] = float(rng.uniform(3, 20))
        else:
            a = rng.uniform(8, 20)
            q = np.array([[-1, -1], [1, -1.2], [1.1, 1], [-1, 1.3], [-1, -1]])
            loc[2] = rng.uniform(6, 15)
            s["path"] = np.c_[loc[:2] + a * (q if rng.random() < 0.5 else q[::-1]), np.full(5, loc[2])]
        for i in range(4):
            n = 1 if kind == "wire" else int(rng.integers(1, 3))
            off = np.c_[rng.uniform(4, 40, (n, 2)) * rng.choice([-1, 1], (n, 2)), rng.uniform(-0.5, 4, n)]
            if kind == "loop":
                off[:, :2] = 0
            if kind == "wire":
                off[:, :2] *= 0.15 if rng.random() < 0.5 else 2.5
            s["rx"].append(dict(off=off, o=unit(rng) if kind == "dip" else np.r_[0.0, 0.0, 1.0], comp=("real", "imag", "both")[int(rng.integers(3))], typ=["sec", "ppm", "tot"][int(rng.integers(3))] if kind != "wire" else "sec", rel=bool(rng.integers(2)) and kind != "wire"))
        out.append(s)
    return out


def fd_sim(spec, earth, shift=np.zeros(3), recip=False, gain=1.0, **kw):
    from simpeg.electromagnetics import frequency_domain as fd

    srcs = []
    for s in spec:
        rxs = []
        for r in s["rx"]:
            loc = r["off"] if r["rel"] else r["off"] + s["loc"] + shift
            k = dict(orientation=r["o"], component=r["comp"], use_source_receiver_offset=r["rel"])
            rxs.append(fd.receivers.PointMagneticField(loc, **k) if r["typ"] == "tot" else fd.receivers.PointMagneticFieldSecondary(loc, data_type="ppm" if r["typ"] == "ppm" else "field", **k))
        if s["kind"] == "dip":
            srcs.append(fd.sources.MagDipole(rxs, s["f"], s["loc"] + shift, orientation=s["o"], moment=s["m"] * gain))
        elif s["kind"] == "loop":
            srcs.append(fd.sources.CircularLoop(rxs, s["f"], s["loc"] + shift, radius=s["a"], current=s["m"] * gain, orientation="z"))
        else:
            srcs.append(fd.sources.LineCurrent(rxs, s["f"], s["path"] + shift, current=s["m"] * gain))
    kw.setdefault("n_points_per_path", 20)
    return fd.Simulation1DLayered(survey=fd.Survey(srcs), topo=np.r_[0.0, 0.0, shift[2]], **kw, **earth_kw(earth, recip))


def fd_expected(spec, earth):
    """(expected, scale) per datum"""
    out, sc = [], []
    for s in spec:
        w = 2 * np.pi * s["f"]
        h = s["loc"][2]
        for r in s["rx"]:
            for d in r["off"]:
                ht = 2 * h + d[2]
                if s["kind"] == "dip":
                    T, P = dip_field(d[:2], ht, w, earth), free(d)
                    H, p = s["m"] * (r["o"] @ T @ s["o"]), s["m"] * (r["o"] @ P @ s["o"])
                    big = abs(s["m"]) * np.abs(T).max()
                elif s["kind"] == "loop":
                    a = s["a"]
                    H, p = s["m"] * loop_field(a, ht, w, earth), s["m"] * a**2 / 2 / (a**2 + d[2] ** 2) ** 1.5
                    big = abs(H)
                else:
                    pts, wt = quad_pts(s["path"], 12)
                    H = s["m"] * sum(wt[k] * dip_field(s["loc"][:2] + d[:2] - pts[k], ht, w, earth)[2, 2] for k in range(len(wt)))
                    p, big = 0.0, abs(H)
                if r["typ"] == "ppm":
                    H, big = H / p * 1e6, big / abs(p) * 1e6
                elif r["typ"] == "tot":
                    H, big = H + p, big + abs(p)
                v = {"real": [H.real], "imag": [H.imag], "both": [H.real, H.imag]}[r["comp"]]
                out += v
                sc += [big] * len(v)
    return np.array(out), np.array(sc)


def compare(ctx, d, e, sc, key, rtol):
    if not ctx.check(d.shape == e.shape, key + " (number of data)", f"{d.shape} {e.shape}"):
        return
    ctx.close(d / sc, e / sc, key, rtol=rtol, scale=1.0)


@case("C19", "fd", quick=18, thorough=150, cost=2)
def freq(ctx):
    rng = ctx.rng
    kind = ("dip", "loop", "dip", "wire", "dip", "loop")[ctx.rep % 6]
    nl = int(rng.integers(1, 5))
    earth, spec = make_earth(rng, nl), fd_spec(rng, kind)
    ctx.label(f"fd {kind} {nl} layers")
    with quiet():
        d = fd_sim(spec, earth).dpred(None)
    e, sc = fd_expected(spec, earth)
    ctx.event("data against quadrature", e.size)
    compare(ctx, d, e, sc, f"frequency domain {kind}", 2e-3 if kind == "wire" else 1e-4)
    run = lambda *a, **k: fd_sim(*a, **k).dpred(None)
    with quiet():
        g = float(rng.choice([20.0, 3.7, 1e-4] if kind == "dip" else [-1.0, 3.7, 1e-4]))
        tests = {
            "split layer": (run(spec, split(rng, earth)), d, 1e-7),
            "resistivity for conductivity": (run(spec, earth, recip=True), d, 1e-9),
            "shifted": (run(spec, earth, shift=np.r_[rng.uniform(-500, 500, 2), rng.uniform(-50, 900)]), d, 1e-6),
            "other filter": (run(spec, earth, hankel_filter="key_201_2012"), d, 1e-3),
        }
        lin = run(spec, earth, gain=g)
        rev = [dict(s, rx=s["rx"][::-1]) for s in spec[::-1]]
        dr = run(rev, earth)
        one = np.concatenate([run([dict(s, rx=[r])], earth) for s in spec for r in s["rx"]])
    want = d.copy()
    i = 0
    parts = []
    for s in spec:
        for r in s["rx"]:
            n = r["off"].shape[0] * (2 if r["comp"] == "both" else 1)
            if r["typ"] != "ppm":
                want[i : i + n] *= g
            parts.append(slice(i, i + n))
            i += n
    tests["scaled moment"] = (lin / np.where(want == 0, 1, abs(g)), want / abs(g), 1e-7)
    tests["reordered"] = (dr, np.concatenate([d[p] for p in parts[::-1]]), None)
    tests["receivers one by one"] = (one, d, 1e-9)
    for k, (a, b, tol) in tests.items():
        ctx.event("invariance", b.size)
        if tol is None:
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=0), f"{k} {kind} fd", f"{a} {b}")
        else:
            compare(ctx, a, b, sc, f"{k} {kind} fd", tol)


# ------------------------------------------------------------------ time domain
def td_sim(spec, earth, waves=None, gain=1.0, shift=np.zeros(3), recip=False, **kw):
    from simpeg.electromagnetics import time_domain as td

    cls = dict(b=td.receivers.PointMagneticFluxDensity, dbdt=td.receivers.PointMagneticFluxTimeDerivative, h=td.receivers.PointMagneticField)
    srcs = []
    for i, s in enumerate(spec):
        wv = td.sources.StepOffWaveform() if waves is None else waves[i]
        rxs = [cls[r["typ"]](r["off"] if r["rel"] else r["off"] + s["loc"] + shift, r["t"], orientation=r["o"], use_source_receiver_offset=r["rel"]) for r in s["rx"]]
        if s["kind"] == "dip":
            srcs.append(td.sources.MagDipole(rxs, s["loc"] + shift, waveform=wv, orientation=s["o"], moment=s["m"] * gain))
        elif s["kind"] == "loop":
            srcs.append(td.sources.CircularLoop(rxs, s["loc"] + shift, waveform=wv, radius=s["a"], current=s["m"] * gain, orientation="z"))
        else:
            srcs.append(td.sources.LineCurrent(rxs, s["path"] + shift, waveform=wv, current=s["m"] * gain))
    kw.setdefault("n_points_per_path", 6)
    return td.Simulation1DLayered(survey=td.Survey(srcs), topo=np.r_[0.0, 0.0, shift[2]], **kw, **earth_kw(earth, recip))


def td_spec(rng, kind):
    spec = fd_spec(rng, kind)
    for s in spec:
        for i, r in enumerate(s["rx"]):
            r.update(typ=("b", "dbdt", "h")[i % 3], t=np.sort(rough(rng, 3, 3e-5, 5e-3)))
            r["off"] = r["off"][:1]
    return spec


def cos_transform(w, g, t):
    """integral of g(w) cos(w t) for the piecewise linear interpolant of g"""
    s, c = np.sin(w * t), np.cos(w * t)
    sl = np.diff(g) / np.diff(w)
    return np.sum((g[1:] * s[1:] - g[:-1] * s[:-1]) / t + sl * (c[1:] - c[:-1]) / t**2) + g[0] * w[0]


@case("C19", "td", quick=9, thorough=70, cost=3)
def time(ctx):
    from simpeg.electromagnetics import time_domain as td

    rng = ctx.rng
    kind = ("dip", "loop", "wire")[ctx.rep % 3]
    nl = int(rng.integers(1, 4))
    earth, spec = make_earth(rng, nl, visc=False), td_spec(rng, kind)
    ctx.label(f"td {kind} {nl} layers")
    with quiet():
        step = td_sim(spec, earth).dpred(None)
    # the step-off response from the frequency response, for the first receiver of the first source
    s = spec[0]
    if kind != "wire":
        r = s["rx"][0]
        w = np.geomspace(1e-1, 3e9, 420)
        H = np.zeros(w.size, complex)
        for k in range(w.size):
            if kind == "dip":
                H[k] = s["m"] * (r["o"] @ dip_field(r["off"][0, :2], 2 * s["loc"][2] + r["off"][0, 2], w[k], earth) @ s["o"])
            else:
                H[k] = s["m"] * loop_field(s["a"], 2 * s["loc"][2] + r["off"][0, 2], w[k], earth)
        from scipy.interpolate import CubicSpline

        wf = np.geomspace(w[0], w[-1], 60000)
        im = CubicSpline(np.log(w), H.imag)(np.log(wf))
        e = np.array([-2 / np.pi * mu_0 * cos_transform(wf, im / wf, t) for t in r["t"]])
        ctx.event("step-off data", e.size)
        sc = np.maximum(np.abs(e), np.abs(e).max() * 1e-2) + mu_0 * np.abs(H).max() * 1e-5
        compare(ctx, step[: e.size], e, sc, f"step-off {kind}", 0.02)
    # h, b and db/dt of the same receiver
    r = dict(s["rx"][0])
    t1, t2 = 1e-4, 1.2e-3
    x, wq = np.polynomial.legendre.leggauss(40)
    lt = np.exp(np.log(t1) + (x + 1) / 2 * np.log(t2 / t1))
    q = [dict(s, rx=[dict(r, typ="b", t=np.r_[t1, t2]), dict(r, typ="h", t=np.r_[t1, t2]), dict(r, typ="dbdt", t=lt)])]
    with quiet():
        d = td_sim(q, earth).dpred(None)
    ctx.event("invariance", 3)
    ctx.close(mu_0 * d[2:4], d[:2], f"b is not mu0 h {kind}", rtol=1e-9)
    ctx.close(np.sum(d[4:] * lt * wq) * np.log(t2 / t1) / 2, d[1] - d[0], f"db/dt does not integrate to b {kind}", rtol=2e-3, scale=np.abs(d[:2]).max())
    # waveforms: convolution of the derivative of the current with the step-off response
    i0 = int(rng.integers(7))
    waves = [td_wave(rng, i0 + k, td) for k in range(len(spec))]
    with quiet():
        dw = td_sim(spec, earth, waves).dpred(None)
    i = 0
    for s, wv in zip(spec, waves):
        for r in s["rx"]:
            n = r["t"].size
            if isinstance(wv, td.sources.StepOffWaveform):
                i += n
                continue
            nodes = np.asarray(wv.time_nodes, float)
            late = r["t"] > nodes[-1] + 2e-5
            for k in np.flatnonzero(late):
                ts, ws = [], []
                for a, b in zip(nodes[:-1], nodes[1:]):
                    x, wq = np.polynomial.legendre.leggauss(24)
                    # graded towards the later end, where the response is steep
                    lo, hi = r["t"][k] - b, r["t"][k] - a
                    y = np.exp(np.log(lo) + (x + 1) / 2 * np.log(hi / lo))
                    eps = (b - a) * 1e-5
                    tau = np.clip(r["t"][k] - y, a + eps, b - eps)
                    cur = (np.array([wv.eval(z + eps) for z in tau]) - np.array([wv.eval(z - eps) for z in tau])).ravel() / (2 * eps)
                    ts.append(y)
                    ws.append(-cur * y * wq * np.log(hi / lo) / 2)
                ts, ws = np.concatenate(ts), np.concatenate(ws)
                o = np.argsort(ts)
                with quiet():
                    st = td_sim([dict(s, rx=[dict(r, t=ts[o])])], earth).dpred(None)
                ctx.event("convolved data")
                sc = np.sum(np.abs(ws[o] * st))
                ctx.close(dw[i + k] / sc, np.sum(ws[o] * st) / sc, f"waveform {type(wv).__name__} {kind} {r['typ']}", rtol=0.04, scale=1.0)
                break
            i += n
    run = lambda *a, **k: td_sim(*a, **k).dpred(None)
    sizes = [r["t"].size for s in spec for r in s["rx"]]
    cut = np.split(np.arange(step.size), np.cumsum(sizes)[:-1])
    sc = np.concatenate([np.full(c.size, np.abs(step[c]).max() + 1e-300) for c in cut])
    with quiet():
        g = 3.7
        tests = {
            "split layer": (run(spec, split(rng, earth)), step, 1e-6),
            "resistivity for conductivity": (run(spec, earth, recip=True), step, 1e-9),
            "shifted": (run(spec, earth, shift=np.r_[rng.uniform(-500, 500, 2), rng.uniform(-50, 900)]), step, 1e-6),
            "scaled moment": (run(spec, earth, gain=g) / g, step, 1e-9),
            "reordered": (run([dict(s, rx=s["rx"][::-1]) for s in spec[::-1]], earth), np.concatenate([step[c] for c in cut[::-1]]), None),
            "receivers one by one": (np.concatenate([run([dict(s, rx=[r])], earth) for s in spec for r in s["rx"]]), step, 5e-3),
        }
    for k, (a, b, tol) in tests.items():
        ctx.event("invariance", b.size)
        if tol is None:
            ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=0), f"{k} {kind} td", f"{a} {b}")
        else:
            compare(ctx, a, b, sc, f"{k} {kind} td", tol)


# ------------------------------------------------------------------ resistivity and magnetotellurics
def dc_pole(r, rho, th):
    lam, w = gl(1e-12, 45.0 / (2 * th[0]) if th.size else 1.0, 150 + int(12 * r / (2 * th[0] if th.size else 1e9)))
    T = np.full(lam.size, rho[-1])
    for i in range(th.size - 1, -1, -1):
        t = np.tanh(lam * th[i])
        T = (T + rho[i] * t) / (1 + T * t / rho[i])
    return (rho[0] / r + np.sum((T - rho[0]) * j0(lam * r) * w)) / (2 * np.pi)


@case("C19", "dc", quick=10, thorough=60, cost=1)
def dc1d(ctx):
    from simpeg.electromagnetics.static import resistivity as dc

    rng = ctx.rng
    nl = int(rng.integers(1, 6))
    rho, th = rough(rng, nl, 5, 2000), rough(rng, nl - 1, 3, 30)
    ctx.label(f"dc {nl} layers")
    E = np.c_[rng.uniform(-150, 150, (14, 2)), np.zeros(14)]

    def build(order, shift=0.0, cur=1.0, rho=rho, th=th, recip=False):
        r = np.random.default_rng(77)
        srcs, exp = [], []
        for k in range(6):
            p = r.permutation(14)
            I = cur * float(r.uniform(0.5, 2))
            M, N = E[p[2:5]] + shift, E[p[5:8]] + shift
            dip_tx, dip_rx = bool(r.integers(2)), bool(r.integers(2))
            V = lambda A, X: np.array([dc_pole(np.linalg.norm(A - x), rho, th) for x in X])
            A, B = E[p[0]] + shift, E[p[1]] + shift
            v = V(A, M) - (V(A, N) if dip_rx else 0)
            if dip_tx:
                v = v - V(B, M) + (V(B, N) if dip_rx else 0)
            rx = dc.receivers.Dipole(M, N) if dip_rx else dc.receivers.Pole(M)
            srcs.append(dc.sources.Dipole([rx], A, B, current=I) if dip_tx else dc.sources.Pole([rx], A, current=I))
            exp.append(I * v)
        sv = dc.Survey([srcs[k] for k in order])
        kw = dict(sigma=1 / rho) if recip else dict(rho=rho)
        with quiet():
            return dc.Simulation1DLayers(survey=sv, thicknesses=th, **kw).dpred(None), np.concatenate([exp[k] for k in order])

    o = np.arange(6)
    d, e = build(o)
    sc = np.abs(e).max()
    ctx.event("resistivity data", e.size)
    ctx.close(d, e, "resistivity of layers", rtol=2e-3, scale=sc)
    o2 = rng.permutation(6)
    d2, e2 = build(o2)
    ctx.event("invariance", 5 * d.size)
    ctx.close(d2, np.concatenate([d[3 * k : 3 * k + 3] for k in o2]), "order of resistivity sources", rtol=1e-9, scale=sc)
    ctx.close(build(o, cur=-30.0)[0], -30 * d, "scaled current of layers", rtol=1e-9, scale=30 * sc)
    ctx.close(build(o, shift=np.r_[1000.0, -200.0, 0.0])[0], d, "shifted resistivity layers", rtol=1e-7, scale=sc)
    ctx.close(build(o, recip=True)[0], d, "conductivity of layers", rtol=1e-10, scale=sc)
    k = int(rng.integers(nl))
    t = rng.uniform(0.2, 0.8)
    th2 = np.r_[th[:k], th[k] * t, th[k] * (1 - t), th[k + 1 :]] if k < nl - 1 else np.r_[th, 12.0]
    ctx.close(build(o, rho=np.insert(rho, k, rho[k]), th=th2)[0], d, "split layer resistivity", rtol=1e-7, scale=sc)


@case("C19", "mt", quick=6, thorough=40, cost=1)
def mt1d(ctx):
    from simpeg.electromagnetics import natural_source as ns

    rng = ctx.rng
    nl = int(rng.integers(1, 6))
    sig, th = rough(rng, nl, 1e-4, 1), rough(rng, nl - 1, 20, 2000)
    ctx.label(f"mt {nl} layers")
    fr = np.sort(rough(rng, 4, 1e-2, 1e4))
    comps = list(rng.permutation(["real", "imag", "apparent_resistivity", "phase"]))

    def run(sig, th, freqs, recip=False):
        srcs = [ns.sources.Planewave([ns.receivers.Impedance(np.zeros((1, 3)), orientation="xy", component=str(c)) for c in comps], frequency=float(f)) for f in freqs]
        with quiet():
            return ns.simulation_1d.Simulation1DRecursive(survey=ns.Survey(srcs), thicknesses=th[::-1], **(dict(rho=1 / sig[::-1]) if recip else dict(sigma=sig[::-1]))).dpred(None).reshape(len(freqs), -1)

    d = run(sig, th, fr)
    e = dict(sigma=sig, th=th)
    k = int(rng.integers(nl))
    t = rng.uniform(0.2, 0.8)
    th2 = np.r_[th[:k], th[k] * t, th[k] * (1 - t), th[k + 1 :]] if k < nl - 1 else np.r_[th, 120.0]
    ctx.event("invariance", 3 * d.size)
    sc = np.abs(d).max(axis=0)
    ctx.close(run(np.insert(sig, k, sig[k]), th2, fr) / sc, d / sc, "split layer magnetotelluric", rtol=1e-8, scale=1.0)
    ctx.close(run(sig, th, fr, recip=True) / sc, d / sc, "resistivity magnetotelluric", rtol=1e-10, scale=1.0)
    ctx.close(run(sig, th, fr[::-1])[::-1] / sc, d / sc, "order of frequencies", rtol=1e-12, scale=1.0)
    # scaling law: depth over skin depth
    c = float(rng.choice([0.1, 3.0, 100.0]))
    z = [c_ for c_ in range(len(comps)) if comps[c_] == "apparent_resistivity"][0]
    ctx.close(run(sig * c, th, fr / c)[:, z], d[:, z] / c, "scaling of apparent resistivity", rtol=1e-8)
