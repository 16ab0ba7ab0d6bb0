"""C20: transmitter waveforms and viscous-remanent decay functions.

Every waveform is sampled at random and hostile times (its kinks and their neighbouring floats, before the start,
after the end) and compared with a reference shape written from the documentation; the derivative function is compared
with a one-sided numerical derivative away from kinks and with the two one-sided slopes at kinks; decay functions are
compared with numerically integrated superpositions of the step response.
"""
import warnings

import numpy as np
from scipy import integrate

from vp.core import case, quiet

RULE = "value == documented shape; derivative == d(value)/dt between kinks; decay == superposition of step responses"
REQUIRED = {"waveform values": 8000, "waveform derivatives": 4000, "decays": 300, "convolutions": 30}


def ramp(t, a, b):
    return np.clip((t - a) / (b - a), 0, 1)


def draw(rng, kind):
    """(constructor, reference, kinks, has ends at zero (start, end))"""
    from simpeg.electromagnetics.time_domain import sources as S

    sc = 10.0 ** rng.uniform(-5, 0)
    t = np.sort(rng.uniform(-1, 1, 4)) * sc
    while np.min(np.diff(t)) < 1e-3 * sc:
        t = np.sort(rng.uniform(-1, 1, 4)) * sc
    if kind == "StepOff":
        off = float(t[1])
        return S.StepOffWaveform(off_time=off, epsilon=1e-12 * sc), lambda x: np.where((x < off), 1.0, 0.0), [off], (None, off)
    if kind == "RampOff":
        a, b = t[0], t[1]
        how = int(rng.integers(3))
        w = [lambda: S.RampOffWaveform(a, b, epsilon=0.0), lambda: S.RampOffWaveform(ramp_start=a, ramp_end=b, epsilon=0.0),
             lambda: S.RampOffWaveform(abs(b), epsilon=0.0)][how]()
        if how == 2:
            a, b = 0.0, abs(b)
        return w, lambda x: 1 - ramp(x, a, b), [a, b], (None, b)
    if kind == "VTEM":
        p, o = np.sort(np.abs(t[:2])) + 0.01 * sc
        if o - p < 1e-3 * sc:
            o = p + 0.1 * sc
        r = float(rng.uniform(0.2, 8))
        w = S.VTEMWaveform(off_time=o, peak_time=p, ramp_on_rate=r)
        f = lambda x: np.where(x <= 0, 0, np.where(x <= p, -np.expm1(-r * np.minimum(np.maximum(x, 0), p) / p) / -np.expm1(-r), np.where(x < o, (o - x) / (o - p), 0)))
        return w, f, [0.0, p, o], (0.0, o)
    if kind == "Exponential":
        a, p, o = t[:3]
        tau = float((p - a) * rng.uniform(0.05, 5))
        w = S.ExponentialWaveform(start_time=a, peak_time=p, off_time=o, ramp_on_tau=tau)
        f = lambda x: np.where(x <= a, 0, np.where(x <= p, -np.expm1(-(np.clip(x, a, p) - a) / tau) / -np.expm1(-(p - a) / tau), np.where(x < o, (o - x) / (o - p), 0)))
        return w, f, [a, p, o], (a, o)
    if kind == "Piecewise":
        n = int(rng.integers(2, 30))
        tt = np.sort(rng.uniform(-1, 1, n)) * sc
        tt = tt[np.r_[True, np.diff(tt) > 1e-4 * sc]]
        n = tt.size
        if n < 2:
            tt, n = np.r_[0.0, sc], 2
        cc = rng.uniform(-2, 2, n)
        if rng.integers(2):
            cc[0] = cc[-1] = 0
        pm = rng.permutation(n)
        w = S.PiecewiseLinearWaveform(tt[pm], cc[pm])
        return w, lambda x: np.interp(x, tt, cc), list(tt), (tt[0] if cc[0] == 0 else None, tt[-1] if cc[-1] == 0 else None)
    if kind == "Triangular":
        a, p, o = t[:3]
        w = S.TriangularWaveform(start_time=a, peak_time=p, off_time=o)
        if rng.integers(2):
            p = float(a + (o - a) * rng.uniform(0.1, 0.9))
            w.peak_time = p
        return w, lambda x: np.where(x <= p, ramp(x, a, p), 1 - ramp(x, p, o)), [a, p, o], (a, o)
    a, b, c, d = t
    if rng.integers(4) == 0:
        c = b
    cls = {"Trapezoid": S.TrapezoidWaveform, "QuarterSine": S.QuarterSineRampOnWaveform, "HalfSine": S.HalfSineWaveform}[kind]
    w = cls(ramp_on=np.r_[a, b], ramp_off=np.r_[c, d])
    if kind == "Trapezoid":
        up, dn = lambda u: u, lambda u: 1 - u
    elif kind == "QuarterSine":
        up, dn = lambda u: np.sin(np.pi / 2 * u), lambda u: 1 - u
    else:
        up, dn = lambda u: np.sin(np.pi / 2 * u), lambda u: np.cos(np.pi / 2 * u)
    return w, lambda x: np.where(x <= b, up(ramp(x, a, b)), dn(ramp(x, c, d))), [a, b, c, d], (a, d)


def slopes(ref, t, h):
    """numerical slope of the reference left and right of t"""
    return (ref(t) - ref(t - h)) / h, (ref(t + h) - ref(t)) / h


KINDS = ["StepOff", "RampOff", "VTEM", "Exponential", "Piecewise", "Triangular", "Trapezoid", "QuarterSine", "HalfSine"]


def shapes(ctx, kind):
    rng = ctx.rng
    for _ in range(ctx.n(25, 400)):
        w, ref, kinks, (start, end) = draw(rng, kind)
        kinks = np.unique(np.asarray(kinks, float))
        ctx.label(f"{kind} kinks {kinks[:6]}")
        ctx.distinct((kind, tuple(kinks)))
        span = max(kinks[-1] - kinks[0], abs(kinks).max())
        lo, hi = kinks[0] - span, kinks[-1] + span
        ts = np.r_[rng.uniform(lo, hi, 30), kinks, np.nextafter(kinks, -np.inf), np.nextafter(kinks, np.inf),
                   kinks[0] - span * 10.0 ** rng.uniform(-9, 3, 4), kinks[-1] + span * 10.0 ** rng.uniform(-9, 3, 4), 0.0]
        vals = np.array([float(w.eval(float(x))) for x in ts])
        want = ref(ts)
        if kind == "StepOff":
            # documented as on up to its off time; within epsilon of a switch either value may be given
            far = (np.abs(ts - kinks[0]) > 1e-9 * span) & (np.abs(ts) > 1e-9 * span)
            vals, want = vals[far], want[far]
        ctx.event("waveform values", vals.size)
        amp = max(1.0, np.abs(want).max())
        ctx.close(vals, want, f"value of {kind}", rtol=0, atol=1e-9 * amp, msg=f"at {ts[:vals.size][np.argmax(abs(vals-want))]}")
        peak = 1.0 if kind != "Piecewise" else np.abs(w.currents).max()
        ctx.check(np.all(np.abs(vals) <= peak * (1 + 1e-12)), f"{kind} exceeds its peak", f"{np.abs(vals).max()}")
        if start is not None:
            x = float(start - span * 10.0 ** rng.uniform(-9, 3))
            ctx.check(w.eval(x) == 0, f"{kind} is not zero before it starts", f"{w.eval(x)} at {x}")
        if end is not None:
            x = float(end + span * 10.0 ** rng.uniform(-6, 3))
            ctx.check(w.eval(x) == 0, f"{kind} is not zero after it ends", f"{w.eval(x)} at {x}")
        init = float(w.eval(float(lo))) != 0
        ctx.check(bool(w.has_initial_fields) == init, f"initial fields of {kind}", f"{w.has_initial_fields} but value {w.eval(float(lo))}")
        ctx.check(type(w.has_initial_fields) is bool, f"initial fields flag of {kind} is not a bool", f"{type(w.has_initial_fields)}")
        if kind == "StepOff":
            continue
        # derivative
        h = 1e-5 * np.min(np.diff(kinks))
        x = rng.uniform(lo, hi, 40)
        x = x[np.min(np.abs(x[:, None] - kinks), axis=1) > 4 * h]
        num = np.array([(8 * (w.eval(float(a + h)) - w.eval(float(a - h))) - (w.eval(float(a + 2 * h)) - w.eval(float(a - 2 * h)))) / (12 * h) for a in x])
        got = w.eval_deriv(x)
        ctx.event("waveform derivatives", x.size)
        sl = amp / np.min(np.diff(kinks))
        ctx.close(got, num, f"derivative of {kind}", rtol=1e-4, atol=1e-9 * sl + 1e-14 * amp / h, msg="")
        ctx.check(np.shape(w.eval_deriv(x.reshape(-1, 1))) == (x.size, 1), f"shape of the derivative of {kind}")
        one = [w.eval_deriv(float(a)) for a in x[:5]]
        ctx.close(np.array(one, float), got[:5], f"derivative of {kind} at a single time", rtol=1e-14)
        atk = w.eval_deriv(kinks.copy())
        for a, g in zip(kinks, atk):
            l, r = slopes(ref, a, h)
            ctx.check(min(l, r) - 1e-3 * sl <= g <= max(l, r) + 1e-3 * sl, f"derivative of {kind} at a kink", f"{g} not in [{l}, {r}] at {a}")
        # the nodes are the ends of the smooth pieces
        nodes = np.unique(np.asarray(w.time_nodes, float))
        ctx.close(nodes, kinks, f"time nodes of {kind}", rtol=1e-12)
        # exactly the change of value is the integral of the derivative
        a, b = np.sort(rng.uniform(lo, hi, 2))
        cuts = np.r_[a, kinks[(kinks > a) & (kinks < b)], b]
        I = sum(integrate.quad(lambda u: float(w.eval_deriv(float(u))), c0, c1, epsabs=0, epsrel=1e-10)[0] for c0, c1 in zip(cuts[:-1], cuts[1:]))
        ctx.close(I, w.eval(float(b)) - w.eval(float(a)), f"integral of the derivative of {kind}", rtol=1e-6, atol=1e-7 * amp)


for _k in KINDS:
    case("C20", f"shape.{_k}", quick=1, thorough=3, cost=1)(lambda ctx, k=_k: shapes(ctx, k))


@case("C20", "raw", quick=1, thorough=3)
def raw(ctx):
    from simpeg.electromagnetics.time_domain import sources as S
    from simpeg.electromagnetics.utils import waveform_utils as U

    rng = ctx.rng
    for _ in range(ctx.n(20, 200)):
        a, b = rng.standard_normal(2)
        f = lambda t: a * np.cos(b * t)
        w = S.RawWaveform(off_time=1.0, waveform_function=f)
        x = rng.standard_normal(20)
        ctx.event("waveform values", 20)
        ctx.check(all(w.eval(t) == f(t) for t in x), "raw waveform differs from its function")
        p = float(rng.uniform(0.1, 1))
        o = p + float(rng.uniform(0.1, 1))
        r = float(rng.uniform(0.5, 5))
        t = rng.uniform(0, 2 * o, 50)
        v = S.VTEMWaveform(off_time=o, peak_time=p, ramp_on_rate=r)
        ctx.event("waveform values", 50)
        ctx.close(U.VTEMFun(t, p, o, r), [v.eval(x) for x in t], "VTEM function and waveform differ", rtol=1e-12)
        fr = 10.0 ** rng.uniform(-3, 9, 4)
        sg = 10.0 ** rng.uniform(-8, 2)
        mu, eps = 4e-7 * np.pi * rng.uniform(1, 3), 8.854e-12 * rng.uniform(1, 20)
        k2 = mu * eps * (2 * np.pi * fr) ** 2 - 1j * 2 * np.pi * fr * mu * sg
        k = U.k(fr, sg, mu, eps)
        ctx.event("waveform values", 4)
        # (alpha - i beta)^2 == k^2; beta suffers from cancellation when displacement dominates
        ctx.close(np.abs(k) ** 2, np.abs(k2), "modulus of the wavenumber", rtol=1e-10)
        ctx.close(k.real, np.sqrt(k2).real, "real part of the wavenumber", rtol=1e-8)
        ctx.check(np.all(k.imag <= 0), "wavenumber grows")


@case("C20", "convolve", quick=2, thorough=8)
def convolve(ctx):
    """convolution with a waveform == -int waveform'(t-s) f(s) ds, here by a different quadrature of the value"""
    from simpeg.electromagnetics.utils import waveform_utils as U

    rng = ctx.rng
    for kind in KINDS[1:]:
        for _ in range(ctx.n(3, 10)):
            w, ref, kinks, _ = draw(rng, kind)
            kinks = np.unique(kinks)
            span = kinks[-1] - kinks[0]
            tau = span * 10.0 ** rng.uniform(-0.7, 1)
            sc = float(rng.uniform(0.5, 2))
            f = lambda s, a, b=1.0: b * np.exp(-s / a)
            ts = np.r_[rng.uniform(kinks[0], kinks[-1] + span, 3), kinks[-1] + span]
            ctx.label(f"{kind} tau/span {tau/span:.3g}")
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = U.convolve_with_waveform(f, w, ts, fargs=[tau], fkwargs=dict(b=sc))
            # integrate by parts: -int_0^inf w'(t-s) f(s) ds, w' by parts on s
            want = []
            for t in ts:
                edges = np.unique(np.r_[0, np.maximum(t - kinks, 0)])
                tot = 0.0
                for a, b in zip(edges[:-1], edges[1:]):
                    # d/ds[w(t-s)] = -w'(t-s)
                    xg, wg = np.polynomial.legendre.leggauss(60)
                    s = a + (b - a) * (xg + 1) / 2
                    fp = -sc / tau * np.exp(-s / tau)
                    i = ref(t - s) @ (fp * wg) * (b - a) / 2
                    tot += ref(t - b) * f(b, tau, sc) - ref(t - a) * f(a, tau, sc) - i
                want.append(tot)
            ctx.event("convolutions")
            peak = 1.0 if kind != "Piecewise" else 2.0
            ctx.close(got, want, f"convolution with {kind}", rtol=1e-6, atol=1e-7 * sc * peak)


# ---------------------------------------------------------------- viscous remanent magnetization
MU0 = 4e-7 * np.pi


def by_quad(f, a, b):
    return integrate.quad(f, a, b, epsabs=0, epsrel=1e-11, limit=200)[0]


@case("C20", "vrm", quick=2, thorough=10)
def vrm(ctx):
    from simpeg.electromagnetics import viscous_remanent_magnetization as V

    W = V.waveforms
    rng = ctx.rng
    for _ in range(ctx.n(30, 250)):
        sc = 10.0 ** rng.uniform(-4, 0)
        t0 = float(rng.choice([0.0, rng.uniform(-1, 1) * sc]))
        times = t0 + sc * np.sort(10.0 ** rng.uniform(-2, 2, 5))
        delt = float(sc * 10.0 ** rng.uniform(-2, 2))
        ctx.label(f"t0={t0:.3g} delt={delt:.3g} scale={sc:.3g}")
        st, sq = W.StepOff(t0=t0), W.SquarePulse(delt=delt, t0=t0)
        n = 4
        chi0, dchi = rng.uniform(0, 0.1, n), rng.uniform(0.001, 0.01, n)
        tau1 = sc * 10.0 ** rng.uniform(-6, -1, n)
        tau2 = sc * 10.0 ** rng.uniform(0, 6, n)
        for ft in ("dhdt", "dbdt"):
            c = MU0 if ft[1] == "b" else 1.0
            ctx.event("decays", 4)
            ctx.close(st.getCharDecay(ft, times), -c / (times - t0), f"step-off decay {ft}", rtol=1e-12)
            shifted = W.StepOff(t0=t0 - delt)
            # a pulse is a step-off minus an earlier step-off
            s0 = np.abs(st.getCharDecay(ft, times))
            ctx.close(sq.getCharDecay(ft, times) / s0, (st.getCharDecay(ft, times) - shifted.getCharDecay(ft, times)) / s0, f"square pulse decay {ft}", rtol=1e-9, scale=1.0)
            args = (chi0, dchi, tau1, tau2)
            L = st.getLogUniformDecay(ft, times, *args)
            ctx.check(L.shape == (n, times.size), "shape of the decay")
            ctx.close(sq.getLogUniformDecay(ft, times, *args), L - shifted.getLogUniformDecay(ft, times, *args), f"square pulse log-uniform decay {ft}", rtol=1e-9, scale=np.abs(L).max())
            # the log-uniform decay is the mean exponential decay over the log of the relaxation time
            i = int(rng.integers(n))
            j = int(rng.integers(times.size))
            t = times[j] - t0
            ref = -c * dchi[i] / np.log(tau2[i] / tau1[i]) * by_quad(lambda u: np.exp(-t * np.exp(-u)) * np.exp(-u), np.log(tau1[i]), np.log(tau2[i]))
            ctx.close(L[i, j], ref, f"log-uniform step-off decay {ft}", rtol=1e-6, atol=1e-12 * c * dchi[i] / t)
        for ft, d in (("h", "dhdt"), ("b", "dbdt")):
            c = MU0 if ft == "b" else 1.0
            ctx.event("decays", 3)
            ctx.close(sq.getCharDecay(ft, times), c * np.log1p(delt / (times - t0)), f"square pulse decay {ft}", rtol=1e-9)
            # the field is minus the integral of its derivative to infinity: compare a difference of two times
            a, b = times[0], times[-1]
            for fun, lab in ((lambda k, x: sq.getCharDecay(k, x), "decay"), (lambda k, x: sq.getLogUniformDecay(k, x, chi0, dchi, tau1, tau2)[1], "log-uniform decay")):
                dv = fun(ft, np.r_[a, b])
                ref = by_quad(lambda u: fun(d, np.r_[t0 + np.exp(u)])[0] * np.exp(u), np.log(a - t0), np.log(b - t0))
                ctx.close(dv[1] - dv[0], ref, f"square pulse {lab} of {ft} and its derivative", rtol=1e-6, atol=1e-9 * abs(dv).max())
        ctx.raises(ValueError, lambda: st.getCharDecay("dhdt", np.r_[t0 - sc, t0 + sc]), "on-time accepted by the step-off decay")
        ctx.raises(ValueError, lambda: sq.getCharDecay("dhdt", np.r_[t0, t0 + sc]), "on-time accepted by the square pulse decay")


@case("C20", "vrm_arbitrary", quick=2, thorough=10)
def vrm_arbitrary(ctx):
    from simpeg.electromagnetics import viscous_remanent_magnetization as V

    W = V.waveforms
    rng = ctx.rng
    for _ in range(ctx.n(25, 200)):
        sc = 10.0 ** rng.uniform(-4, 0)
        n = int(rng.integers(3, 9))
        tw = np.sort(rng.uniform(-1, 0, n)) * sc
        tw[-1] = 0.0
        while np.min(np.diff(tw)) < 0.02 * sc:
            tw = np.sort(rng.uniform(-1, 0, n)) * sc
            tw[-1] = 0.0
        Iw = rng.uniform(0.05, 3, n)
        edge = str(rng.choice(["zero", "start", "end", "pad", "bipolar"]))
        if edge in ("zero", "bipolar"):
            Iw[0] = Iw[-1] = 0
        elif edge == "end":
            Iw[0] = 0
        elif edge == "start":
            Iw[-1] = 0
        elif edge == "pad" and n > 4:
            Iw[:2] = Iw[-2:] = 0
        if edge == "bipolar":
            Iw *= rng.choice([-1, 1], n)
            if n > 3:
                Iw[-2] = -abs(Iw[-2]) - 0.1
                Iw[1] = abs(Iw[1]) + 0.1
        if not np.any(Iw > 0):
            continue
        times = sc * np.sort(10.0 ** rng.uniform(-1.2, 2, 4))
        ctx.label(f"{edge} t={tw} I={Iw}")
        ctx.distinct((edge, n))
        g = Iw / np.abs(Iw).max()
        pw, ds = W.ArbitraryPiecewise(tw, Iw), W.ArbitraryDiscrete(tw, Iw)
        xg, wg = np.polynomial.legendre.leggauss(40)
        for ft in ("h", "b", "dhdt", "dbdt"):
            c = MU0 if "b" in ft else 1.0
            ref = np.zeros(times.size)
            for a, b in zip(tw[:-1], tw[1:]):
                for q0, q1 in zip(np.linspace(a, b, 9)[:-1], np.linspace(a, b, 9)[1:]):
                    s = q0 + (q1 - q0) * (xg + 1) / 2
                    k = 1 / (times[:, None] - s) if len(ft) == 1 else -1 / (times[:, None] - s) ** 2
                    ref += k @ (np.interp(s, tw, g) * wg) * (q1 - q0) / 2
            ref *= c
            k = 1 / times if len(ft) == 1 else 1 / times**2
            ctx.event("decays", 2)
            with ctx.guard():
                with quiet():
                    got = pw.getCharDecay(ft, times)
                ctx.close(got / (c * k * sc), ref / (c * k * sc), f"piecewise linear decay {ft}: {edge}", rtol=1e-6, scale=1.0)
                with quiet():
                    got = ds.getCharDecay(ft, times)
                # sampled between its nodes: as good as its own sampling only
                ctx.close(got / (c * k * sc), ref / (c * k * sc), f"discrete decay {ft}: {edge}", rtol=0.03, scale=1.0)
        ctx.raises(ValueError, lambda: W.ArbitraryPiecewise(tw, Iw).getCharDecay("h", np.r_[tw[-1] - 0.01 * sc, sc]), "on-time accepted by the piecewise decay")
    f = lambda t: 1 / t**2
    ctx.check(np.array_equal(W.Custom(f).getCharDecay("h", np.r_[1.0, 2.0]), f(np.r_[1.0, 2.0])), "custom decay differs from its function")
