"""Numerical-differentiation oracles (three-valued) and adjoint oracle."""
import numpy as np


def bnorms(x, blks):
    return np.array([np.linalg.norm(x[ix]) for _, ix in blks])


def num_deriv(F, m, v, h):
    """Central differences at h, h/2, h/4 with Richardson extrapolation.

    returns (derivative, error estimate per entry, size of F, finest step)."""
    f0 = np.asarray(F(m), dtype=float if not np.iscomplexobj(F(m)) else complex)
    D = []
    for k in (1.0, 0.5, 0.25):
        D.append((F(m + h * k * v) - F(m - h * k * v)) / (2 * h * k))
    R1 = D[1] + (D[1] - D[0]) / 3
    R2 = D[2] + (D[2] - D[1]) / 3
    S = R2 + (R2 - R1) / 15
    err = np.abs(R2 - R1) + np.abs(S - R2)
    return S, err, f0, h / 4


def check_deriv(ctx, F, Jv, m, v, blks, key, h=None, rtol=2e-6, eps=2e-12, floor=0.0):
    """Jv against numerical derivative, block by block.

    A block whose numerical derivative is not itself accurate to 1% of the block's
    size (discontinuity, roundoff) is recorded as unobservable, not judged."""
    if h is None:
        h = 1e-3 * max(1e-12, 1.0)
    S, err, f0, hf = num_deriv(F, m, v, h)
    Jv = np.asarray(Jv)
    if Jv.shape != f0.shape:
        return ctx.check(False, key, f"shape of product {Jv.shape} != shape of data {f0.shape}")
    ok = True
    fmax = np.max(np.abs(f0)) if f0.size else 0.0
    jmax = max(np.max(np.abs(S)), np.max(np.abs(Jv))) if f0.size else 0.0
    for lab, ix in blks:
        if len(ix) == 0:
            continue
        d = np.linalg.norm(Jv[ix] - S[ix])
        sc = max(np.linalg.norm(S[ix]), np.linalg.norm(Jv[ix]))
        noise = eps * np.linalg.norm(f0[ix]) / hf + 1e-13 * jmax * 0 + floor
        tol = rtol * sc + 3 * np.linalg.norm(err[ix]) + noise
        if sc <= noise or (np.linalg.norm(err[ix]) + noise) > 0.02 * sc:
            ctx.event("unobservable_blocks")
            # even an inaccurate derivative refutes a grossly wrong product
            if d <= 3 * tol + 0.5 * sc or sc <= 10 * noise:
                continue
        ctx.event("blocks_judged")
        o = d <= tol
        if o and tol > 0 and d / tol > ctx.margin:
            ctx.margin, ctx.margin_key = d / tol, key + " " + lab + " " + ctx._label
        ok &= ctx.check(o, key, f"block {lab}: |Jv-numeric|={d:.3e} vs |J v|={sc:.3e} tol={tol:.3e} (rel {d / max(sc, 1e-300):.2e})",
                        Jv=Jv[ix], numeric=S[ix])
    return ok


def check_adjoint(ctx, Jv, Jtw, v, w, blks, key, rtol=1e-8, scales=None):
    """w.(J v) = (J^T w).v ; w should already be balanced over blocks."""
    a = np.vdot(w, Jv) if not np.iscomplexobj(Jv) else (w.conj() * Jv).sum()
    b = np.dot(Jtw, v)
    a, b = np.real(a), np.real(b)
    sc = np.linalg.norm(w * Jv) + np.linalg.norm(Jtw * v)
    return ctx.check(abs(a - b) <= rtol * sc + 1e-300, key, f"w.Jv={a:.12e} v.Jtw={b:.12e} diff={abs(a-b):.3e} scale={sc:.3e}")
