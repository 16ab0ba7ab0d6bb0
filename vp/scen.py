"""Scenario library: small, randomised, fully built simulations of every modality.

A scenario is a function of (rng, **opts) that returns a Built.  `Scn.build()` replays
it from its seed, so that every call yields new, identical, independent objects.
"""
import numpy as np

REG = {}  # name -> dict(fn, variants, group, flags)


class Built:
    """sim, m (model), and optional extras."""

    def __init__(self, sim, m, **kw):
        self.sim, self.m = sim, np.asarray(m, dtype=float)
        self.vscale = None  # typical size of a direction, per entry
        self.kw = kw
        self.__dict__.update(kw)

    def direction(self, rng):
        v = rng.standard_normal(self.m.size)
        sc = self.kw.get("vscale", 1.0)
        return v * sc


class Scn:
    def __init__(self, name, opts, seed):
        self.name, self.opts, self.seed = name, dict(opts), seed

    @property
    def info(self):
        return REG[self.name]

    @property
    def label(self):
        return self.name + "(" + ",".join(f"{k}={v}" for k, v in self.opts.items()) + ")"

    def build(self, **over):
        o = dict(self.opts)
        o.update(over)
        return REG[self.name]["fn"](np.random.default_rng(self.seed), **o)


def scen(name, variants, group, **flags):
    def deco(fn):
        REG[name] = dict(fn=fn, variants=variants, group=group, flags=flags)
        return fn

    return deco


def variants_of(name):
    v = REG[name]["variants"]
    return v() if callable(v) else v


def grid(**kw):
    """Cartesian product of options."""
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


def load_all():
    from . import scen_static, scen_em, scen_1d, scen_pf, scen_other  # noqa: F401
    return REG


# ------------------------------------------------------------------ helpers
def blocks(sim, survey=None, nD=None):
    """[(label, index array)] of the data vector, one block per source-receiver pair."""
    survey = survey if survey is not None else getattr(sim, "survey", None)
    if survey is None or not hasattr(survey, "source_list"):
        return [("all", np.arange(nD))]
    out, i = [], 0
    try:
        for s, src in enumerate(survey.source_list):
            for r, rx in enumerate(src.receiver_list):
                n = rx.nD
                nm = type(rx).__name__
                for a in ("orientation", "component", "components", "data_type", "projField"):
                    x = getattr(rx, a, None)
                    if isinstance(x, str):
                        nm += ":" + x
                out.append((f"{type(src).__name__}[{s}]/{nm}[{r}]", np.arange(i, i + n)))
                i += n
    except AttributeError:
        return [("all", np.arange(nD))]
    if nD is not None and i != nD:
        return [("all", np.arange(nD))]
    return out


def rough(rng, n, lo, hi, log=True):
    """n random positive values in [lo, hi]."""
    if log:
        return np.exp(rng.uniform(np.log(lo), np.log(hi), n))
    return rng.uniform(lo, hi, n)


def hvec(rng, n, h, jitter=0.3):
    return h * np.exp(rng.uniform(-jitter, jitter, n))


def prop_map(rng, mesh, kind, lo, hi):
    """(map onto nC positive cell values in [lo,hi], model, scale of directions)."""
    from simpeg import maps

    nC = mesh if isinstance(mesh, (int, np.integer)) else mesh.n_cells
    if kind == "exp":
        return maps.ExpMap(nP=nC), np.log(rough(rng, nC, lo, hi)), 1.0
    if kind == "id":
        m = rough(rng, nC, lo, hi)
        return maps.IdentityMap(nP=nC), m, m
    if kind == "recip":
        m = 1 / rough(rng, nC, lo, hi)
        return maps.ReciprocalMap(nP=nC), m, m
    if kind == "active":
        act = rng.random(nC) < 0.7
        act[0] = True
        n = int(act.sum())
        if mesh is nC:
            from discretize import TensorMesh

            mesh = TensorMesh([nC])
        return maps.InjectActiveCells(mesh, act, np.sqrt(lo * hi)) * maps.ExpMap(nP=n), np.log(rough(rng, n, lo, hi)), 1.0
    if kind == "wires":
        w = maps.Wires(("pad", 3), ("s", nC), ("pad2", 2))
        return maps.ExpMap(nP=nC) * w.s, np.r_[rng.standard_normal(3), np.log(rough(rng, nC, lo, hi)), rng.standard_normal(2)], 1.0
    if kind == "linear":
        # few-parameter log-linear
        import scipy.sparse as sp

        k = max(3, nC // 7)
        idx = rng.integers(0, k, nC)
        A = sp.csr_matrix((np.ones(nC), (np.arange(nC), idx)), shape=(nC, k))
        return maps.ExpMap(nP=nC) * maps.LinearMap(A), np.log(rough(rng, k, lo, hi)), 1.0
    if kind == "logistic":
        a, b = lo, hi
        return maps.LogisticSigmoidMap(nP=nC, lower_bound=a, upper_bound=b), rng.standard_normal(nC), 1.0
    raise KeyError(kind)


def tensor3(rng, n=(6, 5, 5), h=20.0, top=0.0):
    from discretize import TensorMesh

    hs = [hvec(rng, k, h) for k in n]
    org = np.array([-hs[0].sum() / 2, -hs[1].sum() / 2, top - hs[2].sum()])
    return TensorMesh(hs, origin=org)


def tensor2(rng, n=(12, 7), h=10.0, top=0.0):
    from discretize import TensorMesh

    hs = [hvec(rng, k, h) for k in n]
    return TensorMesh(hs, origin=np.array([-hs[0].sum() / 2, top - hs[1].sum()]))


def tree3(rng, h=20.0, n=8, top=0.0):
    from discretize import TreeMesh

    mesh = TreeMesh([[(h, n)]] * 3, origin=np.array([-h * n / 2, -h * n / 2, top - h * n]), diagonal_balance=bool(rng.integers(2)))
    pts = rng.uniform([-h * 2, -h * 2, top - 2 * h], [h * 2, h * 2, top], (3, 3))
    mesh.insert_cells(pts, -1 * np.ones(3, dtype=int), finalize=True)
    return mesh


def tree2(rng, h=10.0, n=16, top=0.0):
    from discretize import TreeMesh

    mesh = TreeMesh([[(h, n)]] * 2, origin=np.array([-h * n / 2, top - h * n]))
    pts = rng.uniform([-h * 4, top - 2 * h], [h * 4, top], (4, 2))
    mesh.insert_cells(pts, -1 * np.ones(4, dtype=int), finalize=True)
    return mesh


def cyl(rng, nr=8, nz=10, h=10.0, nt=1):
    from discretize import CylindricalMesh

    hr = hvec(rng, nr, h)
    hz = hvec(rng, nz, h)
    ht = [2 * np.pi] if nt == 1 else np.full(nt, 2 * np.pi / nt)
    return CylindricalMesh([hr, ht, hz], origin=np.array([0, 0, -hz.sum() / 2]))
