"""C26: petrophysical mixtures are valid cell-weighted Gaussian mixtures.

Mixtures of every covariance type are fitted, set by hand, ordered and updated with priors on meshes with uneven cells;
a monitor re-evaluates after every operation that proportions, covariances and precisions are those of a mixture and
that likelihoods and memberships are those of the density; one expectation-maximization step, the ordering and the
update with priors are recomputed independently.
"""
import copy
import warnings

import numpy as np
from scipy.special import logsumexp

from vp.core import case, quiet

RULE = "mixture state valid after every operation; density == weighted sum of Gaussians; EM step and prior update == volume-weighted formulas"
REQUIRED = {"states": 150, "densities": 120, "em steps": 40, "orderings": 60, "prior updates": 60}
TYPES = ("full", "tied", "diag", "spherical")


def mesh_of(rng, n):
    from discretize import TensorMesh

    if rng.integers(2):
        return TensorMesh([10.0 ** rng.uniform(-1, 2, n)])
    a = int(rng.integers(2, 6))
    return TensorMesh([10.0 ** rng.uniform(-1, 1, a), 10.0 ** rng.uniform(-1, 1, -(-n // a))])


def spd(rng, nf, s=1.0):
    A = rng.standard_normal((nf, nf))
    return s * (A @ A.T / nf + 0.3 * np.eye(nf))


def covs(rng, ct, k, nf, s=1.0):
    if ct == "full":
        return np.stack([spd(rng, nf, s) for _ in range(k)])
    if ct == "tied":
        return spd(rng, nf, s)
    if ct == "diag":
        return s * rng.uniform(0.3, 2, (k, nf))
    return s * rng.uniform(0.3, 2, k)


def inv(c, ct):
    if ct == "full":
        return np.stack([np.linalg.inv(x) for x in c])
    if ct == "tied":
        return np.linalg.inv(c)
    return 1.0 / c


def full(c, ct, k, nf):
    if ct == "full":
        return c
    if ct == "tied":
        return np.stack([c] * k)
    if ct == "diag":
        return np.stack([np.diag(x) for x in c])
    return np.stack([x * np.eye(nf) for x in c])


def logpdf(X, mu, C):
    d = X - mu
    L = np.linalg.cholesky(C)
    y = np.linalg.solve(L, d.T)
    return -0.5 * (y**2).sum(0) - np.log(np.diag(L)).sum() - 0.5 * X.shape[1] * np.log(2 * np.pi)


def logs(g, X, maps_=None, state=None):
    w, mu, C = state or (g.weights_, g.means_, g.covariances_)
    k, nf = mu.shape
    F = full(C, g.covariance_type, k, nf)
    Y = [X if maps_ is None else maps_[i](X) for i in range(k)]
    return np.stack([logpdf(Y[i], mu[i], F[i]) for i in range(k)], 1) + np.log(w)


def valid(ctx, g, what, local=False):
    """the state of a mixture"""
    ct = g.covariance_type
    k, nf = g.means_.shape
    ctx.event("states")
    w = np.asarray(g.weights_)
    ctx.check(np.all(w >= 0) and np.allclose(w.sum(-1), 1, rtol=1e-9, atol=1e-9), f"proportions {what}", f"{w if w.ndim == 1 else w[:3]} sum {w.sum(-1)[:3] if w.ndim > 1 else w.sum()}")
    C = full(np.asarray(g.covariances_), ct, k, nf)
    ctx.check(C.shape == (k, nf, nf), f"covariance shape {what}", f"{C.shape}")
    ctx.check(np.allclose(C, np.swapaxes(C, 1, 2), rtol=1e-9, atol=0), f"covariances not symmetric {what}", f"{C}")
    ctx.check(np.linalg.eigvalsh(0.5 * (C + np.swapaxes(C, 1, 2))).min() > 0, f"covariances not positive definite {what}", "")
    P = full(np.asarray(g.precisions_), ct, k, nf)
    I = np.einsum("kij,kjl->kil", C, P)
    tol = 1e-7 + 1e-12 * np.linalg.cond(0.5 * (C + np.swapaxes(C, 1, 2))).max()
    ctx.close(I, np.stack([np.eye(nf)] * k), f"precisions {what}", rtol=0, atol=tol)
    L = np.asarray(g.precisions_cholesky_)
    L = full(L, ct, k, nf)
    ctx.close(np.einsum("kij,klj->kil", L, L), P, f"precision factors {what}", rtol=tol)


def density(ctx, g, X, what, maps_=None):
    ctx.event("densities")
    lg = logs(g, X, maps_)
    tot = logsumexp(lg, axis=1)
    with quiet():
        s = g.score_samples(X)
        pr = g.predict_proba(X)
        lab = g.predict(X)
        sc = g.score(X)
    ctx.close(s, tot, f"likelihoods {what}", rtol=1e-8, atol=1e-7)
    ref = np.exp(lg - tot[:, None])
    ctx.close(pr, ref, f"memberships {what}", rtol=1e-6, atol=1e-8)
    srt = np.sort(ref, 1)
    sure = np.ones(len(X), bool) if ref.shape[1] == 1 else srt[:, -1] - srt[:, -2] > 1e-6
    ctx.check(np.array_equal(lab[sure], ref.argmax(1)[sure]), f"labels {what}", "")
    ctx.close(sc, np.average(tot, weights=g.cell_volumes), f"score {what}", rtol=1e-8, atol=1e-8)


def samples(rng, n, k, nf, sep=6.0, sd=0.5):
    mu = sep * (np.arange(k)[:, None] + rng.uniform(-0.2, 0.2, (k, nf))) * rng.choice([-1, 1], nf)
    lab = np.r_[np.arange(k), rng.integers(0, k, n - k)]
    return mu[lab] + sd * rng.standard_normal((n, nf)) * rng.uniform(0.5, 2, nf), mu, lab


def make(rng, cls=None, ct=None, k=None, nf=None, **kw):
    """a mixture with a state set by hand"""
    from simpeg import utils

    k = k or int(rng.integers(1, 5))
    nf = nf or int(rng.integers(1, 4))
    n = int(rng.integers(4 * k + 4, 60))
    mesh = mesh_of(rng, n + 5)
    act = None
    if cls is None and rng.integers(2):
        act = np.zeros(mesh.n_cells, bool)
        act[rng.permutation(mesh.n_cells)[:n]] = True
    N = mesh.n_cells if act is None else n
    ct = ct or str(rng.choice(TYPES))
    X, mu, lab = samples(rng, N, k, nf)
    a = {} if cls is not None else dict(actv=act)
    g = (cls or utils.WeightedGaussianMixture)(n_components=k, mesh=mesh, **a, covariance_type=ct, random_state=int(rng.integers(99)), n_init=1, **kw)
    return g, X, mu, act, N, k, nf, ct


def set_state(rng, g, mu, ct, k, nf, N, local=False, s=1.0):
    g.means_ = mu + 0.1 * rng.standard_normal(mu.shape)
    g.covariances_ = covs(rng, ct, k, nf, s)
    g.compute_clusters_precisions()
    w = rng.uniform(0.3, 1, (N, k) if local else k)
    g.weights_ = w / w.sum(-1, keepdims=True)


@case("C26", "fit", quick=20, thorough=160)
def fit(ctx):
    rng = ctx.rng
    for ct in TYPES:
        g, X, mu, act, N, k, nf, ct = make(rng, ct=ct, max_iter=int(rng.integers(1, 60)), init_params=str(rng.choice(["kmeans", "random"])))
        if rng.integers(2):
            X = X * 10.0 ** rng.integers(-2, 3)
            X = X[:, ::-1]
        keep = X.copy()
        ctx.label(f"{ct} {k} components {nf} features {N} cells")
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g.fit(X)
        ctx.check(np.array_equal(keep, X), "samples changed", "")
        valid(ctx, g, f"after fit {ct}")
        density(ctx, g, X, ct)
        W = rng.uniform(0.2, 3, (N, nf))
        F = full(g.covariances_, ct, k, nf)
        ref = np.stack([logpdf(X * W, 0, F[i]) if False else np.array([logpdf((W[j] * (X[j] - g.means_[i]))[None], 0, F[i])[0] for j in range(N)]) for i in range(k)], 1)
        ctx.close(g.score_samples_with_sensW(X, W), logsumexp(ref + np.log(g.weights_), axis=1), f"likelihoods with sensitivity weights {ct}", rtol=1e-8, atol=1e-7)
        # a scaling of the cells changes nothing
        g.cell_volumes = g.cell_volumes * 37.0
        s1 = g.score(X)
        g.cell_volumes = g.cell_volumes / 37.0
        ctx.close(s1, g.score(X), "score with scaled cells", rtol=1e-9, atol=1e-9)


def em(X, v, lr, ct, reg, maps_=None):
    r = v[:, None] * np.exp(lr)
    nk = r.sum(0)
    k = r.shape[1]
    Y = [X if maps_ is None else maps_[i](X) for i in range(k)]
    mu = np.stack([(r[:, i, None] * Y[i]).sum(0) / nk[i] for i in range(k)])
    nf = X.shape[1]
    F = np.stack([((r[:, i, None] * (Y[i] - mu[i])).T @ (Y[i] - mu[i])) / nk[i] for i in range(k)]) + reg * np.eye(nf)
    C = {"full": lambda: F, "tied": lambda: np.einsum("k,kij->ij", nk / nk.sum(), F),
         "diag": lambda: np.stack([np.diag(x) for x in F]), "spherical": lambda: np.array([np.diag(x).mean() for x in F])}[ct]()
    return nk / nk.sum(), mu, C


def polys(rng, k):
    from simpeg import maps

    out, ref = [], []
    for _ in range(k):
        a, b = float(rng.uniform(-0.2, 0.2)), float(rng.uniform(-0.5, 0.5))
        out.append(maps.PolynomialPetroClusterMap(coeffyx=np.r_[0.0, b, a]))
        ref.append(lambda X, a=a, b=b: np.c_[X[:, 0], X[:, 1] + b * X[:, 0] + a * X[:, 0] ** 2])
    return out, ref


@case("C26", "em", quick=16, thorough=120)
def em_step(ctx):
    """one expectation and maximization step from given parameters"""
    from simpeg import utils

    rng = ctx.rng
    for ct in TYPES:
        nl = bool(rng.integers(2))
        nf = 2 if nl else None
        k = int(rng.integers(1, 5))
        mp = polys(rng, k) if nl else (None, None)
        cls = (lambda **kw: utils.GaussianMixtureWithNonlinearRelationships(cluster_mapping=mp[0], **kw)) if nl else None
        g, X, mu, act, N, k, nf, ct = make(rng, cls=cls, ct=ct, k=k, nf=nf, max_iter=1)
        X = 0.3 * X
        mu = 0.3 * mu + 0.1 * rng.standard_normal(mu.shape)
        local = (not nl) and bool(rng.integers(2))
        w = rng.uniform(0.3, 1, (N, k) if local else k)
        w /= w.sum(-1, keepdims=True)
        C = covs(rng, ct, k, nf)
        g.weights_init, g.means_init, g.precisions_init = w.copy(), mu.copy(), inv(C, ct)
        ctx.label(f"{ct} {k} components {nf} features, cell proportions {local}, nonlinear {nl}")
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g.fit(X)
        lg = logs(g, X, mp[1], (w, mu, C))
        W, M, V = em(X, g.cell_volumes, lg - logsumexp(lg, axis=1, keepdims=True), ct, g.reg_covar, mp[1])
        ctx.event("em steps")
        tag = f"{'nonlinear ' if nl else ''}{ct}"
        ctx.close(g.weights_, w if local else W, f"proportions of a step {tag}", rtol=1e-7, atol=1e-10)
        sc = np.abs(X).max() * (1 if mp[1] is None else 1 + np.abs(X).max())
        ctx.close(g.means_, M, f"means of a step {tag}", rtol=1e-6, atol=1e-8 * sc)
        ctx.close(g.covariances_, V, f"covariances of a step {tag}", rtol=1e-6, atol=1e-8 * sc**2)
        valid(ctx, g, f"after a step {tag}")
        density(ctx, g, X, tag, mp[1])
        if nl:
            # several steps
            g.max_iter = int(rng.integers(2, 30))
            g.weights_init = g.means_init = g.precisions_init = None
            with quiet(), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g.fit(X)
            valid(ctx, g, f"after fit {tag}")
            density(ctx, g, X, tag, mp[1])


@case("C26", "by_hand", quick=16, thorough=120)
def by_hand(ctx):
    """parameters set by hand, orderings"""
    rng = ctx.rng
    for ct in TYPES:
        g, X, mu, act, N, k, nf, ct = make(rng, ct=ct, max_iter=2)
        local = bool(rng.integers(2))
        ctx.label(f"{ct} {k} components {nf} features, cell proportions {local}")
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            g.fit(X)
        set_state(rng, g, mu, ct, k, nf, N, local)
        valid(ctx, g, f"set covariances {ct}")
        density(ctx, g, X, f"set covariances {ct}")
        # precisions set by hand
        g.precisions_ = inv(covs(rng, ct, k, nf), ct)
        P = g.precisions_.copy()
        g.compute_clusters_covariances()
        ctx.close(g.precisions_, P, "given precisions", rtol=1e-12)
        valid(ctx, g, f"set precisions {ct}")
        density(ctx, g, X, f"set precisions {ct}")
        # ordering by proportion
        before = (np.array(g.weights_), g.means_.copy(), np.array(g.covariances_))
        s0 = g.score_samples(X)
        ix = g.order_clusters_GM_weight(outputindex=True)
        ctx.event("orderings")
        ctx.check(sorted(ix) == list(range(k)), "ordering is not a permutation", f"{ix}")
        w = g.weights_ if g.weights_.ndim == 1 else g.weights_.sum(0)
        ctx.check(np.all(np.diff(w) <= 1e-12), "clusters not by decreasing proportion", f"{w}")
        ctx.check(np.array_equal(g.means_, before[1][ix]), "means of ordered clusters", "")
        ctx.check(np.array_equal(g.weights_, before[0][..., ix]), "proportions of ordered clusters", "")
        ctx.check(np.array_equal(g.covariances_, before[2] if ct == "tied" else before[2][ix]), "covariances of ordered clusters", "")
        valid(ctx, g, f"ordered {ct}")
        ctx.close(g.score_samples(X), s0, "likelihoods of ordered clusters", rtol=1e-9, atol=1e-9)


@case("C26", "priors", quick=16, thorough=140)
def priors(ctx):
    from simpeg import utils

    rng = ctx.rng
    for ct in TYPES:
        ref, X, mu, act, N, k, nf, ct = make(rng, ct=ct, max_iter=2)
        rl = bool(rng.integers(2))
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref.fit(X)
        set_state(rng, ref, mu, ct, k, nf, N, rl)
        if rng.integers(2):
            ref.order_clusters_GM_weight()
        kap = float(rng.choice([0, 0.5, 3])) if rng.integers(2) else rng.uniform(0, 3, (k, nf))
        nu = float(rng.choice([0, 0.5, 3])) if rng.integers(2) else rng.uniform(0, 3, k)
        zeta = float(rng.choice([0, 0.5, 3])) if rng.integers(2) or rl else rng.uniform(0, 3, k)
        pt = str(rng.choice(["semi", "full"]))
        up = bool(rng.integers(2))
        rs = int(rng.integers(99))

        def new(**kw):
            kw = {**dict(kappa=kap, nu=nu, zeta=zeta, prior_type=pt, update_covariances=up), **kw}
            g = utils.GaussianMixtureWithPrior(ref, random_state=rs, n_init=1, max_iter=2, **kw)
            g.n_features_in_ = nf
            return g

        frozen = copy.deepcopy([ref.weights_, ref.means_, ref.covariances_, ref.precisions_])
        local = bool(rng.integers(2)) and rl
        ctx.label(f"{ct} {k} components {nf} features kappa {kap} nu {nu} zeta {zeta} {pt} update {up} cell proportions {local} {rl}")
        g = new()
        perm = rng.permutation(k)
        g.means_ = ref.means_[perm] + 0.1 * rng.standard_normal((k, nf))
        g.covariances_ = covs(rng, ct, k, nf, 0.6)
        w = rng.uniform(0.3, 1, (N, k) if local else k)
        g.weights_ = w / w.sum(-1, keepdims=True)
        g.compute_clusters_precisions()
        start = copy.deepcopy([g.weights_, g.means_, g.covariances_])
        s0 = g.score_samples(X)
        # ordering as the reference
        o = copy.deepcopy(g)
        ix = o.order_cluster(outputindex=True)
        ctx.event("orderings")
        ctx.check(sorted(ix) == list(range(k)), "reference ordering is not a permutation", f"{ix}")
        inv_ = np.argsort(perm)
        ctx.check(np.array_equal(o.means_, start[1][inv_]), "clusters not in the order of the reference", f"permutation {perm}")
        ctx.check(np.array_equal(o.weights_, start[0][..., inv_]), "proportions not in the order of the reference", f"permutation {perm}")
        if ct != "tied":
            ctx.check(np.array_equal(o.covariances_, start[2][inv_]), "covariances not in the order of the reference", "")
        valid(ctx, o, f"reference order {ct}")
        ctx.close(o.score_samples(X), s0, "likelihoods in the order of the reference", rtol=1e-9, atol=1e-9)
        # update
        W0, M0, C0 = np.array(o.weights_), o.means_.copy(), np.array(o.covariances_)
        P0 = inv(C0, ct)
        g.update_gmm_with_priors()
        ctx.event("prior updates")
        v = g.cell_volumes[:, None]
        w1 = W0 if W0.ndim == 1 else (v * W0).sum(0) / (v * W0).sum()
        r1 = ref.weights_ if ref.weights_.ndim == 1 else (v * ref.weights_).sum(0) / (v * ref.weights_).sum()
        K = kap * np.ones((k, nf))
        NU = nu * np.ones(k)
        Mx = (w1[:, None] * M0 + r1[:, None] * K * ref.means_) / (w1[:, None] + r1[:, None] * K)
        ctx.close(g.means_, Mx, "means with priors", rtol=1e-9, atol=1e-12)
        Z = zeta * ref.weights_
        Wx = (W0 + Z) / (1 + Z.sum(-1, keepdims=True))
        ctx.close(g.weights_, Wx, "proportions with priors", rtol=1e-9)
        if ct == "tied":
            a = np.sum(r1 * NU)
            base, rb = (C0, ref.covariances_) if up else (P0, ref.precisions_)
            want = (base + a * rb) / (1 + a)
        else:
            sh = (-1,) + (1,) * (np.ndim(C0) - 1)
            a, b = w1.reshape(sh), (r1 * NU).reshape(sh)
            base, rb = (C0, ref.covariances_) if up else (P0, ref.precisions_)
            want = (a * base + b * rb) / (a + b)
            if up and pt == "full":
                d = ref.means_ - M0
                c = K * w1[:, None] / (K + w1[:, None]) / (w1 + r1 * NU)[:, None]
                if ct == "full":
                    q = np.sqrt(c) * d
                    want = want + q[:, :, None] * q[:, None, :]
                elif ct == "diag":
                    want = want + c * d**2
                else:
                    want = want + (c * d**2).mean(1)
        ctx.close(g.covariances_ if up else g.precisions_, want, f"{'covariances' if up else 'precisions'} with priors {ct} {pt}", rtol=1e-8)
        valid(ctx, g, f"with priors {ct} {pt}")
        density(ctx, g, X, f"with priors {ct}")
        # complete confidence in the prior
        h = new(kappa=1e9, nu=1e9, zeta=1e9, prior_type="semi")
        if rl:
            h.weights_init = ref.weights_.copy()
        fm = None
        if rl and rng.integers(2):
            fm = np.c_[rng.permutation(N)[: max(1, N // 4)], rng.integers(0, k, max(1, N // 4))]
            h.fixed_membership = fm
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h.means_init, h.precisions_init = ref.means_.copy(), np.array(ref.precisions_)
            h.fit(X)
        ctx.close(h.means_, ref.means_, "means of a certain prior", rtol=1e-6, atol=1e-6)
        ctx.close(h.covariances_, ref.covariances_, "covariances of a certain prior", rtol=1e-6, atol=1e-6)
        rw = np.array(ref.weights_)
        if fm is not None:
            one = np.zeros((len(fm), k))
            one[np.arange(len(fm)), fm[:, 1]] = 1
            rw[fm[:, 0]] = one
        ctx.close(h.weights_, rw, "proportions of a certain prior", rtol=1e-6, atol=1e-8)
        valid(ctx, h, "certain prior")
        # partial confidence: a valid mixture
        f = new()
        if local:
            f.weights_init = ref.weights_.copy()
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            f.fit(X)
        valid(ctx, f, f"fit with priors {ct}")
        density(ctx, f, X, f"fit with priors {ct}")
        for a, b in zip(frozen, [ref.weights_, ref.means_, ref.covariances_, ref.precisions_]):
            ctx.check(np.array_equal(a, b), "reference mixture changed", "")


@case("C26", "nonlinear_priors", quick=8, thorough=60)
def nonlinear_priors(ctx):
    from simpeg import utils

    rng = ctx.rng
    for ct in TYPES:
        k = int(rng.integers(1, 4))
        mp, fn = polys(rng, k)
        ref, X, mu, act, N, k, nf, ct = make(rng, cls=lambda **kw: utils.GaussianMixtureWithNonlinearRelationships(cluster_mapping=mp, **kw), ct=ct, k=k, nf=2, max_iter=20)
        ctx.label(f"nonlinear priors {ct} {k} components")
        pt = str(rng.choice(["semi", "full"]))
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ref.fit(X)
            valid(ctx, ref, f"nonlinear {ct}")
            g = utils.GaussianMixtureWithNonlinearRelationshipsWithPrior(ref, kappa=1.0, nu=float(rng.uniform(0, 2)), zeta=float(rng.uniform(0, 2)), prior_type=pt, max_iter=5, n_init=1, random_state=1)
            ctx.check(g.prior_type == pt, "prior type of nonlinear mixtures", f"{g.prior_type} not {pt}")
            g.fit(X)
        valid(ctx, g, f"nonlinear with priors {ct}")
        density(ctx, g, X, f"nonlinear with priors {ct}", fn)
