"""Summaries, kernels, spectra and features recomputed from the posterior they are taken from."""
import numpy as np

from .. import core, gen, ref
from ..core import to_numpy
from . import c15
from .c07 import posterior

PROPERTY = "C18"
RULE = ("Summary cases: sample arrays of rank 1 to 3 (1 to 2000 samples; skewed, constant, with outliers; NumPy and JAX), plain and in decibels, "
        "recomputed field by field.  Model cases: a random model and posterior (mean-field factors, stored samples, the prior); predicted "
        "kernels are compared with reference kernels of the stored filter samples or, for sampled ones, with the exact moments; spectra "
        "with a direct cosine transform of those kernels; features with the factor's or the samples' moments; default lags included.  "
        "Non-trivial: a summary recomputed or a prediction compared.")
ASSUMPTIONS = ["covariances with condition number at most 1e7", "statistics reject beyond 7 standard errors", "the variance in decibels is not judged"]
BUDGET = {"quick": 75, "thorough": 800}
MANDATORY = 100
MIN_CASES = 60


def cases(rng, tier):
    n = 80 if tier == "quick" else 1500
    for i in range(n):
        yield dict(kind="summary", num=rng.choice([1, 2, 3, 4, 10, 101, 2000]), rank=rng.choice([1, 2, 2, 2, 3]), size=rng.choice([1, 2, 5, 30]), db=rng.random() < 0.4,
                   dist=rng.choice(["normal", "skewed", "constant", "outlier"]), jax=rng.random() < 0.4)
    for cls, kind in [("GPCM", "psd"), ("CGPCM", "kernel"), ("RGPCM", "kernel mf")]:
        # More samples than are drawn by default.
        cfg = gen.cfg_ok(rng, cls, scheme="mean-field-ca")
        yield dict(kind=kind, cfg=cfg, t=gen.times(rng, cfg, 3), num=1300, perturb=False, np=True, twice=False, epsilon=0.0, must=True)
    n = 48 if tier == "quick" else 700
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        kind = ["kernel", "psd", "fourier", "kernel mf", "kernel", "prior", "default", "fourier mf"][(i // 3) % 8]
        scheme = "mean-field-ca" if "mf" in kind else "structured" if kind in ("kernel", "fourier") else rng.choice(["structured", "mean-field-ca"])
        cfg = gen.cfg_ok(rng, cls, scheme=scheme)
        yield dict(kind=kind, cfg=cfg, t=gen.times(rng, cfg, 3), num=rng.choice([1, 5, 12]), perturb=rng.random() < 0.4, np=rng.random() < 0.5, twice=rng.random() < 0.25, epsilon=0.0)


Q = [("err_68_lower", 0.16), ("err_68_upper", 0.84), ("err_95_lower", 0.025), ("err_95_upper", 0.975), ("err_99_lower", 0.0015), ("err_99_upper", 0.9985)]


def quantile(S, q):
    """Linear interpolation of order statistics along the first axis."""
    S = np.sort(S, axis=0)
    h = q * (len(S) - 1)
    i = int(np.floor(h))
    j = min(i + 1, len(S) - 1)
    return S[i] + (h - i) * (S[j] - S[i])


def judge(m, s, x, S, db, key, tol=1e-9):
    """A summary against the samples it should summarise (first axis)."""
    T = (lambda v: 10 * np.log10(v)) if db else (lambda v: v)
    sc = np.max(np.abs(T(S))) + 1e-300
    c = lambda n, got, want: m.close("summary/" + n, got, want, rtol=tol, atol=0, scale=sc, **key)
    m.check("summary/NumPy", all(isinstance(v, (np.ndarray, np.floating)) for v in s), types=[type(v).__name__ for v in s], **key)
    m.close("summary/x", s.x, x, rtol=1e-9, atol=0, **key)
    c("mean", s.mean, T(S.mean(0)))
    if not db:
        m.close("summary/var", s.var, S.var(0), rtol=1e-7, atol=1e-18, scale=np.max(S.var(0)) + 1e-12 * sc**2, **key)
    for n, q in Q:
        c(n, getattr(s, n), T(quantile(S, q)))
    order = ["err_99_lower", "err_95_lower", "err_68_lower", None, "err_68_upper", "err_95_upper", "err_99_upper"]
    vals = [T(quantile(S, 0.5)) if n is None else np.asarray(getattr(s, n)) for n in order]
    for a, b in zip(vals, vals[1:]):
        m.check("summary/nested", np.all(a <= b + 1e-9 * sc), **key)
    allT = T(np.transpose(S, tuple(range(S.ndim))[::-1]))
    c("all samples", s.all_samples, allT)
    k = min(3, len(S))
    if m.check("summary/three", s.samples.shape == allT.shape[:-1] + (k,), shape=s.samples.shape, **key):
        flat = allT.reshape(-1, len(S))
        pick = s.samples.reshape(-1, k)
        used = []
        for i in range(k):
            near = [j for j in range(len(S)) if j not in used and np.max(np.abs(flat[:, j] - pick[:, i])) <= tol * sc]
            m.check("summary/three distinct of them", len(near) > 0, **key)
            used += near[:1]


def run(case, m):
    if case["kind"] == "summary":
        return summary(case, m)
    return model_case(case, m)


def summary(case, m):
    import jax.numpy as jnp
    from gpcm.util import summarise_samples

    g = np.random.RandomState(case["seed"] % 2**32)
    shape = (case["num"],) + tuple([case["size"], 4, 3][: case["rank"] - 1])
    S = g.randn(*shape)
    if case["dist"] == "skewed":
        S = np.exp(2 * S)
    if case["dist"] == "constant":
        S = np.ones(shape) * 2.5
    if case["dist"] == "outlier":
        S[0] = 1e4
    if case["db"]:
        S = np.abs(S) + 1e-3
    x = np.sort(g.randn(case["size"]))
    w = jnp.array if case["jax"] else (lambda v: v)
    S0, x0 = S.copy(), x.copy()
    key = {k: case[k] for k in ("num", "rank", "size", "db", "dist", "jax")}
    m.state("summary", *key.values())
    s = summarise_samples(w(x), w(S), db=case["db"]) if case["db"] or g.rand() < 0.5 else summarise_samples(w(x), w(S))
    m.check("inputs unmodified", np.array_equal(S, S0) and np.array_equal(x, x0))
    judge(m, s, x, S, case["db"], key)
    p = g.permutation(len(S))
    s2 = summarise_samples(w(x), w(S[p]), db=case["db"])
    for n in ("mean", "err_68_lower", "err_95_upper", "err_99_lower"):
        m.close("order of samples", getattr(s2, n), getattr(s, n), rtol=1e-9, atol=1e-12, scale=np.max(np.abs(getattr(s, n))) + 1e-6 * np.max(np.abs(S)), **key)
    if case["num"] == 10 and case["dist"] == "normal":
        # Different subsets are shown over time.
        seen = {tuple(np.round(np.sort(summarise_samples(x, S).samples.ravel()), 6)) for _ in range(12)}
        m.check("random subset", len(seen) > 1, **key)


def sort_cols(X):
    """Columns in a canonical order."""
    X = np.asarray(X)
    return X[:, np.lexsort(np.round(X / (np.max(np.abs(X)) + 1e-300), 7)[::-1])]


def match(m, name, got, want, tol, key):
    """Equal as sets of columns, within a tolerance."""
    got, want = np.asarray(got), np.asarray(want)
    if not m.check(name + "/shape", got.shape == want.shape, got=got.shape, want=want.shape, **key):
        return
    s = np.max(np.abs(want)) + 1e-300
    left = list(range(want.shape[1]))
    worst = 0.0
    for i in range(got.shape[1]):
        if not left:
            break
        e = [np.max(np.abs(got[:, i] - want[:, j])) if np.all(np.isfinite(got[:, i])) else np.inf for j in left]
        j = int(np.argmin(e))
        worst = max(worst, e[j])
        left.pop(j)
    m.le(name, worst, tol * s, **key)


def model_case(case, m):
    import jax.numpy as jnp
    import lab.jax as B

    g, model, inst, R = gen.setup(dict(case), perturb_it=case["perturb"])
    cls, kind = case["cfg"]["cls"], case["kind"]
    key = dict(cls=cls, kind=kind, scheme=model.scheme, num=case["num"])
    Ku, Kz = R.K_u(), R.K_z()
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    Lu, Lz = np.linalg.cholesky(np.linalg.inv(Ku)), np.linalg.cholesky(np.linalg.inv(Kz))
    num = case["num"]
    stored = num + int(g.choice([0, 1, 6]))
    conv = (lambda v: np.asarray(v)) if case["np"] else jnp.array
    m.state(cls, kind, model.scheme, gen.model_key(case["cfg"]), num)
    if model.scheme == "structured":
        U, Z = Lu @ g.randn(len(Ku), stored) + Lu @ g.randn(len(Ku), 1), Lz @ g.randn(len(Kz), stored) + 1.0
        inst.approximation.q_u_samples = [U[:, i : i + 1] for i in range(stored)]
        inst.approximation.q_z_samples = [Z[:, i : i + 1] for i in range(stored)]
    else:
        qu, qz = posterior(g, len(Ku), Ku, "random"), posterior(g, len(Kz), Kz, "random")
        inst.approximation.q_u, inst.approximation.q_z = qu, qz
    post = model.condition(conv(t), conv(y))
    if case["twice"] and model.scheme != "structured":
        # The newest posterior counts.
        qu, qz = posterior(g, len(Ku), Ku, "random"), posterior(g, len(Kz), Kz, "random")
        a = post().approximation
        a.q_u, a.q_z = qu, qz
        post = post.condition(conv(t), conv(y))
    ext = float(to_numpy(inst.extent))
    lags = np.concatenate([[0.0], np.sort(g.uniform(0, 1, 4)) * 0.6 * ext])
    tol = 1e-6

    def kernels(tau, V):
        I = R.I_ux(tau, np.zeros(1))
        I = I[:, 0] if np.ndim(I) == 4 else I
        base = R.i_hx(tau, np.zeros(len(tau))) - np.array([np.trace(np.linalg.solve(Ku, i)) for i in I])
        return base[:, None] + np.einsum("an,tab,bn->tn", V, I, V), I, base

    if kind in ("fourier", "fourier mf"):
        mean, var = map(to_numpy, post.predict_fourier(num_samples=num) if kind == "fourier" or g.rand() < 0.5 else post.predict_fourier())
        if kind == "fourier":
            Zn = Z[:, :num]
            m.close("features/mean", mean, Zn.mean(1), rtol=tol, atol=1e-9, **key)
            m.close("features/var", var, Zn.var(1), rtol=1e-5, atol=1e-9, scale=np.max(Zn**2), **key)
        else:
            mu, _, S = ref.nat_moments(qz)
            m.close("features/mean", mean, mu[:, 0], rtol=1e-5, atol=1e-9, scale=np.max(np.abs(mu)) + np.sqrt(np.max(S)), **key)
            m.close("features/var", var, np.diag(S), rtol=1e-5, atol=0, **key)
        return

    if kind in ("kernel", "psd", "default") and model.scheme == "structured":
        if kind == "default":
            tau = np.linspace(0, ext, 300)
            pk = post.predict_kernel(num_samples=num)
            sub = np.array([0, 7, 100, 299])
            want, _, _ = kernels(tau[sub], U[:, :num])
            m.close("default lags", pk.x, tau, rtol=1e-10, atol=0, **key)
            match(m, "kernels", pk.all_samples[sub], want, tol, key)
            judge(m, pk, tau, pk.all_samples.T, False, key)
            tau2 = np.linspace(0, 2 * ext, 1000)
            pp = post.predict_psd(num_samples=min(num, 2))
            ks = to_numpy(post.sample_kernel(jnp.array(tau2), num_samples=min(num, 2))[1])
            spectra(m, pp, tau2, ks, key)
            return
        if kind == "psd":
            n = int(g.choice([20, 51]))
            tau = np.linspace(0, 0.9 * ext, n)
        else:
            tau = g.permutation(lags) if g.rand() < 0.5 else lags
        want, _, _ = kernels(tau, U[:, :num])
        tk, ks = post.sample_kernel(conv(tau), num_samples=num)
        m.close("lags", to_numpy(tk), tau, rtol=1e-12, atol=0, **key)
        match(m, "kernels", to_numpy(ks).T, want, tol, key)
        if kind == "kernel":
            pk = post.predict_kernel(t_k=conv(tau), num_samples=num)
            m.close("lags", pk.x, tau, rtol=1e-12, atol=0, **key)
            match(m, "kernels", pk.all_samples, want, tol, key)
            judge(m, pk, tau, to_numpy(ks), False, key)
            m.close("mean kernel", pk.mean, want.mean(1), rtol=tol, atol=0, **key)
        else:
            pp = post.predict_psd(t_k=conv(tau), num_samples=num)
            spectra(m, pp, tau, to_numpy(ks), key)
        return

    # Sampled from a mean-field factor or from the prior.
    if kind == "prior":
        post = model
        mu, S = np.zeros((len(Ku), 1)), np.linalg.inv(Ku)
    elif model.scheme == "structured":
        raise core.Skip("not sampled")
    else:
        mu, _, S = ref.nat_moments(qu)
    if kind == "default" or g.rand() < 0.15:
        # As documented: a thousand samples unless asked otherwise.
        few = np.linspace(0, 0.5 * ext, 4)
        shapes = [post.predict_kernel(conv(few)).all_samples.shape, to_numpy(post.sample_kernel(t_k=conv(few))[1]).shape[::-1], (4, post.predict_psd(t_k=conv(few)).all_samples.shape[1])]
        m.check("default number of samples", shapes == [(4, 1000)] * 3, shapes=shapes, **key)
    if kind == "psd":
        tau = np.linspace(0, 0.9 * ext, 20)
        seed = int(g.randint(10**6))
        B.set_random_seed(seed)
        np.random.seed(seed)
        ks = to_numpy(post.sample_kernel(conv(tau), num_samples=num)[1])
        B.set_random_seed(seed)
        np.random.seed(seed)
        spectra(m, post.predict_psd(t_k=conv(tau), num_samples=num), tau, ks, key)
        return
    if kind == "default":
        pk = post.predict_kernel(num_samples=num)
        m.close("default lags", pk.x, np.linspace(0, ext, 300), rtol=1e-10, atol=0, **key)
        m.check("one per sample", pk.all_samples.shape == (300, num), shape=pk.all_samples.shape, **key)
        judge(m, pk, pk.x, pk.all_samples.T, False, key)
        # All samples are kernels of some filter: exact at the origin and at the last lag.
        return
    N = 1500
    ks = to_numpy(post.sample_kernel(conv(lags), num_samples=N)[1])
    m.check("one per sample", ks.shape == (N, len(lags)), shape=ks.shape, **key)
    _, I, base = kernels(lags, mu)
    I = (I + np.transpose(I, (0, 2, 1))) / 2
    mean = base + np.array([np.trace(i @ (S + mu @ mu.T)) for i in I])
    C = np.array([[2 * np.trace(i @ S @ j @ S) + 4 * (mu.T @ i @ S @ j @ mu)[0, 0] for j in I] for i in I])
    sd = np.sqrt(np.diag(C))
    m.le("sampled kernels/mean", np.max(np.abs(ks.mean(0) - mean) / (7 * sd / np.sqrt(N) + 1e-6 * np.max(np.abs(mean)))), 1, **key)
    v = ks.var(0)
    k4 = np.mean((ks - ks.mean(0)) ** 4, axis=0)
    m.le("sampled kernels/variance", np.max(np.abs(v - sd**2) / (9 * np.sqrt(np.maximum(k4 - v**2, 2 * sd**4) / N) + 1e-6 * np.max(sd**2))), 1, **key)
    w = (ks[:, 0] - mean[0]) / sd[0]
    m.le("sampled kernels/independent", abs(np.sum(w[1:] * w[:-1])) / np.sqrt(N), 8, **key)
    m.check("fresh draws", not np.allclose(to_numpy(post.sample_kernel(conv(lags), num_samples=3)[1]), ks[:3]), **key)
    m.event("sampled kernels", N)


def spectra(m, pp, tau, ks, key):
    """A predicted spectrum against direct transforms of the kernels."""
    f, S = None, []
    for k in ks:
        f, s, _, _ = c15.direct(tau, k, 2000)
        S.append(s)
    S = np.array(S)
    m.close("frequencies", pp.x, f, rtol=1e-9, atol=0, **key)
    if not m.check("spectra/shape", pp.all_samples.shape == S.T.shape, got=pp.all_samples.shape, want=S.T.shape, **key):
        return
    # Deep notches are ill-conditioned in decibels.
    ok = np.all(S > 1e-5 * S.max(1)[:, None], axis=0)
    if not ok.any():
        return
    T = lambda v: 10 * np.log10(v)
    m.close("spectra", pp.all_samples[ok], T(S.T[ok]), rtol=0, atol=1e-4, **key)
    m.close("mean spectrum", pp.mean[ok], T(S.mean(0)[ok]), rtol=0, atol=1e-4, **key)
    for n, q in Q:
        m.close("spectrum intervals", getattr(pp, n)[ok], T(quantile(S, q)[ok]), rtol=0, atol=1e-4, q=q, **key)
    m.event("spectra", len(ks))
