"""Minimum-phase transforms and the distribution of predicted filters."""
import numpy as np

from .. import core, gen, ref
from ..core import to_numpy
from .c07 import posterior

PROPERTY = "C17"
RULE = ("Transform cases: random filters of length 4 to 800 (noise, smooth, delayed pulses, FIR filters with zeros on both sides of the unit "
        "circle; NumPy and JAX), compared with the folded cepstrum, for FIR filters with the zero-reflected filter, with random all-pass "
        "variants for energy concentration, and metamorphically for delay, negation, scale and idempotence.  Filter cases: random GPCM/CGPCM "
        "posteriors whose predicted filters are tested against the exact conditional Gaussian and, with the same random state, against the "
        "transform of the untransformed samples.  Non-trivial: a transform or a population of filters judged.")
ASSUMPTIONS = ["spectra bounded away from zero", "statistics reject beyond 7 standard errors"]
BUDGET = {"quick": 70, "thorough": 700}
MANDATORY = 90
MIN_CASES = 60


def cases(rng, tier):
    n = 90 if tier == "quick" else 1500
    for i in range(n):
        yield dict(kind="transform", filter=["noise", "smooth", "pulse", "fir", "fir", "decay"][i % 6], n=rng.choice([4, 5, 16, 33, 64, 101, 256, 601, 800]), jax=rng.random() < 0.3)
    n = 30 if tier == "quick" else 400
    for i in range(n):
        cls = ["GPCM", "CGPCM"][i % 2]
        kind = ["mean-field", "structured", "structured same", "minimum", "default"][(i // 2) % 5]
        scheme = "structured" if "structured" in kind else rng.choice(["mean-field-ca", "structured"]) if kind in ("minimum", "default") else "mean-field-ca"
        cfg = gen.cfg_ok(rng, cls, scheme=scheme)
        yield dict(kind=kind, cfg=cfg, t=gen.times(rng, cfg, 3), prior=rng.random() < 0.15, perturb=rng.random() < 0.4, num=400 if tier == "quick" else 3000, epsilon=1e-13)


def run(case, m):
    if case["kind"] == "transform":
        return transform(case, m)
    return filters(case, m)


def cepstral(h):
    """Minimum-phase version by folding the real cepstrum."""
    n = len(h)
    c = np.fft.ifft(np.log(np.abs(np.fft.fft(h)))).real
    w = np.zeros(n)
    w[0] = 1
    w[1 : (n + 1) // 2] = 2
    if n % 2 == 0:
        w[n // 2] = 1
    return np.fft.ifft(np.exp(np.fft.fft(c * w))).real


def draw(name, n, g):
    """(filter, exact minimum-phase version or None)."""
    t = np.arange(n)
    if name == "noise":
        return g.randn(n), None
    if name == "smooth":
        h = np.exp(-0.5 * ((t - n / 3) / (n / 40 + 0.5)) ** 2) * (1 + 0.3 * np.sin(t)) + 1e-3 * g.randn(n)
        return h, None
    if name == "pulse":
        h = 0.02 * g.randn(n)
        h[g.randint(n)] += 3.0 * g.choice([-1, 1])
        return h, None
    if name == "decay":
        return np.exp(-t / (0.05 * n + 1)) * (1 + 0.4 * g.randn(n)), None
    # FIR filter: reflect the zeros that are outside the unit circle.
    d = int(g.randint(1, 5))
    zs = []
    for _ in range(d):
        r = g.uniform(0.1, 0.75)
        r = 1 / r if g.rand() < 0.6 else r
        a = g.uniform(0, np.pi)
        zs.append([r * np.exp(1j * a), r * np.exp(-1j * a)] if g.rand() < 0.6 else [r * g.choice([-1, 1])])
    zs = np.concatenate(zs)
    gain = g.choice([-1, 1]) * np.exp(g.randn())
    h = gain * np.real(np.poly(zs))
    out = np.abs(zs) > 1
    inside = np.where(out, 1 / np.conj(zs), zs)
    hm = np.real(np.poly(inside)) * np.abs(gain) * np.prod(np.abs(zs[out]))
    N = max(n, 256)
    pad = lambda v: np.concatenate([v, np.zeros(N - len(v))])
    return np.roll(pad(h), g.randint(0, 20)), pad(hm)


def transform(case, m):
    import jax.numpy as jnp
    from gpcm.util import min_phase

    g = np.random.RandomState(case["seed"] % 2**32)
    h, exact = draw(case["filter"], case["n"], g)
    spec = np.abs(np.fft.fft(h))
    if spec.min() < 1e-6 * spec.max():
        raise core.Skip("vanishing spectrum")
    key = dict(filter=case["filter"], n=len(h))
    f = lambda x: to_numpy(min_phase(jnp.array(x) if case["jax"] else x))
    h0 = h.copy()
    a = f(h)
    m.check("input unmodified", np.array_equal(h, h0))
    m.check("real vector", a.shape == h.shape and np.isrealobj(a), shape=a.shape)
    tol = 1e-9
    m.close("magnitude", np.abs(np.fft.fft(a)), spec, rtol=tol, atol=0, **key)
    m.close("cepstrum", a, cepstral(h), rtol=tol, atol=0, **key)
    if exact is not None:
        m.close("reflected zeros", a, exact, rtol=1e-8, atol=0, **key)
    m.close("idempotent", f(a), a, rtol=1e-8, atol=0, **key)
    for s in (1, int(g.randint(1, len(h)))):
        m.close("delay", f(np.roll(h, s)), a, rtol=1e-8, atol=0, s=s, **key)
    m.close("negation", f(-h), a, rtol=1e-9, atol=0, **key)
    m.close("scale", f(1.7 * h), 1.7 * a, rtol=1e-9, atol=0, **key)
    m.close("reversal", f(h[::-1]), a, rtol=1e-8, atol=0, **key)
    if exact is not None:
        # Energy arrives no later than for any filter of this magnitude spectrum.
        E = np.cumsum(a**2)
        for other in (h, np.roll(h, 3), h[::-1], allpass(h, g), allpass(h, g)):
            F = np.cumsum(other**2)
            m.le("energy earliest", np.max(F - E), 0, slack=1e-8 * E[-1], **key)
    m.state("transform", case["filter"], len(h), case["jax"])


def allpass(h, g):
    """A random real filter with the same magnitude spectrum."""
    n = len(h)
    H = np.fft.rfft(h)
    ph = np.exp(1j * g.uniform(0, 2 * np.pi, len(H)))
    ph[0] = g.choice([-1, 1])
    if n % 2 == 0:
        ph[-1] = g.choice([-1, 1])
    return np.fft.irfft(H * ph, n)


def kernel(R, a, b):
    a, b = a[:, None], b[None, :]
    return R.alpha_t**2 * np.exp(-R.alpha * (a**2 + b**2) - R.gamma * (a - b) ** 2)


def filters(case, m):
    import jax.numpy as jnp
    import lab.jax as B

    g, model, inst, R = gen.setup(dict(case), max_cond=1e6, perturb_it=case["perturb"])
    cls, kind = case["cfg"]["cls"], case["kind"]
    causal = cls == "CGPCM"
    key = dict(cls=cls, kind=kind, scheme=model.scheme)
    Ku = R.K_u()
    L = np.linalg.cholesky(np.linalg.inv(Ku))
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    N = case["num"]
    m.state(cls, kind, model.scheme, gen.model_key(case["cfg"]))
    seed = int(g.randint(10**6))
    # Posterior of the filter's inducing variables (in the whitened-by-K_u parametrisation).
    if model.scheme == "structured":
        if kind == "structured same":
            U = np.tile(L @ g.randn(len(Ku), 1), (1, N))
        else:
            c = L @ g.randn(len(Ku), 1)
            U = c + 0.5 * L @ g.randn(len(Ku), max(N, 20))
        inst.approximation.q_u_samples = [U[:, i : i + 1] for i in range(U.shape[1])]
        inst.approximation.q_z_samples = [np.zeros((inst.n_z, 1))] * U.shape[1]
    else:
        q = posterior(g, len(Ku), Ku, "random")
        inst.approximation.q_u = q
        mu, _, Sig = ref.nat_moments(q)
    post = model.condition(t, y)
    if case["prior"] and kind == "mean-field":
        post, mu, Sig = model, np.zeros((len(Ku), 1)), np.linalg.inv(Ku)
    ext = float(R.alpha) ** -0.5
    seeded = lambda: (B.set_random_seed(seed), np.random.seed(seed))

    if kind in ("minimum", "default"):
        num = 4
        if kind == "default":
            th, kw = np.linspace(-float(inst.extent), float(inst.extent), 601), {}
        else:
            n = int(g.choice([64, 101]))
            th = np.linspace(g.choice([0.0, -1.0]) * ext, 2.5 * ext, n)
            kw = dict(t_h=jnp.array(th))
        seeded()
        raw = post.predict_filter(num_samples=num, min_phase=False, **kw)
        seeded()
        out = post.predict_filter(num_samples=num, **kw) if g.rand() < 0.5 else post.predict_filter(num_samples=num, min_phase=True, **kw)
        m.close("inputs", raw.x, th, rtol=1e-12, atol=0, **key)
        m.close("inputs start at zero", out.x, th - th[0], rtol=1e-12, atol=0, **key)
        m.check("samples", raw.all_samples.shape == (len(th), num) == out.all_samples.shape, raw=raw.all_samples.shape, out=out.all_samples.shape, **key)
        for i in range(num):
            h = raw.all_samples[:, i]
            spec = np.abs(np.fft.fft(h))
            got = out.all_samples[:, i]
            # The transform's phase is ill-conditioned where the spectrum vanishes; its magnitude is not.
            m.close("magnitude kept", np.abs(np.fft.fft(got)), spec, rtol=1e-8, atol=0, **key)
            if spec.min() > 1e-9 * spec.max():
                m.close("transformed", got, cepstral(h), rtol=1e-6, atol=0, **key)
                m.event("transformed filters")
        m.close("mean", out.mean, out.all_samples.mean(1), rtol=1e-9, atol=1e-12, **key)
        if kind == "default" and g.rand() < 0.5:
            # As documented: a thousand samples unless asked otherwise.
            d = post.predict_filter(jnp.array(th[:5]), min_phase=False)
            n = min(1000, U.shape[1]) if model.scheme == "structured" and post is not model else 1000
            m.check("default number of samples", d.all_samples.shape == (5, n), shape=d.all_samples.shape, **key)
        if causal and th[0] < 0:
            m.check("causal", np.all(raw.all_samples[th < -1e-9 * np.max(np.abs(th))] == 0), **key)
        return

    # A few points on and off the inducing points, on both sides of the origin.
    tu = R.t_u
    th = np.sort(np.concatenate([g.choice(tu, 1), g.uniform(-0.8, 1.6, 3) * ext, [0.0]]))
    seeded()
    s = post.predict_filter(t_h=jnp.array(th), num_samples=N, min_phase=False)
    H = np.asarray(s.all_samples)
    if not m.check("samples", H.shape == (len(th), N), shape=H.shape, **key):
        return
    m.close("inputs", s.x, th, rtol=1e-12, atol=0, **key)
    mask = (th >= 0) if causal else np.ones(len(th), bool)
    m.check("causal", np.all(H[~mask] == 0), th=th, **key)
    K = kernel(R, th[mask], tu)
    res = kernel(R, th[mask], th[mask]) - K @ np.linalg.solve(Ku, K.T)
    H = H[mask]
    if kind == "mean-field":
        mean, cov = (K @ mu)[:, 0], K @ Sig @ K.T + res
    elif kind == "structured same":
        mean, cov = (K @ U[:, :1])[:, 0], res
    else:
        # Fixed filters: only the residual is random.
        mean, cov = (K @ U[:, :N]).mean(1), res
        between = K @ U[:, :N]
        between = np.cov(between, bias=True)
    sc = np.sqrt(np.max(np.diag(kernel(R, th, th))))
    sd = np.sqrt(np.maximum(np.diag(cov), 0))
    m.le("mean", np.max(np.abs(H.mean(1) - mean) / (sd / np.sqrt(N) * 7 + 1e-5 * sc)), 1, **key)
    dc = np.diag(cov).clip(0)
    C = np.cov(H, bias=True).reshape(len(mean), len(mean))
    se = np.sqrt((np.outer(dc, dc) + cov**2) / N)
    want = cov
    if kind == "structured":
        # Cross terms between the fixed spread and the residual average out.
        want = cov + between
        se = se + 2 * np.sqrt(np.outer(np.diag(between), dc) + np.outer(dc, np.diag(between))) / np.sqrt(N)
    m.le("covariance", np.max(np.abs(C - want) / (7.5 * se + 2e-5 * sc**2)), 1, err=np.max(np.abs(C - want)), **key)
    on = np.min(np.abs(th[mask][:, None] - tu[None]), axis=1) < 1e-12 * max(1e-300, np.max(np.abs(tu)))
    if on.any() and kind != "mean-field":
        want = (kernel(R, th[mask][on], tu) @ U[:, :N])
        m.close("passes through the inducing points", np.sort(H[on], axis=1), np.sort(want, axis=1), rtol=1e-3, atol=0, scale=sc + np.max(np.abs(want)), **key)
    # Draws are independent of each other.
    v = np.argmax(sd)
    if sd[v] > 1e-3 * sc and kind != "structured":
        w = (H[v] - mean[v]) / sd[v]
        m.le("independent draws", abs(np.sum(w[1:] * w[:-1])) / np.sqrt(N), 7.5, **key)
        m.le("normal draws", abs(np.mean(w**4) - 3) / np.sqrt(96 / N), 9, **key)
    m.event("filters", N)
