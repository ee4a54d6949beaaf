"""Predictions against the moments of the (approximate) posterior predictive."""
import numpy as np

from .. import gen, ref
from .c07 import posterior

PROPERTY = "C10"
RULE = ("A case conditions a random model on data with given mean-field factors or given stored filter samples and compares "
        "predicted means and variances with quadrature moments of filter * excitation (law of total variance, and for GPCM/CGPCM "
        "also directly on a grid of lags), re-predicts permuted, single and subset inputs, and checks the noise floor and the "
        "return to the prior far from the data, for every way of obtaining the posterior (fit, assigned, conditioned twice).  "
        "Non-trivial: a prediction compared.")
ASSUMPTIONS = ["covariances of inducing variables with condition number at most 1e7"]
BUDGET = {"quick": 75, "thorough": 900}
MANDATORY = 36
MIN_CASES = 24


def cases(rng, tier):
    n = 42 if tier == "quick" else 800
    kinds = ["mf", "st", "far", "fitted", "mf2", "mf", "st"]
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        kind = kinds[(i // 3) % len(kinds)]
        scheme = rng.choice(["mean-field-ca", "mean-field", "mean-field-gradient"])
        if kind == "st" or (kind in ("far", "fitted") and rng.random() < 0.6):
            scheme = "structured"
        if kind in ("far", "fitted") and scheme != "structured":
            scheme = "mean-field-ca"
        cfg = gen.cfg_ok(rng, cls, scheme=scheme)
        if kind == "far":
            cfg["kw"]["noise"] = gen.r(10 ** rng.uniform(-2.5, 0.5))
        cfg["amp"] = rng.random() < 0.2
        yield dict(kind=kind, cfg=cfg, epsilon=0.0, t=gen.times(rng, cfg, gen.count(rng, [1, 3, 8])), t2=gen.times(rng, cfg, 3),
                   x=gen.times(rng, cfg, gen.count(rng, [1, 4, 7])), num=rng.choice([1, 4, 9]), perturb=rng.random() < 0.4,
                   np=rng.random() < 0.6)


def direct_ok(R):
    return isinstance(R, ref.RefG)


def run(case, m):
    import jax.numpy as jnp

    g, model, inst, R = gen.setup(case, perturb_it=case["perturb"])
    cls, kind = case["cfg"]["cls"], case["kind"]
    scheme = case["cfg"]["kw"]["scheme"]
    key = dict(cls=cls, kind=kind, scheme=scheme)
    t, x = np.array(case["t"]), np.array(case["x"])
    y = gen.data(case["seed"], t, case["cfg"])
    conv = (lambda v: np.asarray(v)) if case["np"] else jnp.array
    m.state(cls, kind, scheme, gen.model_key(case["cfg"]), len(x))
    P = ref.ref_parts(R, x)
    Ku, Kz = P[0], P[1]
    nu, nz = Ku.shape[0], Kz.shape[0]
    tol = dict(rtol=1e-7, atol=1e-9)

    if kind == "far":
        if cls == "RGPCM":
            # The basis must cover the inputs: uninformative data instead.
            noise = 1e9
            inst2 = gen.build(case["cfg"], noise=noise)
            model = inst2
            model().approximation
            y = 0 * y
            xs, base = x, np.asarray(P[2]) + noise
        else:
            d = 14 * max(1 / np.sqrt(R.alpha), 1 / np.sqrt(R.omega))
            xs = np.array([R.t_z.max() + d, R.t_z.min() - d, R.t_z.max() + 3 * d])
            base = R.i_hx(xs, xs) + R.noise
        if scheme == "structured":
            if cls == "RGPCM":
                model().approximation.q_u_samples = [np.linalg.cholesky(np.linalg.inv(Ku)) @ g.randn(nu, 1) for _ in range(500)]
            else:
                L = np.linalg.cholesky(np.linalg.inv(Ku))
                model().approximation.q_u_samples = [L @ g.randn(nu, 1) for _ in range(500)]
            post = model.condition(t, y)
            mean, var = post.predict(xs, num_samples=500)
        else:
            model.fit(t, y, iters=60)
            post = model.condition(t, y)
            mean, var = post.predict(xs)
        m.check("noise floor", np.all(np.asarray(var) >= (R.noise if cls != "RGPCM" else 1e9) * (1 - 1e-9)), **key)
        if cls == "RGPCM":
            m.close("far/mean", mean, 0 * xs, atol=1e-3, **key)
            # Averaging over finitely many filters leaves Monte Carlo error in the prior part.
            m.close("far/var", var, base, rtol=1e-6, **key)
        else:
            m.close("far/mean", mean, 0 * xs, atol=1e-8, **key)
            if scheme == "structured":
                # E[u'I_ux u] over the stored samples replaces trace(K_u^-1 I_ux).
                U = np.asarray(model().approximation.q_u_samples)
                base = base + np.trace((U @ U.T / U.shape[1] - np.linalg.inv(Ku)) @ P[3])
            else:
                U2 = ref.nat_moments(model().approximation.q_u)[1]
                base = base + np.trace((U2 - np.linalg.inv(Ku)) @ P[3])
            m.close("far/var", var, base, rtol=1e-5, **key)
        m.event("far")
        return

    if scheme == "structured":
        if kind == "fitted":
            model.fit(t, y, iters=20, optimise_hypers=False)
        else:
            L = np.linalg.cholesky(np.linalg.inv(Ku))
            model().approximation.q_u_samples = [L @ g.randn(nu, 1) * g.choice([0.3, 1.0, 1.4]) + L @ g.randn(nu, 1) * 0.3 for _ in range(12)]
        post = model.condition(conv(t), conv(y))
        U = np.asarray(model().approximation.q_u_samples)
        num = case["num"]
        mean, var = post.predict(conv(x), num_samples=num)
        if case["np"]:
            m.check("kind", isinstance(mean, np.ndarray) and isinstance(var, np.ndarray))
        T = ref.Terms(R, t, y)
        e1, e2, d1, d2 = [], [], [], []
        for k in range(num):
            u = U[:, k : k + 1]
            Pz, lam = T.z_given_u(u)
            S = np.linalg.inv(Pz + T.Kz)
            mu = S @ lam
            a, b = ref.moments(R, x, u, u @ u.T, mu, S + mu @ mu.T, parts=P)
            e1.append(a), e2.append(b)
            if k == 0 and direct_ok(R):
                c, d = ref.moments_direct(R, x, u, u @ u.T, mu, S + mu @ mu.T)
                m.close("reference/direct", b, d, rtol=1e-4, atol=1e-4 * np.max(np.abs(d)), **key)
        m1, m2 = np.mean(e1, axis=0), np.mean(e2, axis=0)
        repredict = lambda xx: post.predict(conv(xx), num_samples=num)
        sc = np.max(np.abs(m2)) + R.noise
    else:
        ap = model().approximation
        if kind == "fitted":
            model.fit(t, y, iters=50)
        else:
            ap.q_u, ap.q_z = posterior(g, nu, Ku, "random"), posterior(g, nz, Kz, g.choice(["random", "peaked"]))
        post = model.condition(conv(t), conv(y))
        qs = model().approximation.q_u, model().approximation.q_z
        if kind == "mf2":
            ap2 = post().approximation
            q2 = posterior(g, nu, Ku, "random"), posterior(g, nz, Kz, "peaked")
            ap2.q_u, ap2.q_z = q2
            post2 = post.condition(np.array(case["t2"]), gen.data(case["seed"] + 1, case["t2"], case["cfg"]))
            # The first posterior is still its own; the second has moved on.
            U1, U2, _ = ref.nat_moments(qs[0])
            Z1, Z2, _ = ref.nat_moments(qs[1])
            a, b = ref.moments(R, x, U1, U2, Z1, Z2, parts=P)
            mean, var = post.predict(conv(x))
            s = np.max(np.abs(b)) + np.max(np.abs(a)) ** 2 + R.noise
            m.close("first/mean", mean, a, scale=np.sqrt(s), **tol, **key)
            m.close("first/var", var, b - a**2 + R.noise, scale=s, **tol, **key)
            post, qs = post2, q2
        U1, U2, _ = ref.nat_moments(qs[0])
        Z1, Z2, _ = ref.nat_moments(qs[1])
        m1, m2 = ref.moments(R, x, U1, U2, Z1, Z2, parts=P)
        if direct_ok(R):
            c, d = ref.moments_direct(R, x, U1, U2, Z1, Z2)
            m.close("reference/direct", m2, d, rtol=1e-4, atol=1e-4 * np.max(np.abs(d)), **key)
        mean, var = post.predict(conv(x))
        repredict = lambda xx: post.predict(conv(xx))
        sc = np.max(np.abs(m2)) + R.noise
    s = sc + np.max(np.abs(m1)) ** 2
    m.close("mean", mean, m1, scale=np.sqrt(s), **tol, **key)
    m.close("var", var, m2 - m1**2 + R.noise, scale=s, **tol, **key)
    m.le("noise floor", R.noise, np.min(np.asarray(var)), slack=1e-7 * s, **key)
    m.event("predictions", len(x))
    # Independence of the company an input keeps.
    p = g.permutation(len(x))
    a, b = repredict(x[p])
    m.close("permuted/mean", a, np.asarray(mean)[p], rtol=1e-9, scale=np.sqrt(s), **key)
    m.close("permuted/var", b, np.asarray(var)[p], rtol=1e-9, scale=s, **key)
    i = g.randint(len(x))
    a, b = repredict(x[i : i + 1])
    m.close("single/mean", a, np.asarray(mean)[i : i + 1], rtol=1e-9, scale=np.sqrt(s), **key)
    m.close("single/var", b, np.asarray(var)[i : i + 1], rtol=1e-9, scale=s, **key)
    xx = np.concatenate([x, x[:1], t])
    a, b = repredict(xx)
    m.close("more/mean", np.asarray(a)[: len(x) + 1], np.append(np.asarray(mean), np.asarray(mean)[:1]), rtol=1e-9, scale=np.sqrt(s), **key)
    m.close("more/var", np.asarray(b)[: len(x) + 1], np.append(np.asarray(var), np.asarray(var)[:1]), rtol=1e-9, scale=s, **key)
    # The instantiated posterior agrees.
    a, b = (post().predict(conv(x), num_samples=case["num"]) if scheme == "structured" else post().predict(conv(x)))
    m.close("instantiated/mean", a, mean, rtol=1e-9, scale=np.sqrt(s), **key)
    m.close("instantiated/var", b, var, rtol=1e-9, scale=s, **key)
