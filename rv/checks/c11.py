"""Natural-parameter normals against moment-form linear algebra."""
import numpy as np

from ..core import to_numpy

PROPERTY = "C11"
RULE = ("A case is a precision (dense, diagonal, diagonal plus low rank, the covariances of a real model; dimension 1 to 40, "
        "condition number up to 1e6, small or huge scale) and a lam (column vector, zero column, or the integer zero the models "
        "use); moments, conversions, densities and divergences are compared with float64 linear algebra, sampling with its mean and "
        "covariance over tens of thousands of draws and for purity in the explicit state.  Non-trivial: a moment compared.")
ASSUMPTIONS = ["condition numbers at most 1e6", "sampling statistics reject beyond 7 standard errors"]
BUDGET = {"quick": 45, "thorough": 600}
MANDATORY = 60
MIN_CASES = 40


def cases(rng, tier):
    n = 100 if tier == "quick" else 2500
    for i in range(n):
        yield dict(kind=["dense", "diag", "wood", "dense", "model"][i % 5], dim=rng.choice([1, 2, 3, 5, 12, 40]), cond=rng.choice([1.0, 10.0, 1e3, 1e6]),
                   scale=rng.choice([1.0, 1.0, 1e-4, 1e4]), lam=rng.choice(["column", "column", "zero column", "int"]),
                   other=rng.choice(["dense", "diag", "wood", "near", "same"]), np=rng.random() < 0.3, epsilon=0.0)


def spd(g, kind, n, cond, scale):
    """(structured matrix, dense NumPy)."""
    import jax.numpy as jnp
    from matrix import Dense, Diagonal, LowRank

    ev = np.exp(np.linspace(0, np.log(cond), n)) * scale if n > 1 else np.array([scale * cond**0.5])
    ev = g.permutation(ev)
    if kind == "diag":
        return Diagonal(jnp.array(ev)), np.diag(ev)
    if kind == "wood":
        # Diagonal plus a rank-one or rank-two positive part, like the RGPCM's K_z.
        k = 1 if n == 1 else g.randint(1, 3)
        l = g.randn(n, k) * np.sqrt(scale)
        return Diagonal(jnp.array(ev)) + LowRank(left=jnp.array(l)), np.diag(ev) + l @ l.T
    if kind == "model":
        import gpcm

        if g.rand() < 0.5:
            mod = gpcm.RGPCM(window=2.0, scale=1.0, t=[0.0, 3.0], m_max=int(g.randint(1, 6)), n_u=4)()
            return mod.K_z, to_numpy(mod.K_z)
        mod = gpcm.CGPCM(window=2.0, scale=1.0, t=[0.0, 3.0], n_u=int(g.randint(3, 6)), n_z=4)()
        return mod.K_u, to_numpy(mod.K_u)
    Q = np.linalg.qr(g.randn(n, n))[0]
    P = (Q * ev) @ Q.T
    P = (P + P.T) / 2
    return (Dense(jnp.array(P)) if g.rand() < 0.5 else jnp.array(P)), P


def run(case, m):
    import jax.numpy as jnp
    import lab.jax as B
    from gpcm.normal import NaturalNormal
    from stheno.jax import Normal

    g = np.random.RandomState(case["seed"] % 2**32)
    Ps, P = spd(g, case["kind"], case["dim"], case["cond"], case["scale"])
    n = len(P)
    kap = np.linalg.cond(P)
    if case["lam"] == "column":
        lam = g.randn(n, 1) * np.sqrt(np.max(np.diag(P))) * g.choice([0.1, 1.0, 5.0])
    else:
        lam = np.zeros((n, 1))
    lam_in = 0 if case["lam"] == "int" else jnp.array(lam)
    if case["np"] and case["kind"] == "dense" and case["lam"] != "int":
        lam_in, Ps = lam, P
    q = NaturalNormal(lam_in, Ps)
    S = np.linalg.inv(P)
    mu = np.linalg.solve(P, lam)
    key = dict(kind=case["kind"], n=n, cond=kap, lam=case["lam"])
    rt = 1e-11 + 1e-14 * kap * 10
    m.state(case["kind"], n, case["cond"], case["scale"], case["lam"], case["other"])
    if case["lam"] != "int":
        m.close("mean", to_numpy(q.mean), mu, rtol=rt, atol=0, scale=np.max(np.abs(mu)) + np.sqrt(np.max(np.diag(S))), **key)
        m.close("second moment", to_numpy(q.m2), S + mu @ mu.T, rtol=rt, atol=0, **key)
        m.close("definition/mean", to_numpy(q.prec) @ to_numpy(q.mean), lam, rtol=rt, atol=0, scale=np.max(np.abs(lam)) + np.sqrt(np.max(P)), **key)
        # Order of first access does not matter, nor does accessing twice.
        q2 = NaturalNormal(lam_in, Ps)
        a = to_numpy(q2.m2)
        m.close("cached", a, to_numpy(q.m2), rtol=1e-13, atol=0, **key)
        m.close("cached again", to_numpy(q2.mean), to_numpy(q.mean), rtol=1e-12, atol=0, scale=np.max(np.abs(mu)) + 1e-300, **key)
    m.close("variance", to_numpy(q.var), S, rtol=rt, atol=0, **key)
    m.check("dim", int(q.dim) == n, **key)
    m.check("dtype", "float64" in str(q.dtype), got=str(q.dtype))
    # Parametrisations.
    if case["lam"] != "int":
        nn = q.to_normal()
        m.close("to_normal/mean", to_numpy(nn.mean), mu, rtol=rt, atol=0, scale=np.max(np.abs(mu)) + np.sqrt(np.max(np.diag(S))), **key)
        m.close("to_normal/var", to_numpy(nn.var), S, rtol=rt, atol=0, **key)
        back = NaturalNormal.from_normal(nn)
        m.close("from_normal/lam", to_numpy(back.lam), lam, rtol=rt * 10, atol=0, scale=np.max(np.abs(lam)) + np.sqrt(np.max(P)), **key)
        m.close("from_normal/prec", to_numpy(back.prec), P, rtol=rt * 10, atol=0, **key)
        m0 = NaturalNormal.from_normal(Normal(jnp.array(mu), jnp.array(S)))
        m.close("from moments/mean", to_numpy(m0.mean), mu, rtol=rt * 10, atol=0, scale=np.max(np.abs(mu)) + np.sqrt(np.max(np.diag(S))), **key)
        m.close("from moments/m2", to_numpy(m0.m2), S + mu @ mu.T, rtol=rt * 10, atol=0, **key)
        for x in (mu, np.zeros((n, 1)), mu + np.linalg.cholesky(S) @ g.randn(n, 1) * 2):
            d = x - mu
            want = -0.5 * (d.T @ P @ d)[0, 0] + 0.5 * np.linalg.slogdet(P)[1] - 0.5 * n * np.log(2 * np.pi)
            s = (d.T @ P @ d)[0, 0] + abs(np.linalg.slogdet(P)[1]) + n
            m.close("logpdf", float(q.logpdf(jnp.array(x))), want, rtol=rt * 10, atol=0, scale=s, **key)
    else:
        x = np.linalg.cholesky(S) @ g.randn(n, 1)
        want = -0.5 * (x.T @ P @ x)[0, 0] + 0.5 * np.linalg.slogdet(P)[1] - 0.5 * n * np.log(2 * np.pi)
        try:
            got = float(q.logpdf(jnp.array(x)))
        except AssertionError:
            got = None  # Dimensionless zero means are only supported by some matrix types.
        if got is not None:
            m.close("logpdf", got, want, rtol=rt * 10, atol=0, scale=abs(want) + n, **key)
    divergence(case, m, g, q, P, S, mu, lam, key, rt)
    sampling(case, m, g, q, Ps, P, S, mu, lam_in, key)


def divergence(case, m, g, q, P, S, mu, lam, key, rt):
    import jax.numpy as jnp
    from gpcm.normal import NaturalNormal

    if case["lam"] == "int":
        return
    n = len(P)
    if case["other"] == "same":
        r, Q, nu = NaturalNormal(q.lam, q.prec), P, mu
    elif case["other"] == "near":
        Q = P * (1 + 1e-3)
        nu = mu + 1e-3 * np.linalg.cholesky(S) @ g.randn(n, 1)
        r = NaturalNormal(jnp.array(Q @ nu), jnp.array(Q))
    else:
        Qs, Q = spd(g, case["other"], n, 10.0, case["scale"])
        nu = np.linalg.solve(Q, g.randn(n, 1) * np.sqrt(np.max(Q)))
        r = NaturalNormal(jnp.array(Q @ nu), Qs)
    for a, b, PA, SA, MA, PB, MB in ((q, r, P, S, mu, Q, nu), (r, q, Q, np.linalg.inv(Q), nu, P, mu)):
        d = MA - MB
        tr, qf = np.trace(PB @ SA), (d.T @ PB @ d)[0, 0]
        ld = np.linalg.slogdet(PA)[1] - np.linalg.slogdet(PB)[1]
        want = 0.5 * (tr + qf + ld - n)
        s = abs(tr) + qf + abs(ld) + n + np.linalg.cond(PA) * 1e-3
        got = float(a.kl(b))
        m.close("kl", got, want, rtol=rt * 10, atol=0, scale=s, other=case["other"], **key)
        m.le("kl/non-negative", 0.0, got, slack=rt * 10 * s, **key)
        if case["other"] == "same":
            m.le("kl/zero for equals", abs(got), rt * 10 * s, **key)
        else:
            m.le("kl/positive for different", 1e-8, got, **key)
    # Against the textbook formula through sampling-free moments: cross-entropy minus entropy.
    m.event("divergences", 2)


def sampling(case, m, g, q, Ps, P, S, mu, lam_in, key):
    import jax.numpy as jnp
    import lab.jax as B
    from gpcm.normal import NaturalNormal

    n = len(P)
    seed = int(g.randint(10**6))
    # Explicit states of the framework of the precision.
    is_np = isinstance(Ps, np.ndarray)
    if is_np:
        return sampling_np(case, m, g, q, P, S, mu, key)
    mk = lambda s=seed: B.create_random_state(jnp.float64, seed=s)
    s1, a = q.sample(mk())
    s2, b = NaturalNormal(lam_in, Ps).sample(mk())
    a, b = to_numpy(a), to_numpy(b)
    m.check("sample/shape", a.shape == (n, 1), shape=a.shape, **key)
    m.check("sample/pure", np.array_equal(a, b) and np.array_equal(np.asarray(s1), np.asarray(s2)), **key)
    m.check("sample/state advances", not np.array_equal(np.asarray(s1), np.asarray(mk())), **key)
    _, c = q.sample(s1)
    m.check("sample/next differs", not np.allclose(to_numpy(c), a), **key)
    # Explicit states ignore the global one.
    B.set_random_seed(seed + 1)
    glob = np.asarray(B.global_random_state(jnp.float64))
    m.check("sample/ignores global", np.array_equal(to_numpy(q.sample(mk())[1]), a), **key)
    m.check("sample/leaves global", np.array_equal(np.asarray(B.global_random_state(jnp.float64)), glob), **key)
    # The global one is used and advanced otherwise.
    d1, d2 = to_numpy(q.sample()), to_numpy(q.sample(2))
    m.check("sample/global", d1.shape == (n, 1) and d2.shape == (n, 2) and not np.allclose(d1, d2[:, :1]), **key)
    # Every draw advances it, however many samples it asks for.
    for num in (1, 2, 3):
        e1 = to_numpy(q.sample(num))
        e2 = to_numpy(q.sample(num=num))
        m.check("sample/global advances", e1.shape == e2.shape == (n, num) and not np.any(np.all(np.isclose(e1, e2, rtol=1e-9, atol=0), axis=0)), num=num, **key)
    B.set_random_seed(seed + 1)
    m.check("sample/global replays", np.array_equal(to_numpy(q.sample()), d1), **key)
    # The mean enters additively.
    _, zero = NaturalNormal(jnp.zeros((n, 1)), Ps).sample(mk())
    sc = np.sqrt(np.max(np.diag(S))) * 5 + np.max(np.abs(mu))
    m.close("sample/mean", a - to_numpy(zero), mu, rtol=1e-10 + 1e-14 * key["cond"] * 10, atol=0, scale=sc, **key)
    # Covariance.
    N = 20000 if n <= 12 else 5000
    _, X = q.sample(mk(seed + 7), N)
    X = to_numpy(X)
    m.check("sample/many", X.shape == (n, N), shape=X.shape)
    L = np.linalg.cholesky(P)
    W = L.T @ (X - mu)
    m.le("sample/white mean", np.max(np.abs(W.mean(1))) * np.sqrt(N), 7, **key)
    C = W @ W.T / N - np.eye(n)
    sd = np.where(np.eye(n) > 0, np.sqrt(2.0), 1.0) / np.sqrt(N)
    m.le("sample/white covariance", np.max(np.abs(C) / sd), 7.5, **key)
    m.le("sample/kurtosis", np.max(np.abs(np.mean(W**4, axis=1) - 3)) / np.sqrt(96 / N), 9, **key)
    m.le("sample/independent", np.max(np.abs(np.sum(W[:, 1:] * W[:, :-1], axis=1))) / np.sqrt(N), 7.5, **key)
    m.event("samples", N)


def sampling_np(case, m, g, q, P, S, mu, key):
    """Pure NumPy parameters."""
    import lab.jax as B

    n, N = len(P), 20000
    mk = lambda: B.create_random_state(np.float64, seed=case["seed"] % 10**6)
    _, a = q.sample(mk())
    _, b = q.sample(mk())
    m.check("sample/pure", np.array_equal(a, b), **key)
    _, X = q.sample(mk(), N)
    X = to_numpy(X)
    W = np.linalg.cholesky(P).T @ (X - mu)
    m.le("sample/white mean", np.max(np.abs(W.mean(1))) * np.sqrt(N), 7, **key)
    sd = np.where(np.eye(n) > 0, np.sqrt(2.0), 1.0) / np.sqrt(N)
    m.le("sample/white covariance", np.max(np.abs(W @ W.T / N - np.eye(n)) / sd), 7.5, **key)
    m.event("samples", N)
