"""Reported ELBOs against independently computed bounds."""
import numpy as np

from .. import gen, ref

PROPERTY = "C07"
RULE = ("A case is a random model, scheme, data set and pair of variational posteriors (random dense natural parameters, the "
        "prior, sharply peaked, or the exact optimum of one given the other), possibly after an earlier conditioning step; "
        "the reported ELBO, plain or collapsed, is compared with expected log-likelihood minus KL divergences in moment form "
        "from quadrature integrals, the structured ELBO with a 4000-sample estimate of the collapsed bound, and for tiny data "
        "with a Monte Carlo estimate of the true log marginal likelihood.  Non-trivial: one finite ELBO compared.")
ASSUMPTIONS = ["covariances of inducing variables with condition number at most 1e7",
               "Monte Carlo comparisons reject beyond 7 standard errors"]
BUDGET = {"quick": 75, "thorough": 900}
MANDATORY = 40
MIN_CASES = 24
MF = ["mean-field-ca", "mean-field", "mean-field-gradient", "mean-field-collapsed-gradient"]


def cases(rng, tier):
    n = 48 if tier == "quick" else 700
    kinds = ["mf", "mf", "st", "mf2", "gibbs", "mf"]
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        kind = kinds[(i // 3) % len(kinds)]
        cfg = gen.cfg_ok(rng, cls, scheme="structured" if kind in ("st", "gibbs") else rng.choice(MF))
        cfg["amp"] = rng.random() < 0.2
        yield dict(kind=kind, cfg=cfg, epsilon=0.0, t=gen.times(rng, cfg, gen.count(rng, [1, 2, 5, 12])), perturb=rng.random() < 0.4,
                   t2=gen.times(rng, cfg, rng.choice([1, 3, 6])))
    for i in range(6 if tier == "quick" else 60):
        cls = ["GPCM", "CGPCM"][i % 2]
        scale = gen.r(rng.uniform(0.5, 1.5))
        kw = dict(scheme=rng.choice(["structured", "mean-field-ca"]), noise=gen.r(10 ** rng.uniform(-1.5, 0)), window=gen.r(scale * rng.uniform(1, 1.6)),
                  scale=scale, t=[0.0, 2 * scale], n_u=5, n_z=8, extend_t_z=True)
        yield dict(kind="bound", cfg=dict(cls=cls, kw=kw, t0=0.0, span=2 * scale, scale=scale, window=kw["window"]),
                   n=rng.choice([1, 2, 3]), must=True)


def posterior(g, n, K, style):
    if style == "prior":
        from gpcm.normal import NaturalNormal
        import jax.numpy as jnp

        return NaturalNormal(jnp.zeros((n, 1)), jnp.array(K))
    q = gen.nat(g, n, K, spread=1.0 if style == "random" else 30.0)
    return q


def mf_elbo(T, qu, qz, pu=None, pz=None):
    U1, U2, Su = ref.nat_moments(qu)
    Z1, Z2, Sz = ref.nat_moments(qz)
    pu1, Spu = (0 * U1, T.Kui) if pu is None else (ref.nat_moments(pu)[0], ref.nat_moments(pu)[2])
    pz1, Spz = (0 * Z1, T.Kzi) if pz is None else (ref.nat_moments(pz)[0], ref.nat_moments(pz)[2])
    e = T.expected(U1, U2, Z1, Z2)
    k1, k2 = ref.kl_gauss(U1, Su, pu1, Spu), ref.kl_gauss(Z1, Sz, pz1, Spz)
    return e - k1 - k2, abs(e) + k1 + k2 + np.sum(T.y**2) / T.noise


def combine(T, which, q, prior=None):
    """Natural parameters of the optimal other factor."""
    m1, m2, _ = ref.nat_moments(q)
    P, lam = (T.z_given_u if which == "z" else T.u_given_z)(m1, m2)
    if prior is None:
        return P + (T.Kz if which == "z" else T.Ku), lam
    from ..core import to_numpy

    return P + to_numpy(prior.prec), lam + to_numpy(prior.lam)


def mk(lam, P):
    from gpcm.normal import NaturalNormal
    import jax.numpy as jnp

    return NaturalNormal(jnp.array(lam), jnp.array((P + P.T) / 2))


def run(case, m):
    if case["kind"] == "bound":
        return bound(case, m)
    g, model, inst, R = gen.setup(case, perturb_it=case["perturb"])
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    T = ref.Terms(R, t, y)
    cls = case["cfg"]["cls"]
    key = dict(cls=cls, kind=case["kind"], n=len(t))
    nu, nz = len(R.t_u), T.Kz.shape[0]
    styles = ["random", "prior", "peaked"]
    su, sz = styles[g.randint(3)], styles[g.randint(3)]
    m.state(cls, case["kind"], case["cfg"]["kw"]["scheme"], su, sz, len(t), gen.model_key(case["cfg"]))
    if case["kind"] in ("mf", "mf2"):
        target, ap = model, inst.approximation
        pu = pz = None
        if case["kind"] == "mf2":
            # A second conditioning step: the first posterior is now the prior.
            t1 = np.array(case["t2"])
            y1 = gen.data(case["seed"] + 1, t1, case["cfg"])
            pu, pz = posterior(g, nu, T.Ku, "random"), posterior(g, nz, T.Kz, "random")
            ap.q_u, ap.q_z = pu, pz
            target = model.condition(t1, y1)
            ap = target().approximation
        qu, qz = posterior(g, nu, T.Ku, su), posterior(g, nz, T.Kz, sz)
        ap.q_u, ap.q_z = qu, qz
        # Setters store what they are given.
        m.close("stored/q_u", ref.nat_moments(ap.q_u)[0], ref.nat_moments(qu)[0], rtol=1e-7)
        m.close("stored/q_z", ref.nat_moments(ap.q_z)[1], ref.nat_moments(qz)[1], rtol=1e-7)
        want, sc = mf_elbo(T, qu, qz, pu, pz)
        tol = dict(rtol=1e-7, atol=1e-9)
        got = float(target.elbo(t, y))
        m.close("mean-field", got, want, scale=sc, su=su, sz=sz, **tol, **key)
        # Collapsed over one factor: the bound at its optimum.
        Pz, lz = combine(T, "z", qu, pz)
        Pu, lu = combine(T, "u", qz, pu)
        oz, ou = mk(lz, Pz), mk(lu, Pu)
        wz, scz = mf_elbo(T, qu, oz, pu, pz)
        wu, scu = mf_elbo(T, ou, qz, pu, pz)
        gz, gu = float(target.elbo(t, y, collapsed="z")), float(target.elbo(t, y, collapsed="u"))
        m.close("collapsed/z", gz, wz, scale=max(sc, scz), **tol, **key)
        m.close("collapsed/u", gu, wu, scale=max(sc, scu), **tol, **key)
        m.le("collapsed/z >= plain", got, gz, slack=1e-7 * sc + 1e-9, **key)
        m.le("collapsed/u >= plain", got, gu, slack=1e-7 * sc + 1e-9, **key)
        # Reading a bound stores nothing.
        m.close("stored/unchanged", ref.nat_moments(ap.q_u)[0], ref.nat_moments(qu)[0], rtol=1e-7)
        m.close("again", float(target.elbo(t, y)), got, rtol=1e-10, **key)
        # Order of the observations; joint sign of the data and one mean.
        p = g.permutation(len(t))
        m.close("permuted", float(target.elbo(t[p], y[p])), got, rtol=1e-9, scale=sc, **key)
        if case["kind"] == "mf":
            ap.q_u = mk(-np.asarray(qu.lam), np.asarray(ref_dense(qu.prec)))
            m.close("sign/u", float(target.elbo(t, -y)), got, rtol=1e-9, scale=sc, **key)
            ap.q_u, ap.q_z = qu, mk(-np.asarray(qz.lam), np.asarray(ref_dense(qz.prec)))
            m.close("sign/z", float(target.elbo(t, -y)), got, rtol=1e-9, scale=sc, **key)
        # At the optimum of one factor, collapsing it changes nothing.
        ap.q_u, ap.q_z = qu, oz
        m.close("optimum/z", float(target.elbo(t, y)), gz, rtol=1e-7, scale=max(sc, scz), **key)
        ap.q_u, ap.q_z = ou, qz
        m.close("optimum/u", float(target.elbo(t, y)), gu, rtol=1e-7, scale=max(sc, scu), **key)
        m.raises("collapsed/invalid", ValueError, lambda: target.elbo(t, y, collapsed="x"))
    elif case["kind"] == "st":
        ap = inst.approximation
        ap.q_u, ap.q_z = posterior(g, nu, T.Ku, "random"), posterior(g, nz, T.Kz, "random")
        num = int(g.choice([50, 300]))
        got = float(model.elbo(t, y, num_samples=num) if g.rand() < 0.7 else inst.elbo(t, y, num_samples=num))
        qu, qz = inst.approximation.q_u, inst.approximation.q_z
        U1, _, Su = ref.nat_moments(qu)
        L = np.linalg.cholesky(Su)
        zs = np.array([T.log_Z(U1 + L @ g.randn(nu, 1)) for _ in range(3000)])
        kl = ref.kl_gauss(U1, Su, 0 * U1, T.Kui)
        want, sd = np.mean(zs) - kl, np.std(zs)
        se = sd * np.sqrt(1 / num + 1 / len(zs))
        m.le("structured", abs(got - want), 7 * se + 1e-6 * (abs(want) + np.sum(y**2) / T.noise), got=got, want=want, se=se, **key)
        mf, sc = mf_elbo(T, qu, qz)
        m.le("structured >= mean-field", mf, want, slack=7 * sd / np.sqrt(len(zs)) + 1e-6 * sc, **key)
        m.event("monte_carlo", len(zs))
        # The gap is what collapsing the excitation buys; a sample-wise Jensen argument.
    elif case["kind"] == "gibbs":
        import jax.numpy as jnp
        import lab.jax as B

        u, z = np.linalg.cholesky(T.Kui) @ g.randn(nu, 1), np.linalg.cholesky(T.Kzi) @ g.randn(nz, 1)
        state = B.create_random_state(jnp.float64, seed=int(g.randint(10**6)))
        for k in (1, 3):
            state, e, u1, z1 = inst.approximation.elbo_gibbs(state, jnp.array(t), jnp.array(y), jnp.array(u), jnp.array(z), num_samples=k)
            want = T.log_Z(np.asarray(u1)) + ref.lognormal0(u1, T.Ku)
            m.close("gibbs", float(e), want, rtol=1e-7, scale=abs(want) + np.sum(y**2) / T.noise, **key)
            m.check("gibbs/moved", not np.allclose(np.asarray(u1), u) and not np.allclose(np.asarray(z1), z))
            u, z = np.asarray(u1), np.asarray(z1)
            # Up to a constant, log Z(u) is the log-likelihood with z integrated out: at any z,
            # log_lik(u, z) + log p(z) = log Z(u) + log p(z | u).
            P, lam = T.z_given_u(u)
            P = P + T.Kz
            r = z - np.linalg.solve(P, lam)
            lhs = T.log_lik(u, z) + ref.lognormal0(z, T.Kz) - ref.lognormal0(r, P)
            m.close("gibbs/bayes", float(e) - ref.lognormal0(u, T.Ku), lhs, rtol=1e-6, scale=abs(lhs) + np.sum(y**2) / T.noise, **key)


def ref_dense(x):
    from ..core import to_numpy

    return to_numpy(x)


def bound(case, m):
    """ELBO <= log p(y), the latter by simulating the filter on a grid and integrating the excitation exactly."""
    g, model, inst, R = gen.setup(case)
    cfg = case["cfg"]
    d = 0.12 / np.sqrt(R.alpha + R.gamma)
    n = case["n"]
    t = np.round(np.sort(g.uniform(cfg["t0"], cfg["t0"] + cfg["span"], n)) / d) * d
    y = gen.data(case["seed"], t, cfg)
    k = int(np.ceil(4.5 / np.sqrt(2 * R.alpha) / d))
    s = d * np.arange(0 if R.causal else -k, k + 1)
    w = np.full(len(s), d)
    if R.causal:
        w[0] = d / 2
    C = R.kh(s[:, None], s[None, :])
    L = np.linalg.cholesky(C + 1e-10 * np.eye(len(s)) * R.alpha_t**2)
    lag = np.round((t[:, None] - t[None, :]) / d).astype(int)
    N = 40000
    lp = []
    for _ in range(4):
        H = g.randn(N // 4, len(s)) @ L.T
        Ks = {}
        for q in np.unique(np.abs(lag)):
            if q == 0:
                Ks[0] = np.sum(H * H * w, axis=1)
            elif q >= len(s):
                Ks[q] = np.zeros(len(H))
            else:
                Ks[q] = np.sum(H[:, q:] * H[:, :-q], axis=1) * d
                if R.causal:
                    Ks[q] -= 0.5 * d * H[:, q] * H[:, 0]
        K = np.stack([np.stack([Ks[abs(lag[i, j])] for j in range(n)], axis=-1) for i in range(n)], axis=-2) + R.noise * np.eye(n)
        sgn, ld = np.linalg.slogdet(K)
        qf = np.einsum("i,nij,j->n", y, np.linalg.inv(K), y)
        lp.append(-0.5 * (n * np.log(2 * np.pi) + ld + qf))
    lp = np.concatenate(lp)
    mx = lp.max()
    p = np.exp(lp - mx)
    logp = mx + np.log(np.mean(p))
    se = np.std(p) / np.mean(p) / np.sqrt(len(p))
    key = dict(cls=cfg["cls"], n=n, logp=logp, se=se)
    if case["cfg"]["kw"]["scheme"] == "structured":
        e = float(model.elbo(t, y, num_samples=400))
        slack = 0.15  # Monte Carlo error of the bound itself.
    else:
        model.fit(t, y, iters=400)
        e = float(model.elbo(t, y))
        slack = 0.0
    m.le("below log marginal likelihood", e, logp, slack=slack + 7 * se + 0.02, **key)
    m.le("bound not vacuous", logp - e, 50.0 + 5 * np.sum(y**2) / R.noise, **key)
    m.state("bound", cfg["cls"], n, cfg["kw"]["scheme"])
    m.event("gap_millinats", int(1000 * (logp - e)))
