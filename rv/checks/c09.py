"""Structured inference: the stored Gibbs chain against the full conditionals."""
import numpy as np

from .. import gen, ref
from .c07 import posterior

PROPERTY = "C09"
RULE = ("A case fits the structured scheme to a random model and data set (hyperparameters held fixed, optimised, or optimised "
        "for a given number of steps) and checks the stored chain offline: the residuals of every stored excitation given the "
        "filter stored with it, and of every filter given the previous excitation, whitened by full conditionals from "
        "quadrature integrals, must be independent standard normals; a second kind compares the natural parameters of the "
        "conditionals themselves and their compatibility with one joint density at random points.  Non-trivial: a stored "
        "chain or a conditional compared.")
ASSUMPTIONS = ["covariances of inducing variables with condition number at most 1e7",
               "statistics of the stored chain reject beyond 6.5 standard errors (false alarm below 1e-7 per case)"]
BUDGET = {"quick": 75, "thorough": 900}
MANDATORY = 27
MIN_CASES = 16
CASE_TIMEOUT = 400


def cases(rng, tier):
    n = 36 if tier == "quick" else 400
    kinds = ["conditional", "chain", "chain", "conditional"]
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        kind = kinds[(i // 3) % len(kinds)]
        cfg = gen.cfg_ok(rng, cls, scheme="structured", large=gen.LARGE if kind == "conditional" or tier != "quick" else 0)
        c = dict(kind=kind, cfg=cfg, epsilon=0.0, t=gen.times(rng, cfg, gen.count(rng, [1, 4, 10, 20])), t2=gen.times(rng, cfg, 3), perturb=rng.random() < 0.4)
        if kind == "chain":
            c["opt"] = rng.choice([False, False, 0, True, 3]) if (i // 3) % 4 == 1 else False
            c["iters"] = rng.choice([2, 40, 200, 1000]) if c["opt"] is False else 20
            c["gibbs"] = rng.choice([1, 5])
            if tier == "thorough" and c["opt"] is False and rng.random() < 0.2:
                c["iters"] = rng.choice([1001, 2000, 2500, 3100])
        yield c
    # Thinned chains.
    for cls in ["GPCM", "RGPCM"]:
        cfg = gen.cfg_ok(rng, cls, scheme="structured", large=0)
        yield dict(kind="chain", cfg=cfg, epsilon=0.0, t=gen.times(rng, cfg, 8), t2=gen.times(rng, cfg, 2), perturb=False, opt=False, iters=2100, gibbs=5, must=True)


def hypers(model):
    return {n: np.asarray(model.vs[n]).copy() for n in model.vs.names if "q_u" not in n and "q_z" not in n}


def white(m, oracle, r, given, key, lag=True):
    """r: (dim, N) residuals that should be independent standard normal, independent of ``given``."""
    d, N = r.shape
    z = 6.5
    m.le(oracle + "/mean", np.max(np.abs(r.mean(1))) * np.sqrt(N), z, **key)
    C = r @ r.T / N - np.eye(d)
    sd = np.where(np.eye(d) > 0, np.sqrt(2.0), 1.0) / np.sqrt(N)
    # The square of a normal has a slightly heavier tail than the normal approximation.
    m.le(oracle + "/covariance", np.max(np.abs(C) / sd), z * 1.15, **key)
    if lag:
        m.le(oracle + "/lag", np.max(np.abs(r[:, 1:] @ r[:, :-1].T)) / np.sqrt(N - 1), z * 1.15, **key)
    g = (given - given.mean(1, keepdims=True)) / (given.std(1, keepdims=True) + 1e-300)
    m.le(oracle + "/given", np.max(np.abs(r @ g.T)) / np.sqrt(N), z * 1.15, **key)
    # Heteroscedasticity: squared residuals do not depend on the conditioning value either.
    m.le(oracle + "/given squared", np.max(np.abs((r**2 - 1) @ g.T)) / np.sqrt(2 * N), z * 1.4, **key)
    m.event("residuals", r.size)


def run(case, m):
    g, model, inst, R = gen.setup(case, perturb_it=case["perturb"])
    cls = case["cfg"]["cls"]
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    key = dict(cls=cls, n=len(t))
    if case["kind"] == "conditional":
        return conditional(case, m, g, model, inst, R, t, y, key)
    key.update(iters=case["iters"], opt=case["opt"])
    h0 = hypers(model)
    if case["opt"] is False:
        inst.approximation.q_u, inst.approximation.q_z  # Initialise.
        q0 = [np.asarray(model.vs[n]).copy() for n in model.vs.names]
        names0 = list(model.vs.names)
    kw = {} if case["opt"] is True else dict(optimise_hypers=case["opt"])
    model.fit(t, y, iters=case["iters"], num_samples=case["gibbs"], **kw)
    h1 = hypers(model)
    same = h0.keys() == h1.keys() and all(np.array_equal(h0[k], h1[k]) for k in h0)
    if case["opt"] is False:
        m.check("hyperparameters fixed", same, **key)
        m.check("naturals fixed", all(np.array_equal(a, np.asarray(model.vs[n])) for a, n in zip(q0, names0) if "samples" not in n), **key)
    elif case["opt"] == 0 and case["opt"] is not False:
        m.check("hyperparameters fixed", same, **key)
    else:
        m.check("hyperparameters optimised", not same, **key)
        m.check("hyperparameters finite", all(np.all(np.isfinite(v)) for v in h1.values()), **key)
    ap = model().approximation
    U, Z = np.asarray(ap.q_u_samples), np.asarray(ap.q_z_samples)
    nu, nz = len(R.t_u), len(np.asarray(getattr(inst, "t_z", None) if cls != "RGPCM" else inst.ms))
    m.check("exactly 1000 joint samples", U.shape == (nu, 1000) and Z.shape == (nz, 1000), shapes=(U.shape, Z.shape), **key)
    m.check("finite samples", np.all(np.isfinite(U)) and np.all(np.isfinite(Z)), **key)
    m.check("distinct samples", len(np.unique(U[0])) == 1000 and len(np.unique(Z[0])) == 1000, **key)
    m.state(cls, "chain", str(case["opt"]), case["iters"], len(t))
    if U.shape != (nu, 1000) or Z.shape != (nz, 1000):
        return
    # The conditionals under the hyperparameters the samples are stored with.
    R = ref.from_model(model())
    if max(np.linalg.cond(R.K_u()), np.linalg.cond(R.K_z())) > 1e9:
        return
    T = ref.Terms(R, t, y)
    rz = np.empty_like(Z)
    for k in range(1000):
        P, lam = T.z_given_u(U[:, k])
        P = P + T.Kz
        L = np.linalg.cholesky((P + P.T) / 2)
        rz[:, k] = (L.T @ Z[:, k : k + 1] - np.linalg.solve(L, lam))[:, 0]
    white(m, "z given u", rz, U, key)
    if case["iters"] < 2000:  # Not thinned: consecutive samples are one Gibbs step apart.
        ru = np.empty((nu, 999))
        for k in range(999):
            P, lam = T.u_given_z(Z[:, k])
            P = P + T.Ku
            L = np.linalg.cholesky((P + P.T) / 2)
            ru[:, k] = (L.T @ U[:, k + 1 : k + 2] - np.linalg.solve(L, lam))[:, 0]
        white(m, "u given z", ru, Z[:, :-1], key)
    m.event("chains")


def conditional(case, m, g, model, inst, R, t, y, key):
    """Natural parameters of both conditionals and the joint they come from."""
    import jax.numpy as jnp
    import lab.jax as B

    T = ref.Terms(R, t, y)
    nu, nz = len(R.t_u), T.Kz.shape[0]
    ap = inst.approximation
    # elbo_gibbs draws u | z, then z | u: from many chains started at the same z, the first
    # draw of u has the conditional's moments.  With few data points but exact randomness
    # the conditional itself is exposed by the public optimal-factor methods.
    from ..core import to_numpy

    sc = np.sqrt(np.max(np.diag(T.Kzi)))
    for _ in range(3):
        u = np.linalg.cholesky(T.Kui) @ g.randn(nu, 1)
        z = np.linalg.cholesky(T.Kzi) @ g.randn(nz, 1)
        if all(hasattr(ap, a) for a in ("construct_terms", "q_u_optimal", "q_z_optimal")):
            ts = ap.construct_terms(jnp.array(t), jnp.array(y))
            qz, qu = ap.q_z_optimal(ts, jnp.array(u)), ap.q_u_optimal(ts, jnp.array(z))
            P, lam = T.z_given_u(u)
            m.close("z|u/prec", to_numpy(qz.prec), P + T.Kz, rtol=1e-7, **key)
            m.close("z|u/lam", to_numpy(qz.lam), lam, rtol=1e-7, scale=np.max(np.abs(lam)) + np.max(np.abs(P)) * 1e-3, **key)
            P, lam = T.u_given_z(z)
            m.close("u|z/prec", to_numpy(qu.prec), P + T.Ku, rtol=1e-7, **key)
            m.close("u|z/lam", to_numpy(qu.lam), lam, rtol=1e-7, scale=np.max(np.abs(lam)) + np.max(np.abs(P)) * 1e-3, **key)
            # Brook's lemma: log p(u|z) - log p(z|u) = f(u) - g(z) for one joint.
            u2, z2 = u + 0.3 * np.linalg.cholesky(T.Kui) @ g.randn(nu, 1), z + 0.3 * np.linalg.cholesky(T.Kzi) @ g.randn(nz, 1)
            lp = lambda q, x: float(q.logpdf(jnp.array(x)))
            Q = {}
            for a, uu in ((1, u), (2, u2)):
                q = ap.q_z_optimal(ts, jnp.array(uu))
                for b, zz in ((1, z), (2, z2)):
                    Q["z", a, b] = lp(q, zz)
            for b, zz in ((1, z), (2, z2)):
                q = ap.q_u_optimal(ts, jnp.array(zz))
                for a, uu in ((1, u), (2, u2)):
                    Q["u", a, b] = lp(q, uu)
            cross = lambda w: Q[w, 1, 1] + Q[w, 2, 2] - Q[w, 1, 2] - Q[w, 2, 1]
            want = T.log_lik(u, z) + T.log_lik(u2, z2) - T.log_lik(u, z2) - T.log_lik(u2, z)
            s = sum(abs(v) for v in Q.values())
            m.close("compatible/z|u", cross("z"), want, rtol=1e-7, scale=s, **key)
            m.close("compatible/u|z", cross("u"), want, rtol=1e-7, scale=s, **key)
        else:
            m.event("conditionals not exposed")
        # One Gibbs sweep through the public entry point, many times from the same z.
        state = B.create_random_state(jnp.float64, seed=int(g.randint(10**6)))
        us, zs = [], []
        f = B.jit(lambda st, z_: ap.elbo_gibbs(st, jnp.array(t), jnp.array(y), jnp.array(u), z_, num_samples=1))
        N = 400
        for _ in range(N):
            state, _, u1, z1 = f(state, jnp.array(z))
            us.append(np.asarray(u1)[:, 0])
            zs.append(np.asarray(z1)[:, 0])
        us, zs = np.array(us).T, np.array(zs).T
        P, lam = T.u_given_z(z)
        P = P + T.Ku
        L = np.linalg.cholesky((P + P.T) / 2)
        ru = L.T @ us - np.linalg.solve(L, lam)
        rz = np.empty_like(zs)
        for k in range(N):
            P, lam = T.z_given_u(us[:, k])
            Lz = np.linalg.cholesky((P + P.T) / 2 + T.Kz)
            rz[:, k] = Lz.T @ zs[:, k] - np.linalg.solve(Lz, lam)[:, 0]
        white(m, "sweep/u|z", ru, g.randn(1, N), key)
        white(m, "sweep/z|u", rz, us, key)
    m.state(cls_key(case), "conditional", len(t))
    m.event("conditionals")


def cls_key(case):
    return gen.model_key(case["cfg"])
