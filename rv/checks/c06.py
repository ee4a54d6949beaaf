"""Prior sampling: every draw (K, y) is recorded; the inducing values behind K are recovered by inverting the
linear map from their outer product to the kernel matrix, and y is whitened with K."""
import numpy as np

from .. import gen, ref
from ..core import Skip

PROPERTY = "C06"
RULE = ("A case is a random small configuration (2-3 filter inducing points so that their outer product can be recovered "
        "from the kernel), instantiated or not, with random times (sorted, unsorted, repeated) and noise, drawn 120 times "
        "with or without normalisation; per draw the kernel's distance to the model's kernel family and the whitened "
        "outputs are recorded, then pooled and tested for normality, unit variance and independence.  Non-trivial: at "
        "least one recovered draw.")
ASSUMPTIONS = ["distributional oracles reject at p < 1e-8 per statistic"]
BUDGET = {"quick": 75, "thorough": 900}
MANDATORY = 24
MIN_CASES = 18
P = 1e-8


def cases(rng, tier):
    n = 32 if tier == "quick" else 400
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        scale = gen.r(rng.choice([0.5, 1.0, 2.0]) * rng.uniform(0.7, 1.4))
        window = gen.r(scale * rng.uniform(1.2, 2.5))
        n_u = rng.choice([2, 3])
        kw = dict(window=window, scale=scale, noise=gen.r(10 ** rng.uniform(-2.5, 0)), n_z=4, scheme=rng.choice(["structured", "mean-field"]))
        L = 1.2 * window
        if cls == "GPCM":
            u = [-L + 2 * L * (j + rng.uniform(0.2, 0.8)) / n_u for j in range(n_u)]
        else:
            u = [L * (j + rng.uniform(0.2, 0.8)) / n_u for j in range(n_u)]
        kw["t_u"] = gen.rlist(u)
        if rng.random() < 0.4:
            kw["alpha_t"] = gen.r(rng.uniform(0.4, 2))
        t0 = gen.r(rng.uniform(-5, 5))
        kw["t"] = [t0, gen.r(t0 + 4 * window)]
        yield dict(kind="draws", cfg=dict(cls=cls, kw=kw), t0=t0, window=window, raw=rng.random() < 0.3, normalise=i % 2 == 1,
                   n=rng.choice([6, 7, 8, 6, 7, 8, 56]), style=rng.choice(["sorted", "unsorted", "repeat"]), draws=120 if tier == "quick" else 250,
                   jax=rng.random() < 0.4)
    for cls in ["GPCM", "CGPCM", "RGPCM"]:
        yield dict(kind="posterior", cfg=dict(cls=cls, kw=dict(window=1.0, scale=0.6, noise=0.1, t=[0.0, 3.0], n_u=4, n_z=4)), must=True)


def design(R, t):
    """Whitened kernel features per pair of times: base (n, n) and N (n, n, p, p)."""
    Ku = R.K_u()
    Li = np.linalg.inv(np.linalg.cholesky(Ku))
    d = t[:, None] - t[None, :]
    uniq, inv = np.unique(np.round(d, 12).ravel(), return_inverse=True)
    inv = np.ravel(inv)
    I = R.I_ux(uniq, np.zeros(1))[:, 0]
    N = np.einsum("pi,dij,qj->dpq", Li, I, Li)
    N = (N + N.transpose(0, 2, 1)) / 2
    base = R.i_hx(uniq, 0 * uniq) - np.trace(N, axis1=1, axis2=2)
    n = len(t)
    return base[inv].reshape(n, n), N[inv].reshape(n, n, *N.shape[1:])


def run(case, m):
    import jax.numpy as jnp

    if case["kind"] == "posterior":
        model = gen.build(case["cfg"])
        t = np.linspace(0, 3, 5)
        post = model.condition(t, np.sin(t))
        m.raises("refuses", RuntimeError, lambda: post.sample(t))
        m.raises("refuses/instance", RuntimeError, lambda: post().sample(t))
        K, y = model.sample(t)
        m.check("prior still samples", np.all(np.isfinite(K)) and np.all(np.isfinite(y)) and y.shape == (5,) and K.shape == (5, 5))
        m.state("posterior", case["cfg"]["cls"])
        return
    g = np.random.RandomState(case["seed"] % 2**32)
    model = gen.build(case["cfg"])
    inst = model()
    R = ref.from_model(inst)
    if isinstance(R, ref.RefR) and abs(R.lam - (R.alpha - R.gamma)) < 0.02 * R.lam:
        raise Skip("close to the singularity of C02")
    p = len(R.t_u)
    iu = np.triu_indices(p)
    best = None
    for _ in range(30 if case["n"] < 20 else 1):  # Times for which the inversion is well conditioned.
        t = case["t0"] + case["window"] * g.uniform(0, 2.2) + case["window"] * np.cumsum(g.uniform(0.02, 1.0, case["n"]))
        if case["style"] == "unsorted":
            g.shuffle(t)
        if case["style"] == "repeat":
            t[1] = t[0]
        base, N = design(R, t)
        A = np.stack([N[..., a, b] * (1 if a == b else 2) for a, b in zip(*iu)], axis=-1).reshape(-1, len(iu[0]))
        if case["normalise"]:
            pass
        c = np.linalg.cond(A)
        if best is None or c < best[0]:
            best = (c, t, base, A)
        if c < 300:
            break
    cond, t, base, A = best
    target = model if case["raw"] else inst
    arg = jnp.array(t) if case["jax"] else t
    keep = np.array(t)
    before = {n: np.asarray(model.vs[n]) for n in model.vs.names}
    noise = R.noise
    es, traces, comps, Ks = [], [], [], []
    ndraw = case["draws"] if not case["raw"] else case["draws"] // 2
    for _ in range(ndraw):
        K, y = target.sample(arg, normalise=True) if case["normalise"] else target.sample(arg)
        m.check("type", ("jax" in type(K).__module__) == case["jax"] and ("jax" in type(y).__module__) == case["jax"], got=str(type(K)))
        K, y = np.asarray(K), np.asarray(y)
        if not m.check("shape", K.shape == (len(t), len(t)) and y.shape == (len(t),), got=[K.shape, y.shape]):
            return
        if not m.check("finite", np.all(np.isfinite(K)) and np.all(np.isfinite(y))):
            return
        sc = np.max(np.abs(K))
        if case["normalise"]:
            m.close("normalised", K[0, 0], 1.0, rtol=1e-9)
            # K c = base + A v, unknown (c, v).
            D = np.concatenate([K.reshape(-1, 1), -A], axis=1)
            sol, *_ = np.linalg.lstsq(D, base.ravel(), rcond=None)
            cc, v = sol[0], sol[1:]
            c1 = np.linalg.cond(D)
            if c1 > 1e5:
                m.event("undetermined")
                v = None
            else:
                resid = np.max(np.abs(D @ sol - base.ravel())) / max(cc, 1e-3)
                ctol = c1
        else:
            v, *_ = np.linalg.lstsq(A, K.ravel() - base.ravel(), rcond=None)
            resid = np.max(np.abs(A @ v + base.ravel() - K.ravel()))
            ctol = cond
        if v is not None:
            m.close("kernel family", resid, 0.0, rtol=1e-8, atol=0, scale=sc, style=case["style"])
            V = np.zeros((p, p))
            V[iu] = v
            V = V + V.T - np.diag(np.diag(V))
            lam, U = np.linalg.eigh(V)
            if ctol < 1e5:
                # One set of inducing values: an outer product.
                m.le("rank one", np.max(np.abs(lam[:-1])), 1e-9 * ctol * (1 + lam[-1] + sc), lam=lam, cond=ctol)
                traces.append(float(max(lam[-1], 0)))
                comps.append([float(V[i, j]) for i in range(p) for j in range(i, p)])
        m.close("symmetric", K, K.T, rtol=1e-9, scale=sc)
        e = np.linalg.solve(np.linalg.cholesky(K + noise * np.eye(len(t))), y)
        es.append(e)
        Ks.append(K.ravel())
        m.event("draws")
    es = np.array(es)
    Ks = np.array(Ks)
    m.check("distinct kernels", case["normalise"] and case["style"] == "x" or np.min(np.max(np.abs(np.diff(Ks, axis=0)), axis=1)) > 0)
    m.check("distinct outputs", np.min(np.max(np.abs(np.diff(es, axis=0)), axis=1)) > 0)
    after = {n: np.asarray(model.vs[n]) for n in model.vs.names}
    m.check("model unchanged", before.keys() == after.keys() and all(np.array_equal(before[n], after[n]) for n in before))
    m.check("arguments unchanged", np.array_equal(np.asarray(arg), keep))
    tests(m, "case/", es, np.array(traces), p)
    m.observe(cls=case["cfg"]["cls"], norm=case["normalise"], p=p, es=np.round(es.ravel(), 6).tolist(), tr=np.round(traces, 6).tolist(),
              lag=float(np.sum(es[1:] * es[:-1])), lagn=int(es[1:].size))
    if len(traces) > 20:
        C = np.array(comps)
        # E v v' = I, mean over draws; heavy-tailed products: var of v_i v_j is 1 or 2.
        k = 0
        for i in range(p):
            for j in range(i, p):
                want, sd = (1.0, np.sqrt(2.0)) if i == j else (0.0, 1.0)
                z = (np.mean(C[:, k]) - want) / (sd / np.sqrt(len(C)))
                m.le("inducing covariance", abs(z), 8.0, i=i, j=j, z=z, n=len(C))
                k += 1
    m.state(case["cfg"]["cls"], case["normalise"], case["style"], case["raw"], p)


def tests(m, tag, es, tr, p):
    from scipy import stats

    e = es.ravel()
    if len(e) > 50:
        m.le(tag + "outputs normal", -np.log10(max(stats.kstest(e, "norm").pvalue, 1e-300)), -np.log10(P), n=len(e), std=float(np.std(e)), mean=float(np.mean(e)))
        m.le(tag + "outputs variance", abs(np.mean(e**2) - 1) / np.sqrt(2 / len(e)), 7.0, var=float(np.mean(e**2)), n=len(e))
        m.le(tag + "outputs mean", abs(np.mean(e)) * np.sqrt(len(e)), 6.0)
    if len(tr) > 30:
        m.le(tag + "inducing chi2", -np.log10(max(stats.kstest(tr, "chi2", args=(p,)).pvalue, 1e-300)), -np.log10(P), n=len(tr), mean=float(np.mean(tr)), p=p)


def finish(obs, m, tier):
    for cls in sorted({o["cls"] for o in obs}):
        for norm in (False, True):
            sel = [o for o in obs if o["cls"] == cls and o["norm"] == norm]
            if not sel:
                continue
            e = np.concatenate([o["es"] for o in sel])
            tests(m, "pooled/", e, np.zeros(0), 0)
            for p in (2, 3):
                tr = [np.array(o["tr"]) for o in sel if o["p"] == p and len(o["tr"])]
                if tr:
                    tests(m, "pooled/", np.zeros(0), np.concatenate(tr), p)
            lag, n = sum(o["lag"] for o in sel), sum(o["lagn"] for o in sel)
            m.le("independent draws", abs(lag) / np.sqrt(max(n, 1)), 6.0, cls=cls)
            # Kernel and outputs are drawn with different randomness.
            a, b = [], []
            for o in sel:
                k = len(o["tr"])
                es = np.array(o["es"])
                if k and len(es) % k == 0:
                    q = np.mean(es.reshape(k, -1) ** 2, axis=1) - 1
                    w = np.array(o["tr"]) - o["p"]
                    a.append(q * w)
                    b.append(q**2 * w**2)
            if a:
                a, b = np.concatenate(a), np.concatenate(b)
                m.le("kernel and outputs independent", abs(a.sum()) / np.sqrt(b.sum()), 6.5, cls=cls)
