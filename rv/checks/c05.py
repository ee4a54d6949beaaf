"""Kernels built from the filter: symmetry, stationarity, positivity, exactness, averages, unit power."""
import numpy as np

from .. import gen, ref
from ..core import Skip

PROPERTY = "C05"
RULE = ("A case is a random configuration of one of the three models (constructed, instantiated or perturbed) and several "
        "values of the filter's inducing variables: zero, prior draws, large, aligned with the smallest prior direction, "
        "and the full set of sigma points.  Every kernel is compared with a quadrature of the conditional filter.  "
        "Non-trivial: a kernel with both conditional-mean and residual parts compared.")
ASSUMPTIONS = ["covariances of the inducing variables with a condition number above 1e8 are left out: the comparison would measure rounding"]
BUDGET = {"quick": 60, "thorough": 900}
MANDATORY = 36
MIN_CASES = 24


def cases(rng, tier):
    n = 48 if tier == "quick" else 700
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        for _ in range(50):
            cfg = gen.cfg_any(rng, cls)
            if cls == "RGPCM" or cfg["kw"].get("n_u", 5) <= 6:
                break
        w = cfg["window"]
        yield dict(kind=["raw", "instance", "perturbed"][(i // 3) % 3], cfg=cfg, epsilon=0.0,
                   t1=gen.rlist([cfg["t0"] + rng.uniform(-1.5, 1.5) * w for _ in range(4)]),
                   t2=gen.rlist([cfg["t0"] + rng.uniform(-1.5, 1.5) * w for _ in range(3)]),
                   shift=gen.r(rng.choice([20, 400, 1500] if cls == "RGPCM" else [20, 5]) * rng.uniform(-1, 1) * w), grid=rng.choice([rng.randint(8, 25), rng.randint(8, 25), 70, 130]))


def conditional_kernel(R, d, u):
    """int E[h(s) h(s + d) | u] ds."""
    Ku = R.K_u()
    if isinstance(R, ref.RefR):
        w = np.linalg.solve(Ku, u)
        I = R.I_ux(np.array([d]), np.zeros(1))[0, 0]
        return float(R.i_hx(d, 0.0)) - np.trace(np.linalg.solve(Ku, I)) + w @ I @ w
    s, w = R._lags(d)
    A, C = R.kh(s[:, None], R.t_u), R.kh(s[:, None] + d, R.t_u)
    m1, m2 = A @ np.linalg.solve(Ku, u), C @ np.linalg.solve(Ku, u)
    res = R.kh(s, s + d) - np.sum(A * np.linalg.solve(Ku, C.T).T, axis=1)
    return float(np.sum(w * (res + m1 * m2)))


def run(case, m):
    g = np.random.RandomState(case["seed"] % 2**32)
    cfg = case["cfg"]
    model = gen.build(cfg)
    key = dict(kind=case["kind"], cls=cfg["cls"])
    unit(model, cfg, m, key)
    if case["kind"] != "raw":
        inst = model()
        if case["kind"] == "perturbed":
            gen.perturb(model, g)
            inst = model()
        else:
            unit(inst, cfg, m, key)
        model = inst
    R = ref.from_model(model)
    Ku = R.K_u()
    cond = np.linalg.cond(Ku)
    if cond > 1e8:
        raise Skip("ill-conditioned")
    if isinstance(R, ref.RefR) and abs(R.lam - (R.alpha - R.gamma)) < 0.02 * R.lam:
        raise Skip("close to the singularity of C02")
    n = len(Ku)
    L = np.linalg.cholesky(Ku)
    V, S = np.linalg.eigh(Ku)[1], np.linalg.eigh(Ku)[0]
    us = [np.zeros(n), L @ g.randn(n), 30 * (L @ g.randn(n)), V[:, 0] * np.sqrt(S[0]), V[:, -1] * 2 * np.sqrt(S[-1])]
    t1, t2 = np.array(case["t1"]), np.array(case["t2"])
    p0 = float(R.i_hx(0.0, 0.0))
    rt = 1e-9 + cond * 2e-14
    for i, u in enumerate(us):
        K = np.asarray(model.kernel_approx(t1, t2, u))
        sc = p0 + float(u @ np.linalg.solve(Ku, u)) * p0
        want = np.array([[conditional_kernel(R, b - a, u) for b in t2] for a in t1])
        m.close("conditional", K, want, rtol=rt, atol=0, scale=sc, u=i, cond=cond, **key)
        m.close("symmetric", np.asarray(model.kernel_approx(t2, t1, u)).T, K, rtol=rt, atol=0, scale=sc, u=i, **key)
        sh = case["shift"]
        # Shifting rounds the time differences.
        m.close("stationary", model.kernel_approx(t1 + sh, t2 + sh, u), K, rtol=rt + 1e-10 * (1 + abs(sh) / cfg["scale"]),
                atol=0, scale=sc, u=i, **key)
        x = np.sort(cfg["t0"] + g.uniform(-1, 1, case["grid"]) * 2 * cfg["window"])
        if i % 2:
            x[1] = x[0]
            g.shuffle(x)
        G = np.asarray(model.kernel_approx(x, x, u))
        p = g.permutation(len(x))[:3]
        m.close("company", model.kernel_approx(x[p], x, u), G[p], rtol=rt, atol=0, scale=sc, u=i, n=len(x), **key)
        m.close("company/column", model.kernel_approx(x, x[p[:1]], u), G[:, p[:1]], rtol=rt, atol=0, scale=sc, u=i, n=len(x), **key)
        m.close("symmetric/grid", G.T, G, rtol=rt, atol=0, scale=sc, u=i, **key)
        lam = np.linalg.eigvalsh((G + G.T) / 2)
        m.le("psd", -lam[0], (rt + 1e-12) * sc * len(x), u=i, cond=cond, **key)
        m.state(cfg["cls"], case["kind"], i, n, gen.model_key(cfg))
        m.event("kernels", 5)
    # The average under the prior, exactly, by sigma points.
    pts = np.sqrt(n) * np.concatenate([L.T, -L.T])
    avg = np.mean([np.asarray(model.kernel_approx(t1, t2, u)) for u in pts], axis=0)
    m.close("average", avg, R.i_hx(t1[:, None], t2[None, :]), rtol=rt * n, atol=0, scale=p0 * (1 + n), cond=cond, **key)
    m.close("average/model", avg, model.compute_i_hx(t1[:, None], t2[None, :]), rtol=rt * n, atol=0, scale=p0 * (1 + n), **key)
    # Sign of the inducing values does not matter.
    m.close("even", model.kernel_approx(t1, t2, -us[1]), np.asarray(model.kernel_approx(t1, t2, us[1])), rtol=1e-12, **key)


def unit(model, cfg, m, key):
    """Unit power with default scales (parameters as constructed)."""
    kw = cfg["kw"]
    if "alpha_t" not in kw:
        m.close("unit/prior", np.asarray(model.compute_i_hx()).reshape(()), np.array(1.0), rtol=1e-8, **key)
    if cfg["cls"] == "RGPCM":
        if "gamma_t" not in kw:
            d = np.diag(np.asarray(ref_dense(model.compute_K_u())))
            m.close("unit/u", d, np.ones(len(d)), rtol=1e-8, gamma=kw.get("gamma"), **key)
    else:
        d = np.diag(np.asarray(ref_dense(model.compute_K_z())))
        m.close("unit/z", d, np.ones(len(d)), rtol=1e-8, **key)


def ref_dense(x):
    from ..core import to_numpy

    return to_numpy(x)
