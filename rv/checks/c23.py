"""Pairs of executions related by a change of units or representation must agree."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import core, gen
from ..core import to_numpy

PROPERTY = "C23"
RULE = ("A case executes the library twice, on a model with data and on its image under a shift of time, a rescaling of time with all length "
        "scales, a sign flip, a permutation of observations, inducing points or basis frequencies (or several of these at once), with "
        "parameters moved and posteriors and samples transformed accordingly, and compares ELBOs, predictions, kernels, features, spectra, "
        "filters and coordinate-ascent fits.  Other cases execute the same program in processes with different hash seeds.  Non-trivial: an "
        "image different from the original compared.")
ASSUMPTIONS = ["covariances with condition number at most 1e6", "rescaling by factors between 3e-4 and 3e3"]
BUDGET = {"quick": 55, "thorough": 900}
MANDATORY = 24
MIN_CASES = 20
CASE_TIMEOUT = 150
OPS = ["shift", "rescale", "sign", "data", "inducing", "all"]


def cases(rng, tier):
    for i in range(3 if tier == "quick" else 12):
        cls = ["GPCM", "CGPCM", "RGPCM"]
        schemes = ["structured", "mean-field-ca"]
        cfgs = [gen.cfg_ok(rng, cls[i % 3], scheme=s, large=gen.LARGE if tier != 'quick' else 0) for s in schemes] + ([gen.cfg_ok(rng, c, scheme=s, large=gen.LARGE if tier != 'quick' else 0) for c in cls for s in schemes] if tier != "quick" else [])
        yield dict(kind="hash", cfgs=cfgs, ts=[gen.times(rng, c, 3) for c in cfgs], hs=[0, rng.randint(1, 10**6)], must=True, epsilon=1e-12, timeout=200)
    n = 48 if tier == "quick" else 800
    off = rng.randint(0, 5)
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        scheme = ["structured", "mean-field-ca"][(i // 3) % 2]
        cfg = gen.cfg_ok(rng, cls, scheme=scheme, large=gen.LARGE if tier != 'quick' else 0)
        yield dict(kind="pair", cfg=cfg, op=OPS[(i // 6 + i + off) % len(OPS)], t=gen.times(rng, cfg, rng.choice([1, 3, 5])), x=gen.times(rng, cfg, 4), c=gen.r(10 ** rng.uniform(*rng.choice([(-1.3, 1.3), (-3.5, 3.5)]))),
                   s=gen.r(rng.choice([1, -1]) * 10 ** rng.uniform(-1, 2)), move=rng.random() < 0.7, jax=rng.random() < 0.5, epsilon=1e-14)


def image_cfg(cfg, c, s):
    """The construction in the other units."""
    kw = dict(cfg["kw"])
    R = cfg["cls"] == "RGPCM"
    p = 1 if R else 2
    for k, f in dict(window=c, scale=c, alpha=c**-p, gamma=c**-p, omega=c**-2.0, lam=1 / c, alpha_t=c**-0.5, gamma_t=c**-0.5).items():
        if k in kw:
            kw[k] = kw[k] * f
    for k in ("t", "t_z"):
        if k in kw:
            kw[k] = [v * c + s for v in kw[k]]
    if "t_u" in kw:
        kw["t_u"] = [v * c for v in kw["t_u"]]
    for k in ("a", "b"):
        if k in kw:
            kw[k] = kw[k] * c + s
    return dict(cfg, kw=kw)


def transfer(A, B_, cfg, c, s):
    """Give the image the parameters of the original."""
    p = 1 if cfg["cls"] == "RGPCM" else 2
    f = {"noise": 1, "alpha": c**-p, "alpha_t": c**-0.5, "gamma": c**-p, "omega": c**-2.0, "lambda": 1 / c, "gamma_factor": 1, "t_u": c}
    for n in A.vs.names:
        if n == "t_z":
            B_.vs.assign(n, to_numpy(A.vs[n]) * c + s)
        elif n in f:
            B_.vs.assign(n, to_numpy(A.vs[n]) * f[n])


def explicit(inst, cfg):
    """Explicit settings of an instantiated model."""
    v = lambda n: float(to_numpy(getattr(inst, n)))
    kw = dict(scheme=cfg["kw"]["scheme"], noise=v("noise"), alpha=v("alpha"), alpha_t=v("alpha_t"), gamma=v("gamma"), t_u=to_numpy(inst.t_u))
    if cfg["cls"] == "RGPCM":
        kw.update(lam=v("lam"), gamma_t=v("gamma_t"), a=v("a"), b=v("b"), m_max=int(inst.m_max), ms=to_numpy(inst.ms))
    else:
        kw.update(omega=v("omega"), t_z=to_numpy(inst.t_z))
    return dict(cfg, kw=kw)


def run(case, m):
    if case["kind"] == "hash":
        return hashes(case, m)
    import jax.numpy as jnp
    import lab.jax as B
    from gpcm.normal import NaturalNormal

    g = np.random.RandomState(case["seed"] % 2**32)
    cfg, op = case["cfg"], case["op"]
    R = cfg["cls"] == "RGPCM"
    A = gen.build(cfg)
    ia = A()
    move = case["move"]
    if op in ("inducing", "all"):
        # The pair is constructed explicitly.
        if move:
            gen.perturb(A, g)
            ia = A()
        if R or "omega" in cfg["kw"] or True:
            cfg = explicit(ia, cfg)
        move = False
        A = gen.build(cfg)
        ia = A()
    elif move:
        gen.perturb(A, g)
        ia = A()
    conds = [np.linalg.cond(to_numpy(k)) for k in (ia.K_u, ia.K_z)]
    if max(conds) > 1e6:
        raise core.Skip("ill-conditioned")
    if R:
        if abs(float(ia.lam) - float(ia.alpha - ia.gamma)) < 0.02 * float(ia.lam):
            raise core.Skip("close to the singularity of C02")
    t, x = np.array(case["t"]), np.array(case["x"])
    if R:
        tt = np.concatenate([t, x])
        if tt.min() - float(np.max(to_numpy(ia.t_u))) < ia.a - 1e-9 or tt.max() > ia.b + 1e-9:
            raise core.Skip("times outside the basis")
    y = gen.data(case["seed"], t, cfg)

    # The transformation.
    c = case["c"] if op in ("rescale", "all") else 1.0
    s = case["s"] * cfg["scale"] * (0.1 if op == "all" else 1) if op in ("shift", "all") else 0.0
    sg = -1.0 if op in ("sign", "all") else 1.0
    n_u, n_z = ia.n_u, ia.n_z
    pu, pz = np.arange(n_u), np.arange(n_z)
    py = np.arange(len(t))
    if op in ("inducing", "all"):
        pu, pz = g.permutation(n_u), g.permutation(n_z)
    if op in ("data", "all", "sign") and len(t) > 1:
        py = g.permutation(len(t))
    cfg2 = image_cfg(cfg, c, s)
    if op in ("inducing", "all"):
        kw = dict(cfg2["kw"])
        kw["t_u"] = np.array(kw["t_u"])[pu]
        if R:
            kw["ms"] = np.array(kw["ms"])[pz]
        else:
            kw["t_z"] = np.array(kw["t_z"])[pz]
        cfg2 = dict(cfg2, kw=kw)
    Bm = gen.build(cfg2)
    ib = Bm()
    if move:
        transfer(A, Bm, cfg, c, s)
        ib = Bm()
    t2, y2, x2 = (t * c + s)[py], sg * y[py], x * c + s
    fu = 1.0 if R else np.sqrt(c)  # Factor of the whitened filter variables.
    key = dict(op=op, cls=cfg["cls"], scheme=A.scheme, c=c, s=s, moved=move)

    tol = 1e-13 * max(conds) * 50 + 1e-8
    m.close("covariance of u", to_numpy(B.dense(ib.K_u)) * (1 if R else c), to_numpy(B.dense(ia.K_u))[np.ix_(pu, pu)], rtol=1e-8, atol=0, scale=np.max(np.abs(to_numpy(B.dense(ia.K_u)))), **key)
    m.close("covariance of z", to_numpy(B.dense(ib.K_z)), to_numpy(B.dense(ia.K_z))[np.ix_(pz, pz)], rtol=1e-8, atol=0, scale=np.max(np.abs(to_numpy(B.dense(ia.K_z)))), **key)

    # Posteriors.
    qu, qz = gen.nat(g, n_u, to_numpy(ia.K_u)), gen.nat(g, n_z, to_numpy(ia.K_z))
    lu, Pu, lz, Pz = [to_numpy(B.dense(v)) for v in (qu.lam, qu.prec, qz.lam, qz.prec)]
    ia.approximation.q_u, ia.approximation.q_z = qu, qz
    ib.approximation.q_u = NaturalNormal(jnp.array(lu[pu] / fu), jnp.array(Pu[np.ix_(pu, pu)] / fu**2))
    ib.approximation.q_z = NaturalNormal(jnp.array(sg * lz[pz]), jnp.array(Pz[np.ix_(pz, pz)]))
    conv = jnp.array if case["jax"] else np.array

    u = np.linalg.cholesky(to_numpy(ia.K_u) + 1e-12 * np.eye(n_u)) @ g.randn(n_u)
    lags = np.linspace(0, 2 * cfg["scale"], 5)
    ka = to_numpy(A.kernel_approx(conv(x), conv(x[:2] + 0.1 * cfg["scale"]), conv(u)))
    kb = to_numpy(Bm.kernel_approx(conv(x2), conv(x2[:2] + 0.1 * c * cfg["scale"]), conv(u[pu] / (1 if R else np.sqrt(c)))))
    m.close("kernel", kb, ka, rtol=tol, atol=tol, scale=1 + np.max(np.abs(ka)), **key)

    if A.scheme == "structured":
        N = 6
        U = [np.linalg.solve(np.linalg.cholesky(Pu).T, g.randn(n_u, 1)) + np.linalg.solve(Pu, lu) for _ in range(N)]
        Z = [np.linalg.solve(np.linalg.cholesky(Pz).T, g.randn(n_z, 1)) for _ in range(N)]
        ia.approximation.q_u_samples, ia.approximation.q_z_samples = [jnp.array(v) for v in U], [jnp.array(v) for v in Z]
        ib.approximation.q_u_samples, ib.approximation.q_z_samples = [jnp.array(v[pu] * fu) for v in U], [jnp.array(sg * v[pz]) for v in Z]
    else:
        for col in (None, "u", "z"):
            ea, eb = float(A.elbo(conv(t), conv(y), collapsed=col)), float(Bm.elbo(conv(t2), conv(y2), collapsed=col))
            m.close("elbo", eb, ea, rtol=tol, atol=tol, scale=abs(ea) + elbo_scale(ia, t, y, Pu, Pz), collapsed=col, **key)
    compare(case, m, A, Bm, (t, y, x), (t2, y2, x2), c, sg, pz, lags, conv, tol, key)
    if A.scheme != "structured":
        for q in (A, Bm):
            q.fit(*([conv(t), conv(y)] if q is A else [conv(t2), conv(y2)]), iters=12)
        compare(case, m, A, Bm, (t, y, x), (t2, y2, x2), c, sg, pz, lags, conv, max(tol, 1e-6), dict(key, fitted=True))
    m.state(op, cfg["cls"], A.scheme, move)
    m.event("pairs")


def elbo_scale(inst, t, y, Pu, Pz):
    return len(t) * (1 + np.max(y**2)) / float(to_numpy(inst.noise))


def compare(case, m, A, Bm, d, d2, c, sg, pz, lags, conv, tol, key):
    import lab.jax as B

    (t, y, x), (t2, y2, x2) = d, d2
    post, post2 = A.condition(conv(t), conv(y)), Bm.condition(conv(t2), conv(y2))
    st = A.scheme == "structured"
    kw = dict(num_samples=5) if st else {}
    (ma, va), (mb, vb) = [[to_numpy(v) for v in p.predict(conv(z), **kw)] for p, z in ((post, x), (post2, x2))]
    sc = 1 + np.max(np.abs(ma)) + np.sqrt(np.max(va))
    m.close("predictive mean", mb, sg * ma, rtol=tol, atol=tol, scale=sc, **key)
    m.close("predictive variance", vb, va, rtol=tol, atol=tol, scale=sc**2, **key)
    (fa, wa), (fb, wb) = [[to_numpy(v) for v in p().predict_fourier(num_samples=5)] for p in (post, post2)]
    fs = 1 + np.max(np.abs(fa)) + np.sqrt(np.max(np.abs(wa)))
    m.close("features", fb, sg * fa[pz], rtol=tol, atol=tol, scale=fs, **key)
    m.close("feature variances", wb, wa[pz], rtol=tol, atol=tol, scale=fs**2, **key)
    # Draws from the posterior agree draw by draw, unless the order of the variables changed.
    if not st and key["op"] in ("inducing", "all"):
        return

    def seeded(f):
        np.random.seed(9)
        B.set_random_seed(9)
        return f()

    pa, pb = seeded(lambda: post().predict_kernel(conv(lags), num_samples=4)), seeded(lambda: post2().predict_kernel(conv(lags * c), num_samples=4))
    ks = 1 + np.max(np.abs(to_numpy(pa.all_samples)))
    m.close("predicted kernel", to_numpy(pb.all_samples), to_numpy(pa.all_samples), rtol=tol, atol=tol, scale=ks, **key)
    m.close("predicted kernel inputs", to_numpy(pb.x), to_numpy(pa.x) * c, rtol=1e-10, atol=0, **key)
    ga, gb = seeded(lambda: post().predict_psd(conv(lags), num_samples=4)), seeded(lambda: post2().predict_psd(conv(lags * c), num_samples=4))
    m.close("frequencies", to_numpy(gb.x) * c, to_numpy(ga.x), rtol=1e-9, atol=0, **key)
    pw = lambda p: 10 ** (to_numpy(p.all_samples) / 10)
    m.close("predicted spectrum", pw(gb), pw(ga) * c, rtol=tol * 100, atol=0, scale=c * np.max(pw(ga)), **key)
    if key["cls"] != "RGPCM" and key["op"] in ("shift", "rescale", "sign", "data"):
        th = np.linspace(-1.3, 2.1, 6) * case["cfg"]["window"]
        ha, hb = seeded(lambda: post().predict_filter(conv(th), num_samples=3, min_phase=False)), seeded(lambda: post2().predict_filter(conv(th * c), num_samples=3, min_phase=False))
        hs = 1e-300 + np.max(np.abs(to_numpy(ha.all_samples)))
        m.close("predicted filter", to_numpy(hb.all_samples) * np.sqrt(c), to_numpy(ha.all_samples), rtol=1e-4, atol=0, scale=hs + np.sqrt(float(to_numpy(A().alpha_t)) ** 2), **key)


CHILD = r"""
import sys, pickle
sys.path.insert(0, sys.argv[1])
from rv import core
core.setup_repo()
import lab.jax as B
from rv.checks import c23
a = pickle.load(open(sys.argv[2], "rb"))
B.epsilon = 1e-12
pickle.dump(dict(hash=hash("gpcm"), res=[c23.program(*p) for p in a["programs"]]), open(sys.argv[3], "wb"))
"""


def program(cfg, t, seed):
    """A program using every symbolic and numerical part."""
    import jax.numpy as jnp
    import lab.jax as B

    g = np.random.RandomState(seed)
    np.random.seed(seed)
    B.set_random_seed(seed)
    out = {}
    model = gen.build(cfg)
    inst = model()
    t = np.array(t)
    y = gen.data(seed, t, cfg)
    for n in ("K_u", "K_z"):
        out[n] = to_numpy(B.dense(getattr(inst, n)))
    out["cond"] = max(np.linalg.cond(out["K_u"]), np.linalg.cond(out["K_z"]))
    T = jnp.array(t)
    out["I_hx"], out["I_ux"] = to_numpy(inst.compute_i_hx(T, T + 0.1)), to_numpy(inst.compute_I_ux(T, T[::-1]))
    out["I_hz"], out["I_uz"] = to_numpy(inst.compute_I_hz(T)), to_numpy(inst.compute_I_uz(T))
    a = inst.approximation
    a.q_u, a.q_z = gen.nat(g, inst.n_u, out["K_u"]), gen.nat(g, inst.n_z, out["K_z"])
    if model.scheme == "structured":
        a.q_u_samples = [g.randn(inst.n_u, 1) for _ in range(3)]
        a.q_z_samples = [g.randn(inst.n_z, 1) for _ in range(3)]
        kw = dict(num_samples=3)
    else:
        kw = {}
        out["elbo"] = to_numpy(model.elbo(t, y))
        model.fit(t, y, iters=4)
        out["fitted elbo"] = to_numpy(model.elbo(t, y))
    out["mean"], out["var"] = map(to_numpy, model.condition(t, y).predict(t + 0.01, **kw))
    out["kernel"] = to_numpy(model.kernel_approx(t, t, np.linalg.cholesky(out["K_u"] + 1e-12 * np.eye(inst.n_u)) @ g.randn(inst.n_u)))
    return out


def hashes(case, m):
    programs = [(c, t, (case["seed"] + i) % 2**31) for i, (c, t) in enumerate(zip(case["cfgs"], case["ts"]))]
    d = tempfile.mkdtemp(prefix="rv23")
    try:
        with open(os.path.join(d, "args"), "wb") as f:
            pickle.dump(dict(programs=programs), f)
        runs = []
        outs = [os.path.join(d, f"out{i}") for i in range(len(case["hs"]))]
        procs = []
        for h, out in zip(case["hs"], outs):
            log = open(out + ".err", "wb")
            procs.append(subprocess.Popen([sys.executable, "-c", CHILD, core.ROOT, os.path.join(d, "args"), out], stdout=subprocess.DEVNULL, stderr=log, env=dict(os.environ, PYTHONHASHSEED=str(h))))
            log.close()
        try:
            codes = [p.wait(180) for p in procs]
        finally:
            for p in procs:
                p.kill()
        for h, out, code in zip(case["hs"], outs, codes):
            if not m.check("process completes", code == 0, hashseed=h, stderr=open(out + ".err").read()[-600:]):
                return
            with open(out, "rb") as f:
                runs.append(pickle.load(f))
    finally:
        shutil.rmtree(d)
    m.event("different hashes", int(len({r["hash"] for r in runs}) > 1))
    for (cfg, t, _), a, b in zip(programs, runs[0]["res"], runs[1]["res"]):
        tol = 1e-9 + 2e-12 * a["cond"]
        if a["cond"] > 1e7:
            continue
        m.check("same quantities", set(a) == set(b))
        for n in a:
            if n != "cond":
                noise = cfg["kw"]["noise"]
                sc = np.max(np.abs(a[n])) + (0 if n[0] in "KI" else 1 + (len(t) / noise if "elbo" in n else 0))
                m.close("hash seed", b[n], a[n], rtol=tol if n[0] not in "KI" else 1e-11, atol=0, scale=sc + 1e-300, what=n, cls=cfg["cls"], hashseeds=case["hs"])
        m.state("hash", cfg["cls"], cfg["kw"]["scheme"])
