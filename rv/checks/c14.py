"""Monitors on the parameter container around real fits of every scheme."""
import numpy as np

from .. import core, gen
from ..core import to_numpy

PROPERTY = "C14"
RULE = ("A case fits one of the three models with one of the documented schemes (and combinations of fixed noise, window and scale, explicit "
        "parameters, data of several sizes and magnitudes, short budgets; also a second fit after conditioning).  The container is recorded "
        "before and after: fixed values and declared names, positivity, bounds and finiteness, posteriors of earlier conditioning steps, which "
        "hyperparameters may move under the scheme, and the ELBO at the start and at the end.  Non-trivial: a fit completed and judged.")
ASSUMPTIONS = ["budgets of at most 60 iterations in the quick tier and 500 in the thorough one", "covariances of the starting point with condition number at most 1e7"]
BUDGET = {"quick": 110, "thorough": 900}
MANDATORY = 30
MIN_CASES = 24
CASE_TIMEOUT = 240
SCHEMES = ["structured", "mean-field-gradient", "mean-field-collapsed-gradient", "mean-field", "mean-field-ca", "mean-field-ca-gradient", "mean-field-ca-collapsed-gradient",
           "structured int", "structured fixed"]


def cases(rng, tier):
    yield dict(kind="unknown", must=True)
    out = []
    reps = 1 if tier == "quick" else 12
    for rep in range(reps):
        for cls in ("RGPCM", "CGPCM", "GPCM"):
            for s in SCHEMES:
                scheme = s.split(" ")[0]
                cfg = gen.cfg_ok(rng, cls, scheme=scheme, large=gen.LARGE if tier != 'quick' else 0)
                for f in ("fix_noise", "fix_window", "fix_scale"):
                    if rng.random() < 0.4:
                        cfg["kw"][f] = True
                if rng.random() < 0.2:
                    cfg["kw"]["scheme"] = scheme.upper() if rng.random() < 0.5 else scheme.title()
                big = tier == "thorough" and rng.random() < 0.3
                out.append(dict(kind="fit", cfg=cfg, style=s, t=gen.times(rng, cfg, rng.choice([1, 2, 4, 9])), t2=gen.times(rng, cfg, rng.choice([1, 3])),
                                iters=rng.choice([15, 30, 60]) if not big else rng.choice([100, 500]), amp=rng.choice([1.0, 1.0, 1e-2, 30.0]), np=rng.random() < 0.5,
                                twice=("mean-field" in s and rng.random() < (0.35 if tier == "quick" else 0.6)), warm=rng.random() < 0.3, must=True, epsilon=1e-12))
    # The slowest compilations first.
    out.sort(key=lambda c: (c["cfg"]["cls"] != "RGPCM", c["style"] not in ("structured", "structured int")))
    yield from out


HYPERS = ("noise", "alpha", "alpha_t", "gamma", "lambda", "omega", "gamma_factor", "t_u", "t_z")


def container(model):
    return {n: to_numpy(model.vs[n]).copy() for n in model.vs.names}


def run(case, m):
    import gpcm

    if case["kind"] == "unknown":
        for cls in ("GPCM", "CGPCM", "RGPCM"):
            for bad in ("", "structure", "mean-field-bfgs", "ca", "gradient", "mean field", "mean-field-ca-collapsed", "structured-gradient", "none"):
                m.raises("unknown scheme", ValueError, lambda: getattr(gpcm, cls)(scheme=bad, window=2.0, scale=1.0, t=(0.0, 3.0), n_u=3)(), scheme=bad)
        m.state("unknown")
        return

    import jax.numpy as jnp

    g = np.random.RandomState(case["seed"] % 2**32)
    np.random.seed(case["seed"] % 2**32)
    cfg, style = case["cfg"], case["style"]
    model = gen.build(cfg)
    inst = model()
    if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e7:
        raise core.Skip("ill-conditioned")
    t = np.array(case["t"])
    y = case["amp"] * gen.data(case["seed"], t, cfg)
    conv = (lambda v: v) if case["np"] else jnp.array
    key = dict(cls=cfg["cls"], style=style, fixed=sorted(k for k in cfg["kw"] if k.startswith("fix_")))
    scheme = model.scheme
    fixed = {k: float(to_numpy(getattr(inst, a))) for k, a in (("noise", "noise"), ("alpha", "alpha"), ("lambda" if cfg["cls"] == "RGPCM" else "gamma", "lam" if cfg["cls"] == "RGPCM" else "gamma"))
             if cfg["kw"].get({"noise": "fix_noise", "alpha": "fix_window"}.get(k, "fix_scale"))}
    lim = limits(inst, cfg)
    tu0 = to_numpy(inst.t_u)
    # Starting point.
    inst.approximation.q_u, inst.approximation.q_z
    if case["warm"]:
        inst.approximation.q_u = gen.nat(g, inst.n_u, to_numpy(inst.K_u))
        inst.approximation.q_z = gen.nat(g, inst.n_z, to_numpy(inst.K_z))
    mf = scheme != "structured"
    before = container(model)
    elbo = lambda mod, tt, yy: float(mod.elbo(conv(tt), conv(yy)))
    if mf:
        e0 = elbo(model, t, y)
        e0z = float(model.elbo(conv(t), conv(y), collapsed="z"))
    kw = dict(iters=case["iters"])
    if style == "structured int":
        kw.update(optimise_hypers=int(g.choice([1, 3])), num_samples=int(g.choice([1, 2])))
    if style == "structured fixed":
        kw.update(optimise_hypers=False)
    ty = (t.copy(), y.copy())
    model.fit(conv(t), conv(y), **kw)
    m.check("data unmodified", np.array_equal(t, ty[0]) and np.array_equal(y, ty[1]), **key)
    after = container(model)
    judge(m, model, before, after, fixed, lim, key)
    moved = [n for n in before if n in HYPERS and np.max(np.abs(after[n] - before[n])) > 1e-9 * np.max(np.abs(before[n]))]
    if style in ("structured fixed", "mean-field-ca"):
        m.check("hyperparameters untouched", not moved, moved=moved, **key)
    else:
        m.check("hyperparameters learned", len(moved) > 0, **key)
        for n in ("noise", "alpha_t"):
            if n in before and case["amp"] == 1.0 and len(t) > 1:
                m.check("learned", n in moved, name=n, **key)
    if mf:
        for q in ("q_u", "q_z"):
            n = [x for x in before if q in x and "lam" in x]
            m.check("posterior learned", n and all(np.max(np.abs(after[x] - before[x])) > 0 for x in n), q=q, **key)
        e1 = elbo(model, t, y)
        s = 1e-8 * (abs(e0) + abs(e1) + 1)
        m.le("elbo improves", e0, e1, slack=s, **key)
        if "collapsed" in style or style == "mean-field":
            m.le("collapsed elbo improves", e0z, e1, slack=1e-8 * (abs(e0z) + abs(e1) + 1), **key)
            # The collapsed factor is left at its optimum.
            ez = float(model.elbo(conv(t), conv(y), collapsed="z"))
            if style == "mean-field-collapsed-gradient":
                m.close("collapsed factor optimal", ez, e1, rtol=1e-7, atol=1e-7, **key)
        if "gradient" in style or style == "mean-field":
            m.le("elbo improves strictly", e0, e1, slack=-1e-7, **key)
    else:
        U, Z = to_numpy(model().approximation.q_u_samples), to_numpy(model().approximation.q_z_samples)
        m.check("samples stored", U.shape == (inst.n_u, 1000) and Z.shape == (inst.n_z, 1000) and np.all(np.isfinite(U)) and np.all(np.isfinite(Z)), u=U.shape, z=Z.shape, **key)
    mean, var = model.condition(conv(t), conv(y)).predict(conv(t), **({} if mf else dict(num_samples=3)))
    m.check("usable", np.all(np.isfinite(mean)) and np.all(np.asarray(var) > 0), **key)
    m.state(cfg["cls"], style, *key["fixed"], case["twice"])
    m.event("fits")
    if case["twice"]:
        second(case, m, model, g, conv, t, y, fixed, key)


def limits(inst, cfg):
    """Documented limits of the bounded inducing locations."""
    u = to_numpy(inst.t_u)
    if cfg["cls"] == "RGPCM":
        return -1e-4, 1.5 * u.max()
    return min(1.5 * u.min(), -1e-4), max(1.5 * u.max(), 1e-4)


def judge(m, model, before, after, fixed, lim, key, again=False):
    new = {n for n in set(after) - set(before) if "samples" not in n}
    m.check("names kept", set(before) <= set(after) and (again or not new), added=sorted(new), lost=sorted(set(before) - set(after)), **key)
    inst = model()
    for n, v in after.items():
        m.check("finite", np.all(np.isfinite(v)), name=n, **key)
    for n in ("noise", "alpha", "alpha_t", "gamma", "lambda", "omega"):
        if n in after:
            m.check("positive", np.all(after[n] > 0), name=n, value=after[n], **key)
    sp = lim[1] - lim[0]
    m.check("locations bounded", np.all(after["t_u"] >= lim[0] - 1e-9 * sp) and np.all(after["t_u"] <= lim[1] + 1e-9 * sp), t_u=after["t_u"], lim=lim, **key)
    if hasattr(inst, "lam"):
        m.check("transform decay below window decay", 0 < float(inst.gamma) < float(inst.alpha), gamma=float(inst.gamma), alpha=float(inst.alpha), **key)
    for n, v in fixed.items():
        a = dict(noise="noise", alpha="alpha", gamma="gamma").get(n, "lam")
        m.check("fixed kept", n not in after and float(to_numpy(getattr(inst, a))) == v, name=n, was=v, now=float(to_numpy(getattr(inst, a))), **key)
        m.check("fixed kept on the model", float(to_numpy(getattr(model, a))) == v, name=n, **key)
    # What an instance uses is what the container holds.
    for n, a in (("noise", "noise"), ("alpha", "alpha"), ("alpha_t", "alpha_t"), ("gamma", "gamma"), ("lambda", "lam"), ("omega", "omega"), ("t_u", "t_u"), ("t_z", "t_z")):
        if n in after:
            m.close("used", to_numpy(getattr(inst, a)), after[n], rtol=1e-12, atol=0, name=n, **key)


def second(case, m, model, g, conv, t, y, fixed, key):
    """Condition, then fit the posterior to more data."""
    t2 = np.array(case["t2"])
    y2 = case["amp"] * gen.data(case["seed"] + 1, t2, case["cfg"])
    post = model.condition(conv(t), conv(y))
    a = model().approximation
    prior_u, prior_z = [to_numpy(x).copy() for x in (a.q_u.lam, a.q_u.prec)], [to_numpy(x).copy() for x in (a.q_z.lam, a.q_z.prec)]
    inst = post()
    inst.approximation.q_u, inst.approximation.q_z
    before = container(post)
    e0 = float(post.elbo(conv(t2), conv(y2)))
    post.fit(conv(t2), conv(y2), iters=min(case["iters"], 30))
    after = container(post)
    judge(m, post, before, after, fixed, (-np.inf, np.inf), dict(key, step=2), again=True)
    e1 = float(post.elbo(conv(t2), conv(y2)))
    m.le("second/elbo improves", e0, e1, slack=1e-8 * (abs(e0) + abs(e1) + 1), **key)
    a = model().approximation
    for n, x, w in (("u lam", a.q_u.lam, prior_u[0]), ("u prec", a.q_u.prec, prior_u[1]), ("z lam", a.q_z.lam, prior_z[0]), ("z prec", a.q_z.prec, prior_z[1])):
        m.close("earlier posterior untouched", to_numpy(x), w, rtol=1e-12, atol=0, what=n, **key)
    p = post().approximation
    m.close("prior is the earlier posterior", to_numpy(p.p_u.prec), prior_u[1], rtol=1e-12, atol=0, **key)
    moved = np.max(np.abs(to_numpy(p.q_u.lam) - before[[n for n in before if "q_u" in n and "lam" in n][-1]])) > 0
    m.check("second posterior learned", moved, **key)
    m.event("second fits")
