"""RGPCM covariances against quadrature of their defining integrals."""
import numpy as np

from .. import gen, ref
from ..core import Skip

PROPERTY = "C02"
RULE = ("A case is a random RGPCM configuration (automatic or manual decays, supports, inducing locations, full, "
        "permuted or subset basis frequencies; constructed, instantiated or perturbed parameters) with random "
        "admissible times; every compute_* method in every combination of given/omitted times is compared with "
        "Gauss-Legendre quadrature that splits at all kinks.  Non-trivial: at least one integral compared.")
ASSUMPTIONS = ["times t satisfy a <= t - max(t_u) and t <= b, the domain the code documents",
               "the excitation decay is not within 2% of (window decay - transform decay), where the closed form divides by zero"]
BUDGET = {"quick": 60, "thorough": 900}
MANDATORY = 40


def cases(rng, tier):
    n = 56 if tier == "quick" else 800
    styles = ["auto", "auto_n", "manual", "subset", "perm", "subset", "manual", "large"]
    for i in range(n):
        cfg = gen.cfg_any(rng, "RGPCM", style=styles[i % len(styles)])
        fr = [rng.choice([0.0, 1.0, rng.random(), rng.random()]) for _ in range(rng.choice([1, 3, 4]))]
        yield dict(kind=["raw", "instance", "perturbed"][(i // 2) % 3], cfg=cfg, fr=gen.rlist(fr),
                   t1=gen.rlist([(far := rng.choice([0, 0, rng.uniform(-1500, 1500)]) * cfg["window"]) + rng.uniform(-2, 2) * cfg["window"] for _ in range(2)]),
                   t2=gen.rlist([far + rng.uniform(-2, 2) * cfg["window"] for _ in range(3)]))
    # The removable singularity of the filter/excitation integral.
    yield dict(kind="singular", cfg=dict(cls="RGPCM", kw=dict(alpha=1.0, gamma=0.5, lam=0.5, t=[0.0, 3.0], m_max=3, n_u=4),
                                         t0=0.0, span=3.0, scale=1.0, window=1.0), fr=[0.5], t1=[0.3, 0.6], t2=[0.1, 0.2, 0.5], must=True)


def run(case, m):
    g = np.random.RandomState(case["seed"] % 2**32)
    model = gen.build(case["cfg"])
    if case["kind"] == "singular":
        R = ref.from_model(model)
        m.close("I_ux/singular", model.compute_I_ux(), R.I_ux(), rtol=1e-8, key="lam=alpha-gamma")
        m.state("singular")
        return
    if case["kind"] != "raw":
        inst = model()
        if case["kind"] == "perturbed":
            vs = model.vs
            for n in vs.names:
                v = np.asarray(vs[n])
                if "q_" in n or "t_u" in n:
                    continue
                f = v * np.exp(0.08 * g.randn(*v.shape))
                vs.assign(n, np.maximum(f, 1.05) if "gamma_factor" in n else f)
            inst = model()
        model = inst
        import jax.numpy as jnp

        jt = jnp.array
    else:
        jt = np.array
    R = ref.from_model(model)
    lo, hi = R.a + max(R.t_u.max(), 0), R.b
    if hi <= lo:
        raise Skip("no admissible times")
    t = np.array([lo + f * (hi - lo) for f in case["fr"]])
    # Keep rounding of the end points inside.
    t = np.clip(t, lo, hi)
    t1, t2 = np.array(case["t1"]), np.array(case["t2"])
    dg = abs(R.lam - (R.alpha - R.gamma)) / R.lam
    key = dict(kind=case["kind"])
    tol = dict(rtol=1e-8, atol=1e-13)
    m.close("K_u", model.compute_K_u(), R.K_u(), **tol, **key)
    m.close("K_z", model.compute_K_z(), R.K_z(), **tol, **key)
    z = np.zeros(())
    m.close("i_hx/default", model.compute_i_hx(), R.i_hx(z, z), **tol, **key)
    m.close("i_hx/t1", model.compute_i_hx(jt(t1)), R.i_hx(t1, 0 * t1), **tol, **key)
    m.close("i_hx/t2", model.compute_i_hx(t2=jt(t2)), R.i_hx(0 * t2, t2), **tol, **key)
    m.close("i_hx/grid", model.compute_i_hx(jt(t1[:, None]), jt(t2[None, :])), R.i_hx(t1[:, None], t2[None, :]), **tol, **key)
    m.close("i_hx/pair", model.compute_i_hx(jt(t), jt(t)), R.i_hx(t, t), **tol, **key)
    if dg > 0.02:
        s = dict(rtol=1e-8 / min(dg, 1.0), atol=1e-13)
        m.close("I_ux/default", model.compute_I_ux(), R.I_ux(), **s, **key)
        m.close("I_ux/both", model.compute_I_ux(jt(t1), jt(t2)), R.I_ux(t1, t2), **s, **key)
        m.close("I_ux/t1", model.compute_I_ux(jt(t1)), R.I_ux(t1), **s, **key)
        m.close("I_ux/t2", model.compute_I_ux(t2=jt(t2)), R.I_ux(None, t2), **s, **key)
    m.close("I_hz", model.compute_I_hz(jt(t)), R.I_hz(t), **tol, **key)
    m.close("I_uz", model.compute_I_uz(jt(t)), R.I_uz(t), **tol, **key)
    m.state(case["kind"], gen.model_key(case["cfg"]), len(R.ms), R.m_max, len(t))
    if case["kind"] != "raw":
        m.close("K_u/stored", model.K_u, R.K_u(), **tol, **key)
        m.close("K_z/stored", model.K_z, R.K_z(), **tol, **key)
