"""GPCM/CGPCM covariances against quadrature of their defining integrals."""
import numpy as np

from .. import gen, ref

PROPERTY = "C01"
RULE = ("A case is a random GPCM/CGPCM configuration (automatic, manual, extended, mixed placement; constructed, "
        "instantiated or perturbed parameters) with random time vectors; every compute_* method is called in every "
        "combination of given/omitted times and compared with Gauss-Legendre quadrature.  Non-trivial: at least one "
        "integral compared.")
ASSUMPTIONS = ["exponents at inducing points and times stay within about 12 filter/transform length scales"]
BUDGET = {"quick": 60, "thorough": 900}
MANDATORY = 40


def cases(rng, tier):
    n = 64 if tier == "quick" else 900
    styles = ["auto", "auto_n", "manual", "extend", "mixed", "manual", "auto_n", "large"]
    for i in range(n):
        cfg = gen.cfg_any(rng, "CGPCM" if i % 2 else "GPCM", style=styles[(i // 2) % len(styles)])
        kind = ["raw", "instance", "perturbed"][i % 3]
        t = [gen.r(cfg["t0"] + cfg["span"] * rng.uniform(-0.6, 1.6)) for _ in range(rng.choice([1, 3, 4]))]
        if rng.random() < 0.3 and len(t) > 1:
            t[1] = t[0]
        yield dict(kind=kind, cfg=cfg, t=t,
                   t1=gen.rlist([rng.uniform(-2, 2) * cfg["window"] for _ in range(2)]),
                   t2=gen.rlist([rng.uniform(-2, 2) * cfg["window"] for _ in range(3)]))


def get_model(case, g):
    model = gen.build(case["cfg"])
    if case["kind"] == "raw":
        return model
    inst = model()
    if case["kind"] == "perturbed":
        vs = model.vs
        for n in vs.names:
            v = np.asarray(vs[n])
            if "q_" in n or "t_z" in n:
                continue
            vs.assign(n, v * np.exp(0.08 * g.randn(*v.shape)))
        inst = model()
    return inst


def run(case, m):
    g = np.random.RandomState(case["seed"] % 2**32)
    model = get_model(case, g)
    R = ref.from_model(model)
    c = case["cfg"]["cls"]
    key = dict(cls=c, kind=case["kind"])
    t = np.array(case["t"])
    t1, t2 = np.array(case["t1"]), np.array(case["t2"])
    if case["kind"] != "raw":
        import jax.numpy as jnp

        jt = jnp.array
    else:
        jt = np.array
    tol = dict(rtol=1e-8, atol=1e-13)
    m.close("K_u", model.compute_K_u(), R.K_u(), **tol, **key)
    m.close("K_z", model.compute_K_z(), R.K_z(), **tol, **key)
    z = np.zeros(())
    m.close("i_hx/default", model.compute_i_hx(), R.i_hx(z, z), **tol, **key)
    m.close("i_hx/t1", model.compute_i_hx(jt(t1)), R.i_hx(t1, 0 * t1), **tol, **key)
    m.close("i_hx/t2", model.compute_i_hx(t2=jt(t2)), R.i_hx(0 * t2, t2), **tol, **key)
    m.close("i_hx/grid", model.compute_i_hx(jt(t1[:, None]), jt(t2[None, :])), R.i_hx(t1[:, None], t2[None, :]), **tol, **key)
    m.close("i_hx/pair", model.compute_i_hx(jt(t), jt(t)), R.i_hx(t, t), **tol, **key)
    m.close("I_ux/default", model.compute_I_ux(), R.I_ux(), **tol, **key)
    m.close("I_ux/both", model.compute_I_ux(jt(t1), jt(t2)), R.I_ux(t1, t2), **tol, **key)
    m.close("I_ux/t1", model.compute_I_ux(jt(t1)), R.I_ux(t1), **tol, **key)
    m.close("I_ux/t2", model.compute_I_ux(t2=jt(t2)), R.I_ux(None, t2), **tol, **key)
    m.close("I_hz", model.compute_I_hz(jt(t)), R.I_hz(t), **tol, **key)
    m.close("I_uz", model.compute_I_uz(jt(t)), R.I_uz(t), **tol, **key)
    m.state(c, case["kind"], gen.model_key(case["cfg"]), len(t), R.t_u.size, R.t_z.size)
    if case["kind"] != "raw":
        # What inference uses must be what the methods compute.
        m.close("K_u/stored", model.K_u, R.K_u(), **tol, **key)
        m.close("K_z/stored", model.K_z, R.K_z(), **tol, **key)
