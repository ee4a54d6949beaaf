"""Workload generation shared by the checks: model configurations, data, posteriors."""
import os

import numpy as np


def r(x, n=6):
    return float(f"{x:.{n}g}")


def rlist(xs):
    return [r(x) for x in xs]


def cfg_g(rng, causal=None, small=True, style=None, scheme="structured"):
    """A GPCM/CGPCM configuration (JSON)."""
    causal = rng.random() < 0.5 if causal is None else causal
    style = style or rng.choice(["auto", "auto", "auto_n", "manual", "manual", "extend", "mixed"])
    scale = r(rng.choice([0.3, 0.5, 1.0, 2.0]) * rng.uniform(0.7, 1.4))
    window = r(scale * rng.uniform(1.2, 3.0))
    span = r(scale * rng.uniform(2.0, 5.0 if small else 8.0))
    t0 = r(rng.choice([0.0, 0.0, -span / 2, 3.7, -11.3]))
    kw = dict(scheme=scheme, noise=r(10 ** rng.uniform(-2.5, -0.3)))
    if style in ("auto", "auto_n", "extend", "mixed"):
        kw.update(window=window, scale=scale, t=[t0, r(t0 + span)])
    if style == "auto_n":
        kw.update(n_u=rng.randint(3, 9), n_z=rng.randint(3, 9))
    if style == "extend":
        kw.update(extend_t_z=True, n_u=rng.randint(3, 8), n_z=rng.randint(3, 6))
    if style == "mixed":
        kw.update(n_u=rng.randint(3, 8), n_z=rng.randint(3, 8))
        pick = rng.choice(["alpha_t", "omega", "gamma", "all"])
        if pick in ("alpha_t", "all"):
            kw["alpha_t"] = r(rng.uniform(0.3, 2.5))
        if pick in ("omega", "all"):
            kw["omega"] = r((np.pi / 4) / scale**2 * rng.uniform(0.5, 6))
        if pick in ("gamma", "all"):
            kw["gamma"] = r((np.pi / 4) / scale**2 * rng.uniform(0.2, 2))
    if style == "manual":
        alpha = (np.pi / 4) / window**2
        gamma = (np.pi / 4) / scale**2 * rng.uniform(0.3, 1.5)
        kw.update(alpha=r(alpha), gamma=r(gamma), omega=r((np.pi / 4) / (scale * rng.uniform(0.3, 0.9)) ** 2))
        if rng.random() < 0.5:
            kw["alpha_t"] = r(rng.uniform(0.3, 2.5))
        n_u, n_z = rng.randint(2, 7), rng.randint(2, 7)
        L = 2 * window
        sp = L / (n_u + 1)
        u = [(-L if not causal else -sp) + (2 * L if not causal else L + sp) * (i + rng.uniform(0.2, 0.8)) / n_u for i in range(n_u)]
        z = [t0 + span * (i + rng.uniform(0.2, 0.8)) / n_z for i in range(n_z)]
        if rng.random() < 0.4:
            rng.shuffle(u)
        if rng.random() < 0.4:
            rng.shuffle(z)
        kw.update(t_u=rlist(u), t_z=rlist(z))
    return dict(cls="CGPCM" if causal else "GPCM", kw=kw, t0=t0, span=span, scale=scale, window=window)


def cfg_r(rng, small=True, style=None, scheme="structured"):
    """An RGPCM configuration (JSON)."""
    style = style or rng.choice(["auto", "auto_n", "manual", "manual", "subset", "perm"])
    scale = r(rng.choice([0.3, 0.5, 1.0, 2.0]) * rng.uniform(0.7, 1.4))
    window = r(scale * rng.uniform(1.2, 3.0))
    span = r(scale * rng.uniform(2.0, 5.0 if small else 8.0))
    t0 = r(rng.choice([0.0, 0.0, -span / 2, 3.7, -11.3]))
    kw = dict(scheme=scheme, noise=r(10 ** rng.uniform(-2.5, -0.3)))
    m_max = rng.randint(2, 5 if small else 9)
    if style == "auto":
        kw.update(window=window, scale=scale, t=[t0, r(t0 + span)])
        if small:
            kw.update(m_max=m_max)
    elif style == "auto_n":
        kw.update(window=window, scale=scale, t=[t0, r(t0 + span)], n_u=rng.randint(3, 8), n_z=rng.randint(4, 11))
    else:
        alpha = 1 / window
        n_u = rng.randint(2, 6)
        tu_max = np.pi / alpha * rng.uniform(0.5, 1.0)
        kw.update(alpha=r(alpha), lam=r(rng.uniform(0.5, 2.0) / scale), m_max=m_max)
        if rng.random() < 0.6:
            kw["gamma"] = r(alpha * rng.uniform(0.1, 0.62))
            if rng.random() < 0.6:
                kw["gamma_t"] = r(rng.uniform(0.4, 2.0))
        if rng.random() < 0.4:
            kw["alpha_t"] = r(rng.uniform(0.3, 2.5))
        u = [0.0] + [tu_max * (i + rng.uniform(0.3, 0.9)) / (n_u - 1) for i in range(n_u - 1)]
        if "gamma" not in kw:
            u = sorted(u)
        elif rng.random() < 0.4:
            rng.shuffle(u)
        kw["t_u"] = rlist(u)
        slack = rng.choice([0.0, 0.5, 2.0])
        kw.update(a=r(t0 - max(u) * 1.0001 - slack * scale - 1e-3), b=r(t0 + span + rng.choice([1e-3, 1.0]) * scale))
        if style == "subset":
            ms = [0] + [m for m in range(1, 2 * m_max + 1) if rng.random() < 0.6]
            # Keep at least one cosine and one sine.
            if not any(0 < m <= m_max for m in ms):
                ms.append(rng.randint(1, m_max))
            if not any(m > m_max for m in ms):
                ms.append(rng.randint(m_max + 1, 2 * m_max))
            if rng.random() < 0.6:
                rng.shuffle(ms)
            kw["ms"] = ms
        if style == "perm":
            ms = list(range(2 * m_max + 1))
            rng.shuffle(ms)
            kw["ms"] = ms
    return dict(cls="RGPCM", kw=kw, t0=t0, span=span, scale=scale, window=window)


def in_units(cfg, c):
    """The same configuration with times measured in other units."""
    if c == 1:
        return cfg
    kw, g = dict(cfg["kw"]), cfg["cls"] != "RGPCM"
    p = 2 if g else 1
    power = dict(window=1, scale=1, a=1, b=1, alpha=-p, gamma=-p, omega=-2, lam=-1, alpha_t=-0.5, gamma_t=-0.5)
    for k, v in power.items():
        if kw.get(k) is not None:
            kw[k] = r(kw[k] * c**v, 9)
    for k in ("t", "t_u", "t_z"):
        if kw.get(k) is not None:
            kw[k] = [r(x * c, 9) for x in kw[k]]
    return dict(cfg, kw=kw, **{k: r(cfg[k] * c, 9) for k in ("t0", "span", "scale", "window")})


UNIT_FORCED = float(os.environ.get('RV_UNIT', 0))
UNITS = [1e-3, 0.02, 30.0, 3600.0]


def count(rng, ns):
    """A number of observations: mostly small, sometimes many, and then often next to a round number."""
    if rng.random() >= 0.15:
        return rng.choice(ns)
    return rng.choice([rng.randint(40, 600), rng.choice([64, 100, 128, 200, 256, 500, 512]) + rng.choice([-1, 0, 1])])


def build(cfg, **over):
    """Construct the gpcm model of a configuration."""
    import gpcm

    kw = dict(cfg["kw"], **over)
    for k in ("t_u", "t_z", "ms"):
        if kw.get(k) is not None:
            kw[k] = np.array(kw[k])
    return getattr(gpcm, cfg["cls"])(**kw)


def times(rng, cfg, n):
    """Observation times inside the span of interest; sometimes unsorted or repeated."""
    t = [cfg["t0"] + cfg["span"] * rng.random() for _ in range(n)]
    t = sorted(t)
    style = rng.choice(["sorted", "sorted", "shuffled", "repeat"])
    if style == "shuffled":
        rng.shuffle(t)
    if style == "repeat" and n > 1:
        t[1] = t[0]
    return rlist(t)


def data(seed, t, cfg):
    """Some smooth-plus-noise observations of order one."""
    g = np.random.RandomState(seed % 2**32)
    t = np.asarray(t, float)
    y = np.zeros(len(t))
    for _ in range(3):
        y = y + g.randn() * np.sin(2 * np.pi * g.uniform(0.1, 0.6) / cfg["scale"] * (t - cfg["t0"]) + g.uniform(0, 6.28))
    y = 0.7 * y + 0.2 * g.randn(len(t))
    if cfg.get("amp") or AMPLITUDE:
        # Other units of observations, also not centred.
        y = y * g.choice([0.03, 25.0]) + g.choice([0.0, 6.0])
    return y


AMPLITUDE = float(os.environ.get("RV_AMPLITUDE", 0))


def nat(g, n, K=None, spread=1.0):
    """Random natural parameters: precision comparable to ``K`` (or identity) plus PSD."""
    from gpcm.normal import NaturalNormal
    import jax.numpy as jnp

    A = g.randn(n, n)
    base = np.eye(n) if K is None else np.asarray(K)
    P = base + spread * (A @ A.T) / n + 0.1 * np.eye(n)
    P = (P + P.T) / 2
    lam = g.randn(n, 1) * spread
    return NaturalNormal(jnp.array(lam), jnp.array(P))


def model_key(cfg):
    kw = cfg["kw"]
    return cfg["cls"] + ":" + ",".join(sorted(k for k in kw if k not in ("noise", "scheme")))


def perturb(model, g, size=0.08):
    """Move all parameters of an instantiated model a little, inside their constraints."""
    vs = model.vs
    for n in vs.names:
        v = np.asarray(vs[n])
        if "q_" in n or "t_u" in n or "t_z" in n:
            continue
        f = v * np.exp(size * g.randn(*v.shape))
        vs.assign(n, np.maximum(f, 1.05) if "gamma_factor" in n else f)


NOISE = float(os.environ.get('RV_NOISE', 0))
LARGE = float(os.environ.get('RV_LARGE', 0.07))


def cfg_large(rng, cls, scheme="structured"):
    """A model of the size that users have: tens of inducing points."""
    scale = r(rng.uniform(0.5, 1.5))
    window = r(scale * rng.uniform(4, 6))
    span = r(scale * rng.uniform(15, 20) * (1 if cls != "RGPCM" else 0.7))
    t0 = r(rng.choice([0.0, 3.7, -11.3]))
    kw = dict(scheme=scheme, noise=r(10 ** rng.uniform(-2.5, -0.3)), window=window, scale=scale, t=[t0, r(t0 + span)])
    return dict(cls=cls, kw=kw, t0=t0, span=span, scale=scale, window=window, large=True)


def cfg_any(rng, cls, large=LARGE, **kw):
    large = kw.get("style") == "large" or (kw.get("style") is None and rng.random() < large)
    if large:
        cfg = cfg_large(rng, cls, **{k: v for k, v in kw.items() if k == "scheme"})
    else:
        cfg = cfg_r(rng, **kw) if cls == "RGPCM" else cfg_g(rng, causal=cls == "CGPCM", **kw)
    if rng.random() < max(0.15, abs(NOISE)):
        # With less noise, the comparisons measure the conditioning of the posteriors.
        cfg["kw"]["noise"] = r(10 ** rng.choice([rng.uniform(-3.3, -2.5)] * (NOISE <= 0) + [rng.uniform(0, 2)] * (NOISE >= 0)))
    return in_units(cfg, UNIT_FORCED or (rng.choice(UNITS) if rng.random() < 0.25 else 1))


def admissible(cfg, R, t):
    """Whether times are inside the RGPCM's range."""
    if cfg["cls"] != "RGPCM":
        return True
    t = np.asarray(t)
    return t.min() - R.t_u.max() >= R.a - 1e-9 and t.max() <= R.b + 1e-9


def setup(case, raw=False, max_cond=1e7, perturb_it=False):
    """Build the case's model and reference; skips configurations outside a comparison's range."""
    from . import ref
    from .core import Skip

    g = np.random.RandomState(case["seed"] % 2**32)
    model = build(case["cfg"])
    if perturb_it:
        model()
        perturb(model, g)
    inst = model()
    R = ref.from_model(inst)
    cu, cz = np.linalg.cond(R.K_u()), np.linalg.cond(R.K_z())
    if max(cu, cz) > max_cond:
        raise Skip(f"ill-conditioned {cu:.1e} {cz:.1e}")
    if case["cfg"]["cls"] == "RGPCM":
        if abs(R.lam - (R.alpha - R.gamma)) < 0.02 * R.lam:
            raise Skip("close to the singularity of C02")
    for k in ("t", "t2", "x"):
        if k in case and not admissible(case["cfg"], R, case[k]):
            raise Skip("times outside the basis")
    return g, model, inst, R


def cfg_ok(rng, cls, tries=200, **kw):
    """A configuration whose covariances are comfortably conditioned."""
    for _ in range(tries):
        cfg = cfg_any(rng, cls, **kw)
        if cfg.get("large"):
            return cfg
        k = cfg["kw"]
        if cls != "RGPCM":
            # Spacing of the inducing points against the length scales.
            if "t_u" in k:
                u = sorted(k["t_u"])
                gap = min(b - a for a, b in zip(u, u[1:]))
                if gap * np.sqrt(k["gamma"]) < 0.35:
                    continue
                z = sorted(k["t_z"])
                gap = min(b - a for a, b in zip(z, z[1:]))
                if gap * np.sqrt(k["omega"]) < 0.5:
                    continue
            else:
                nu = k.get("n_u") or int(np.ceil(4 * cfg["window"] / cfg["scale"]))
                L = 2 * cfg["window"] * (2 if cls == "GPCM" else 1)
                if L / nu < 0.35 * cfg["scale"] or nu > 14:
                    continue
        return cfg
    return cfg
