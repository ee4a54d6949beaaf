"""Constructed models against the documented placement and sizing rules."""
import warnings

import numpy as np

from ..core import to_numpy

PROPERTY = "C21"
RULE = ("A case is a combination of constructor keywords (window/scale or explicit decays, explicit or requested or automatic inducing point "
        "numbers and locations, caps, extension, data as list, tuple, array in any order) for one of the three models; the constructed and "
        "the instantiated model are compared with the documented rules, with the prior kernel they imply, and with the construction for "
        "shifted and rescaled time.  Warnings are recorded.  Non-trivial: a construction judged.")
ASSUMPTIONS = ["numbers of points are compared up to rounding of the ratio they are computed from",
               "extension is judged for automatically placed inducing points only"]
BUDGET = {"quick": 50, "thorough": 400}
MANDATORY = 60
MIN_CASES = 60


def r(x):
    return float(f"{x:.6g}")


def cases(rng, tier):
    n = 240 if tier == "quick" else 6000
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        scale = r(10 ** rng.uniform(-1.5, 1.5))
        window = r(scale * 10 ** rng.uniform(0.1, 1.2))
        span = r(scale * 10 ** rng.uniform(0.3, 1.6))
        big = rng.random() < 0.12
        c = dict(cls=cls, window=window, scale=scale, t0=r(rng.choice([0.0, 1.0, -1.0, 100.0]) * span * rng.random()), span=r(span * (20 if big else 1)), n_t=rng.choice([2, 2, 3, 30]),
                 form=rng.choice(["tuple", "list", "array", "jax", "int"]), order=rng.choice(["sorted", "reversed", "shuffled"]), kw={})
        k = c["kw"]
        if rng.random() < 0.4:
            k["n_u"] = rng.choice([2, 3, 4, 5, 8, 9, 40])
        if rng.random() < 0.4:
            k["n_z"] = rng.choice([2, 3, 4, 7, 8, 31])
        if rng.random() < 0.3:
            k["n_u_cap"] = rng.choice([3, 6, 400])
        if rng.random() < 0.3:
            k["m_max_cap" if cls == "RGPCM" else "n_z_cap"] = rng.choice([3, 7, 500])
        if rng.random() < 0.3:
            k["extend_t_z"] = True
        if rng.random() < 0.3:
            k["noise"] = r(10 ** rng.uniform(-4, 0))
        for name, val in (("alpha_t", rng.uniform(0.3, 3)), ("fix_noise", True), ("fix_window", True), ("fix_scale", True)):
            if rng.random() < 0.25:
                k[name] = r(val) if val is not True else True
        if rng.random() < 0.3:
            k["alpha"] = r(1 / window) if cls == "RGPCM" else r(0.8 / window**2)
        if cls == "RGPCM":
            for name, val in (("lam", 0.7 / scale), ("gamma", 0.4 / window), ("gamma_t", 1.3), ("a", c["t0"] - 5 * window), ("b", c["t0"] + c["span"] + 1), ("m_max", 6)):
                if rng.random() < 0.2:
                    k[name] = r(val) if name != "m_max" else val
            if rng.random() < 0.15 and "m_max" in k:
                k["ms"] = [0, 3, 1, 7, 12]
            if rng.random() < 0.2:
                k["t_u"] = [0.0, r(0.3 * window), r(1.1 * window)]
        else:
            for name, val in (("gamma", 0.9 / scale**2), ("omega", 2 / scale**2)):
                if rng.random() < 0.2:
                    k[name] = r(val)
            if rng.random() < 0.2:
                k["t_u"] = [r(-0.2 * window), 0.0, r(0.4 * window), r(1.0 * window)]
            if rng.random() < 0.2:
                k["t_z"] = [r(c["t0"] + c["span"] * x) for x in (0.1, 0.3, 0.8)]
        # Caps next to the number they apply to.
        if rng.random() < 0.35:
            k.pop("n_u", None)
            k["n_u_cap"] = max(int(np.ceil(4 * window / scale)) + rng.choice([-1, 0, 1]), 2)
        if rng.random() < 0.35:
            k.pop("n_z", None)
            c["form"] = "array"
            if cls == "RGPCM":
                for name in ("alpha", "a", "b", "t_u", "m_max", "ms"):
                    k.pop(name, None)
                k["m_max_cap"] = int(np.ceil((c["span"] + np.pi * window) / scale)) + rng.choice([-1, 0, 1])
            else:
                k["n_z_cap"] = max(int(np.ceil(2 * c["span"] / scale)) + rng.choice([-1, 0, 1]), 3)
        c["inst"] = rng.random() < 0.5
        yield c


def times(case, g):
    t = np.concatenate([[case["t0"], case["t0"] + case["span"]], case["t0"] + case["span"] * g.rand(case["n_t"] - 2)])
    if case["form"] == "int":
        t = np.concatenate([[np.floor(t[0]), np.ceil(t[1])], t[2:].astype(int)]).astype(int)
    t = np.sort(t) if case["order"] == "sorted" else (np.sort(t)[::-1] if case["order"] == "reversed" else g.permutation(t))
    return t


def wrap(t, form):
    import jax.numpy as jnp

    return dict(tuple=tuple, list=list, array=np.array, jax=jnp.array, int=lambda x: [int(i) for i in x])[form](t)


def construct(case, t, form=None, **over):
    import gpcm

    kw = dict(window=case["window"], scale=case["scale"], **case["kw"])
    kw.update(over)
    for n in ("t_u", "t_z", "ms"):
        if n in kw:
            kw[n] = np.array(kw[n])
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        mod = getattr(gpcm, case["cls"])(t=wrap(t, form or case["form"]), **kw)
    return mod, [x for x in w if issubclass(x.category, UserWarning)]


def ceils(x):
    """Possible ceilings of a number known up to rounding."""
    return {int(np.ceil(x * (1 - 1e-12))), int(np.ceil(x * (1 + 1e-12)))}


def run(case, m):
    import gpcm.gpcm as G
    import jax.numpy as jnp

    g = np.random.RandomState(case["seed"] % 2**32)
    t = times(case, g)
    lo, hi = float(np.min(t)), float(np.max(t))
    k, cls = case["kw"], case["cls"]
    W, S = case["window"], case["scale"]
    t_before = np.array(t)
    mod, warned = construct(case, t)
    m.check("input unmodified", np.array_equal(t, t_before))
    key = dict(cls=cls, kw=k, window=W, length=S)
    m.state(cls, ",".join(sorted(k)), case["form"], case["order"], case["n_t"])
    c = lambda name, got, want, **o: m.close(name, to_numpy(got), np.asarray(want, float), rtol=o.get("rtol", 1e-10), atol=0, scale=o.get("scale"), **key)
    m.check("name", mod.name == cls and mod.causal == (cls != "GPCM"), **key)
    # Length scale conversion.
    xs = np.exp(g.randn(5) * 3)
    c("conversion", G.scale_to_factor(xs), np.pi / (4 * xs**2))
    c("conversion inverse", G.factor_to_scale(G.scale_to_factor(jnp.array(xs))), xs)

    # Hyperparameters.
    smooth = cls != "RGPCM"
    alpha = k.get("alpha", np.pi / (4 * W**2) if smooth else 1 / W)
    w = np.sqrt(np.pi / (4 * alpha)) if smooth else 1 / alpha  # effective window
    c("alpha", mod.alpha, alpha)
    norm = dict(GPCM=(2 * alpha / np.pi) ** 0.25, CGPCM=(8 * alpha / np.pi) ** 0.25, RGPCM=np.sqrt(2 * alpha))[cls]
    c("alpha_t", mod.alpha_t, k.get("alpha_t", norm))
    c("noise", mod.noise, k.get("noise", 5e-2))
    c("extent", mod.extent, 4 * w)
    if smooth:
        c("gamma", mod.gamma, k.get("gamma", np.pi / (4 * S**2) - alpha / 2))
    else:
        c("lam", mod.lam, k.get("lam", 1 / S))

    # Filter inducing points.
    t_u = to_numpy(mod.t_u)
    expected_warnings = 0
    if "t_u" in k:
        c("t_u explicit", t_u, k["t_u"])
        m.check("n_u", mod.n_u == len(k["t_u"]) if "n_u" not in k else True, n_u=mod.n_u, **key)
    else:
        if "n_u" in k:
            ns = {k["n_u"]}
        else:
            ns = ceils(4 * W / S)
            cap = k.get("n_u_cap", 300)
            if max(ns) > cap:
                if min(ns) > cap:
                    expected_warnings += 1
                ns = {min(n, cap) for n in ns}
        top = 2 * w if smooth else np.pi * w
        if cls == "GPCM":
            ns = {n + 1 if n % 2 == 0 else n for n in ns}
            ends = lambda n: (-top, top)
        elif cls == "CGPCM":
            ends = lambda n: (-2 * top / (n - 3), top)
            ns = {n + 2 for n in ns}
        else:
            ends = lambda n: (0, top)
        m.check("n_u", mod.n_u == len(t_u) and len(t_u) in ns, got=len(t_u), want=sorted(ns), **key)
        if len(t_u) > (3 if cls == "CGPCM" else 1):
            a, b = ends(len(t_u))
            c("t_u", t_u, np.linspace(a, b, len(t_u)))
            if cls == "GPCM":
                m.check("origin", np.min(np.abs(t_u)) < 1e-9 * w, **key)
            decay = np.exp(-alpha * t_u[-1] ** (2 if smooth else 1))
            c("filter covered", decay, np.exp(-np.pi))
            # Resolution: at least two per scale over each side.
            if "n_u" not in k and not expected_warnings and "alpha" not in k:
                m.le("t_u resolution", np.max(np.diff(t_u)), (1.0 if smooth else np.pi / 2) * S * (1 + 1 / max(len(t_u) - 3, 1)) * 1.34, **key)

    # Excitation inducing variables.
    if smooth:
        expected_warnings += excitation_smooth(case, m, mod, lo, hi, w, c, key)
    else:
        expected_warnings += excitation_rough(case, m, mod, lo, hi, t_u, alpha, c, key)
    amb = ceils(4 * W / S) != {int(np.ceil(4 * W / S))}
    m.check("warnings", amb or len(warned) == expected_warnings, got=len(warned), want=expected_warnings, texts=[str(x.message) for x in warned], **key)

    # Explicitly fixed flags.
    for f in ("fix_noise", "fix_window", "fix_scale"):
        m.check(f, getattr(mod, f) == k.get(f, False), **key)

    equivariance(case, m, g, mod, t, key)
    if not any(x in k for x in ("alpha", "gamma", "lam", "alpha_t", "a", "b")):
        implied(case, m, mod, key)
    if case["inst"] and mod.n_u <= 60 and mod.n_z <= 60:
        instantiated(case, m, mod, t, key)


def excitation_smooth(case, m, mod, lo, hi, w, c, key):
    k, cls, S = case["kw"], case["cls"], case["scale"]
    t_z = to_numpy(mod.t_z)
    warned = 0
    ext = k.get("extend_t_z", False)
    if "t_z" in k:
        if ext:
            return 0
        c("t_z explicit", t_z, k["t_z"])
        m.check("n_z", mod.n_z == len(t_z) if "n_z" not in k else True, **key)
    else:
        if "n_z" in k:
            ns = {k["n_z"]}
        else:
            ns = ceils(2 * (hi - lo) / S)
            cap = k.get("n_z_cap", 300)
            if max(ns) > cap:
                warned += 1
                ns = {min(n, cap) for n in ns}
        n0 = None
        for n in ns:
            if n < 2:
                return warned
            d = (hi - lo) / (n - 1)
            extras = ceils(2 * w / d) if ext else {0}
            for e in extras:
                if len(t_z) == n + e * (1 if cls == "CGPCM" else 2):
                    n0, ne = n, e
        if not m.check("n_z", n0 is not None and mod.n_z == len(t_z), got=len(t_z), n_z=mod.n_z, want=sorted(ns), extend=ext, **key):
            return warned
        d = (hi - lo) / (n0 - 1)
        want = np.linspace(lo - ne * d, hi + (0 if cls == "CGPCM" else ne * d), len(t_z))
        c("t_z", t_z, want, scale=abs(lo) + abs(hi) + hi - lo + ne * d)
        c("t_z spacing", np.diff(t_z), np.full(len(t_z) - 1, d), rtol=1e-8, scale=abs(lo) + abs(hi))
        m.le("data covered left", t_z[0], lo, slack=1e-9 * (abs(lo) + abs(hi)), **key)
        m.le("data covered right", hi, t_z[-1], slack=1e-9 * (abs(lo) + abs(hi)), **key)
        if ext:
            m.le("filter covered left", t_z[0], lo - 2 * w, slack=1e-9 * (abs(lo) + abs(hi)), **key)
            if cls == "GPCM":
                m.le("filter covered right", hi + 2 * w, t_z[-1], slack=1e-9 * (abs(lo) + abs(hi)), **key)
            m.le("not extended further", lo - t_z[0], 2 * w + d, slack=1e-9 * (abs(lo) + abs(hi)), **key)
    omega = k.get("omega", np.pi / (t_z[1] - t_z[0]) ** 2)
    c("omega", mod.omega, omega, rtol=1e-7)
    c("omega_t", mod.omega_t, (2 * omega / np.pi) ** 0.25, rtol=1e-7)
    return warned


def excitation_rough(case, m, mod, lo, hi, t_u, alpha, c, key):
    k, S = case["kw"], case["scale"]
    warned = 0
    a = k.get("a", lo - np.max(t_u))
    b = k.get("b", hi)
    c("a", mod.a, a, scale=abs(lo) + abs(hi) + np.max(t_u))
    c("b", mod.b, b, scale=abs(lo) + abs(hi))
    if "m_max" in k:
        ms = {k["m_max"]}
    elif "n_z" in k:
        ms = {(k["n_z"] + 1) // 2}
    else:
        ms = ceils((b - a) / S)
        cap = k.get("m_max_cap", 150)
        if max(ms) > cap:
            warned += 1
            ms = {min(x, cap) for x in ms}
    m.check("m_max", mod.m_max in ms, got=mod.m_max, want=sorted(ms), **key)
    want = k["ms"] if "ms" in k else np.arange(2 * mod.m_max + 1)
    m.check("ms", np.array_equal(to_numpy(mod.ms), want) and mod.n_z == len(want), ms=mod.ms, n_z=mod.n_z, **key)
    gamma = k.get("gamma", 1 / (2 * (t_u[1] - t_u[0])))
    gamma = min(gamma, alpha / 1.5)
    c("gamma", mod.gamma, gamma)
    m.check("gamma below alpha", mod.gamma < mod.alpha, **key)
    c("gamma_t", mod.gamma_t, k.get("gamma_t", np.sqrt(2 * gamma)))
    return warned


ATTRS = dict(t_u=1, alpha=None, gamma=None, alpha_t=None, noise=0, t_z=1, omega=None, omega_t=None, lam=None, gamma_t=None, a=1, b=1)


def equivariance(case, m, g, mod, t, key):
    """Shifted and rescaled time.  Powers of two, so that nothing is rounded differently."""
    cls, k = case["cls"], case["kw"]
    forms = "array"
    base, _ = construct(case, t, form=forms)
    for n in ("t_u", "t_z"):
        if hasattr(mod, n):
            m.close("container/" + n, to_numpy(getattr(base, n)), to_numpy(getattr(mod, n)), rtol=1e-12, atol=0, **key)
    perm, _ = construct(case, g.permutation(t), form=g.choice(["list", "tuple", "array"]))
    for n in ("t_u", "t_z", "a", "b"):
        if hasattr(mod, n):
            m.close("order/" + n, to_numpy(getattr(perm, n)), to_numpy(getattr(mod, n)), rtol=1e-12, atol=0, scale=1 + np.max(np.abs(t)), **key)
    m.check("order/sizes", perm.n_u == mod.n_u and perm.n_z == mod.n_z, **key)
    s = float(2.0 ** g.randint(-3, 4))
    over = dict(window=case["window"] * s, scale=case["scale"] * s)
    for n in ("t_u", "t_z"):
        if n in k:
            over[n] = np.array(k[n]) * s
    for n in ("a", "b"):
        if n in k:
            over[n] = k[n] * s
    p = 2 if cls != "RGPCM" else 1
    for n, e in (("alpha", -p), ("gamma", -p), ("omega", -2), ("lam", -1), ("alpha_t", -0.5), ("gamma_t", -0.5)):
        if n in k:
            over[n] = k[n] * s**e
    mod2, _ = construct(case, np.asarray(t) * s, form=forms, **over)
    m.check("rescaling/sizes", mod2.n_u == mod.n_u and mod2.n_z == mod.n_z, s=s, **key)
    if mod2.n_u == mod.n_u and mod2.n_z == mod.n_z:
        for n, e in (("t_u", 1), ("t_z", 1), ("a", 1), ("b", 1), ("alpha", -p), ("gamma", -p), ("omega", -2), ("lam", -1), ("alpha_t", -0.5), ("gamma_t", -0.5),
                     ("omega_t", -0.5), ("noise", 0), ("extent", 1)):
            if hasattr(mod, n):
                a = to_numpy(getattr(mod, n)) * s**e
                m.close("rescaling/" + n, to_numpy(getattr(mod2, n)), a, rtol=1e-9, atol=0, s=s, **key)
    # Shift by a multiple of the float spacing of the data.
    if case["form"] != "int":
        t = np.round(np.asarray(t) * 2.0**20) / 2.0**20
        base, _ = construct(case, t, form=forms, **{n: np.array(k[n]) for n in ("t_z",) if n in k})
    d = float(g.choice([-64.0, 3.0, 1024.0]))
    over = {}
    if "t_z" in k:
        over["t_z"] = np.array(k["t_z"]) + d
    for n in ("a", "b"):
        if n in k:
            over[n] = k[n] + d
    mod3, _ = construct(case, np.asarray(t) + d, form=forms, **over)
    if cls == "RGPCM" and ("m_max" not in k and "n_z" not in k):
        ok = abs(mod3.m_max - base.m_max) <= (1 if len(ceils((base.b - base.a) / case["scale"])) > 1 else 0)
        m.check("shift/sizes", ok, **key)
    else:
        m.check("shift/sizes", mod3.n_u == base.n_u and mod3.n_z == base.n_z, d=d, **key)
    for n, e in (("t_u", 0), ("t_z", 1), ("a", 1), ("b", 1), ("alpha", 0), ("gamma", 0), ("lam", 0), ("noise", 0)):
        if hasattr(mod, n):
            a = to_numpy(getattr(base, n)) + d * e
            b = to_numpy(getattr(mod3, n))
            if np.shape(a) == np.shape(b):
                m.close("shift/" + n, b, a, rtol=1e-10, atol=0, scale=np.max(np.abs(a)) + abs(d) * e, d=d, **key)
    m.event("equivariances", 2)


def implied(case, m, mod, key):
    """The prior kernel the construction implies has the given scales and unit variance."""
    S, W = case["scale"], case["window"]
    tau = np.linspace(0, 3 * S, 13)
    inst = mod
    k = to_numpy(inst.compute_i_hx(tau, np.zeros(13)))
    k2 = to_numpy(inst.compute_i_hx(np.zeros(13), tau))
    m.close("implied/symmetric", k, k2, rtol=1e-10, atol=0, **key)
    if case["cls"] == "GPCM":
        m.close("implied/kernel", k, np.exp(-np.pi / 4 * (tau / S) ** 2), rtol=1e-9, atol=0, **key)
    elif case["cls"] == "CGPCM":
        # Same, times the fraction of the window's power the overlap keeps.
        from scipy.special import erfc

        a = np.pi / 4 / W**2
        m.close("implied/kernel", k, np.exp(-np.pi / 4 * (tau / S) ** 2) * erfc(np.sqrt(a / 2) * tau), rtol=1e-7, atol=0, **key)
    else:
        m.close("implied/kernel", k, np.exp(-tau / S), rtol=1e-9, atol=0, **key)
    K = mod.k_h(constrain=False)
    from stheno.jax import GP  # noqa: F401  (registers the kernel types)

    t = np.array([0.0, W, 2 * W])[:, None]
    d = np.diag(to_numpy(K(t)))
    want = np.exp(-2 * np.pi / 4 * (t[:, 0] / W) ** 2) if case["cls"] != "RGPCM" else np.exp(-2 * t[:, 0] / W)
    m.close("implied/window", d / d[0], want, rtol=1e-9, atol=0, **key)


def instantiated(case, m, mod, t, key):
    """Instantiating keeps the values, and declares exactly what is to be learned."""
    inst = mod()
    k, cls = case["kw"], case["cls"]
    for n in ATTRS:
        if hasattr(mod, n):
            a = to_numpy(getattr(mod, n))
            m.close("instantiated/" + n, to_numpy(getattr(inst, n)), a, rtol=1e-6, atol=1e-12, scale=np.max(np.abs(a)) + 1e-12, **key)
    names = set(inst.vs.names)
    want = {"alpha_t", "t_u"} | (set() if k.get("fix_noise") else {"noise"}) | (set() if k.get("fix_window") else {"alpha"})
    scale_name = "lambda" if cls == "RGPCM" else "gamma"
    want |= set() if k.get("fix_scale") else {scale_name}
    want |= {"gamma_factor"} if cls == "RGPCM" else {"omega", "t_z"}
    strip = {n.split("/")[-1] for n in names}
    m.check("parameters", want <= strip and not ({"noise", "alpha", "gamma", "lambda"} - want) & strip, got=sorted(names), want=sorted(want), **key)
    m.check("instantiated/sizes", inst.n_u == mod.n_u and inst.n_z == mod.n_z, **key)
    if case["cls"] == "RGPCM":
        m.check("instantiated/gamma below alpha", float(inst.gamma) < float(inst.alpha), **key)
    m.event("instantiated")
