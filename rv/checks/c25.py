"""Monitors on the derivatives that learning uses."""
import sys

import numpy as np

from .. import core, gen
from ..core import to_numpy

PROPERTY = "C25"
RULE = ("A case differentiates an objective of a model with respect to its learnable variables in the coordinates that the optimisers use: "
        "mean-field ELBOs (plain, and collapsed over either factor, also after earlier conditioning steps), the structured ELBO and the objective of "
        "the Gibbs scheme at fixed samples, and covariances and kernels contracted with random weights.  Automatic derivatives are compared with "
        "extrapolated central differences of the objective's own values at generic and at symmetric configurations.  Other cases record every "
        "evaluation that a real fit makes and judge the recorded pairs of values and gradients, and the recorded steps of the stochastic optimiser.  "
        "Non-trivial: at least one derivative was resolved by the differences.")
ASSUMPTIONS = ["values of the objectives are decided by C01, C02, C05 and C07; here only their derivatives", "coordinates whose differences do not agree between two step sizes are left out and counted"]
BUDGET = {"quick": 45, "thorough": 900}
MANDATORY = 27
MIN_CASES = 20
CASE_TIMEOUT = 240


def cases(rng, tier):
    n = 36 if tier == "quick" else 500
    kinds = ["plain", "z", "gibbs", "integrals", "u", "fit", "plain2", "structured", "adam"]
    for i in range(n):
        cls = ["RGPCM", "CGPCM", "GPCM"][(i // len(kinds) + i) % 3]
        kind = kinds[i % len(kinds)]
        scheme = "structured" if kind in ("gibbs", "structured", "adam") else rng.choice(["mean-field-gradient", "mean-field-collapsed-gradient"])
        cfg = gen.cfg_ok(rng, cls, scheme=scheme, large=0)
        for f in ("fix_noise", "fix_window", "fix_scale"):
            if rng.random() < 0.15:
                cfg["kw"][f] = True
        yield dict(kind=kind, cfg=cfg, epsilon=0.0 if kind not in ("fit", "adam") else 1e-12, t=gen.times(rng, cfg, rng.choice([1, 2, 5, 30])), t2=gen.times(rng, cfg, 2),
                   variant=[1, 0, 2, 3][i // len(kinds) % 4], perturb=rng.random() < 0.5, on=rng.random() < 0.3)


def derivative(f, x, d):
    """Extrapolated central differences along ``d`` and their uncertainty."""
    out = []
    for h in (3e-4, 6e-5):
        D = [(float(f(x + s * d)) - float(f(x - s * d))) / (2 * s) for s in (h, h / 2)]
        out.append((4 * D[1] - D[0]) / 3)
    return out[1], abs(out[1] - out[0])


def judge(m, g, f, x, grad, sizes, key, extra=6):
    """Compare a gradient with differences of the values, coordinate by coordinate and in random directions."""
    n = len(x)
    if not m.check("gradient finite", grad.shape == x.shape and np.all(np.isfinite(grad)), bad=[k for k, (a, b) in sizes.items() if not np.all(np.isfinite(grad[a:b]))], **key):
        return 0
    which = list(range(n)) if n <= 24 else list(g.permutation(n)[:20])
    dirs = [("coordinate", np.eye(n)[i], i) for i in which]
    for _ in range(extra):
        d = g.randn(n)
        dirs.append(("direction", d / np.linalg.norm(d), -1))
    scale = np.linalg.norm(grad) + 1e-8 * abs(float(f(x)))
    k = 0
    for what, d, i in dirs:
        want, unc = derivative(f, x, d)
        if not np.isfinite(want) or unc > 1e-3 * scale:
            m.event("unresolved")
            continue
        name = next((a for a, (b, c) in sizes.items() if b <= i < c), "")
        m.le("derivative/" + what, abs(float(grad @ d) - want), 1e-5 * scale + 10 * unc, variable=name, automatic=float(grad @ d), differences=want, **key)
        k += 1
    m.event("derivatives", k)
    return k


def layout(vs, names):
    out, k = {}, 0
    for n in names:
        s = len(np.ravel(to_numpy(vs.get_latent_vector(n))))
        out[n] = (k, k + s)
        k += s
    return out


def run(case, m):
    if case["kind"] == "fit":
        return fit(case, m)
    if case["kind"] == "adam":
        return adam(case, m)
    import jax
    import jax.numpy as jnp
    import lab.jax as B

    g, model, inst, R = gen.setup(case, perturb_it=case["perturb"], max_cond=1e6)
    cls, kind = case["cfg"]["cls"], case["kind"]
    key = dict(cls=cls, kind=kind)
    t = np.array(case["t"])
    if case["on"] and cls != "RGPCM":
        # Observations exactly at the excitation's inducing points.
        t = np.concatenate([t, np.asarray(R.t_z)[:2]])
    y = gen.data(case["seed"], t, case["cfg"])
    T, Y = jnp.array(t), jnp.array(y)
    from .c08 import posterior

    nu, nz = inst.n_u, inst.n_z
    qu = lambda: posterior(g, nu, to_numpy(inst.K_u), "random")
    qz = lambda: posterior(g, nz, to_numpy(inst.K_z), "random")
    inst.approximation.q_u, inst.approximation.q_z = qu(), qz()
    target = model
    if kind == "plain2":
        t1 = np.array(case["t2"])
        target = model.condition(t1, gen.data(case["seed"] + 1, t1, case["cfg"]))
        a = target().approximation
        a.q_u, a.q_z = qu(), qz()
    names = [n for n in model.vs.names if "samples" not in n]
    if kind in ("gibbs", "integrals"):
        names = [n for n in names if "q_u" not in n and "q_z" not in n]
    copy = model.vs.copy()
    m.state(cls, kind, case["perturb"], case["on"], gen.model_key(case["cfg"]))

    def at(x):
        copy.set_latent_vector(x, *names, differentiable=True)
        return target(copy)

    x0 = np.array(to_numpy(model.vs.get_latent_vector(*names)), float)
    if kind in ("plain", "plain2", "u", "z"):
        kw = {} if kind.startswith("plain") else dict(collapsed=kind)
        f = lambda x: at(x).elbo(T, Y, **kw)
    elif kind == "structured":
        state = B.create_random_state(jnp.float64, seed=3)
        f = lambda x: at(x).approximation.elbo_collapsed_z(state, T, Y, num_samples=3)[1]
    elif kind == "gibbs":
        u, z = np.linalg.cholesky(np.linalg.inv(to_numpy(inst.K_u))) @ g.randn(nu, 1), np.linalg.cholesky(np.linalg.inv(to_numpy(inst.K_z))) @ g.randn(nz, 1)
        state = B.create_random_state(jnp.float64, seed=3)
        k = int(g.choice([1, 3]))

        def objective(x):
            _, e, u1, _ = at(x).approximation.elbo_gibbs(state, T, Y, jnp.array(u), jnp.array(z), num_samples=k)
            return e, u1

        # By Fisher's identity, learning may treat the sample as fixed.
        (_, u1), grad = jax.jit(jax.value_and_grad(objective, has_aux=True))(jnp.array(x0))

        def f(x):
            a = at(x).approximation
            return a.log_Z_u(a.construct_terms(T, Y), u1) + a.p_u.logpdf(u1)
    else:
        # Covariances and kernels, contracted with fixed weights.
        s = np.sort(np.concatenate([[0.0], g.uniform(-1, 1.5, 2) * case["cfg"]["scale"]]))
        uu = np.linalg.cholesky(to_numpy(inst.K_u)) @ g.randn(nu)
        W = {}

        def parts(v):
            S, U = jnp.array(s), jnp.array(uu)
            out = [v.kernel_approx(S, S, U), v.compute_i_hx(S[:, None], S[None, :]), v.compute_I_ux(S[:2], S), v.compute_I_ux(), v.compute_I_hz(T), v.compute_I_uz(T), B.dense(v.compute_K_u()), B.dense(v.compute_K_z())]
            return out

        for i, p in enumerate(parts(inst)):
            p = to_numpy(p)
            W[i] = g.randn(*p.shape) / (np.max(np.abs(p)) * np.sqrt(p.size) + 1e-300)

        def f(x):
            return sum(jnp.sum(W[i] * p) for i, p in enumerate(parts(at(x))))

    if kind != "gibbs":
        _, grad = jax.jit(jax.value_and_grad(f))(jnp.array(x0))
    fv = jax.jit(f)
    judge(m, g, lambda x: fv(jnp.array(x)), x0, np.array(grad), layout(model.vs, names), key)


def fit(case, m):
    """The evaluations of a real fit."""
    import varz.minimise as vm

    g = np.random.RandomState(case["seed"] % 2**32)
    model = gen.build(case["cfg"])
    inst = model()
    if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e6:
        raise core.Skip("ill-conditioned")
    key = dict(cls=case["cfg"]["cls"], kind="fit", scheme=model.scheme)
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    m.state(*key.values(), len(t))
    tape, runs = [], []
    original = vm.fmin_l_bfgs_b

    def recorder(func, x0, **kw):
        def recorded(x):
            v, d = func(x)
            tape.append((np.array(x), float(v), np.array(d)))
            return v, d

        res = original(func=recorded, x0=x0, **kw)
        runs.append((func, np.array(x0), np.array(res[0]), float(res[1]), res[2]))
        # Judge now: the objective is a function of what it was given only.
        own = list(tape)
        for i in sorted({0, len(own) // 2, len(own) - 1}):
            x, v, d = own[i]
            again = func(x)
            m.close("objective reproducible", float(again[0]), v, rtol=1e-9, atol=1e-9, **key)
            if np.all(np.isfinite(d)):
                judge(m, g, lambda z: func(z)[0], x, d, {}, key, extra=3)
        return res

    vm.fmin_l_bfgs_b = recorder
    iters = int(g.choice([5, 20, 40, 44]))
    try:
        model.fit(t, y, iters=iters)
    finally:
        vm.fmin_l_bfgs_b = original
    if len(runs) != 1:
        m.event("optimised in another way")
        return
    m.check("evaluations finite", np.isfinite(tape[0][1]) and np.all(np.isfinite(tape[0][2])), **key)
    # The budget is a fifth of the fixed-point iterations, and it is spent unless there is nothing left to gain.
    info = runs[0][4]
    m.le("iterations", info["nit"], iters // 5, **key)
    m.check("budget spent", info["nit"] == iters // 5 or info["warnflag"] != 1, info=str(info["task"]), nit=int(info["nit"]), want=iters // 5, **key)
    # What is minimised is the negative of the ELBO that the model reports.
    collapsed = "collapsed" in model.scheme
    e = float(model.elbo(t, y, collapsed="z") if collapsed else model.elbo(t, y))
    best = min(v for _, v, _ in tape if np.isfinite(v))
    sc = abs(best) + np.sum(y**2) / float(model.vs["noise"] if "noise" in model.vs.names else inst.noise)
    m.close("minimised the negative ELBO", -e, runs[0][3], rtol=1e-6, scale=sc, **key)
    m.le("kept the best", -e, best, slack=1e-6 * sc, **key)
    m.event("evaluations", len(tape))


def adam(case, m):
    """The steps of the stochastic optimiser."""
    import varz.minimise as vm

    g = np.random.RandomState(case["seed"] % 2**32)
    model = gen.build(case["cfg"])
    inst = model()
    if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e6:
        raise core.Skip("ill-conditioned")
    key = dict(cls=case["cfg"]["cls"], kind="adam")
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    inst.approximation.q_u, inst.approximation.q_z
    names = [n for n in model.vs.names if "q_u" not in n and "q_z" not in n]
    x0 = {n: np.array(to_numpy(model.vs.get_latent_vector(n)), float) for n in names}
    rate = float(g.choice([1e-3, 0.02, 0.05, 0.1]))
    kw = {} if rate == 0.05 else dict(rate=rate)
    # How many steps should be made?  By default, the sampling budget is spent.
    ask, num, steps = [(1, 5, 1), (3, 2, 3), (True, 3, 2), (False, 5, 0)][case["variant"]]
    if num != 5:
        kw["num_samples"] = num
    tape = []
    original = vm.ADAM

    class Recorder(original):
        def step(self, x, grad):
            before = np.array(x)  # Steps may happen in place.
            out = super().step(x, grad)
            tape.append((before, np.array(grad), np.array(out)))
            return out

    vm.ADAM = Recorder
    try:
        model.fit(t, y, iters=6 if ask is True else 4, optimise_hypers=ask, **kw)
    finally:
        vm.ADAM = original
    d = {n: np.array(to_numpy(model.vs.get_latent_vector(n)), float) - x0[n] for n in names}
    v = np.concatenate([np.ravel(d[n]) for n in names])
    m.state("adam", key["cls"], rate, steps, ask)
    if tape or not steps:
        m.check("number of steps", len(tape) == steps, steps=len(tape), asked=ask, want=steps, **key)
        m.check("gradients finite", all(np.all(np.isfinite(x[1])) for x in tape), **key)
    m.check("step finite", np.all(np.isfinite(v)), **key)
    if steps == 0:
        m.close("nothing is learned if not asked", v, 0 * v, rtol=0, atol=0, **key)
    elif steps == 1:
        # The first step has the learning rate as its root-mean-square size, in every coordinate that the likelihood sees.
        m.close("size of the first step", np.sqrt(np.mean(v**2)), rate, rtol=1e-4, atol=0, names=names, **key)
    else:
        # The optimiser's steps are never bigger than this.
        m.le("size of the steps", np.max(np.abs(v)), 3.5 * steps * rate, **key)
        if tape:
            m.close("size of the first of several steps", np.sqrt(np.mean((tape[0][2] - tape[0][0]) ** 2)), rate, rtol=1e-4, atol=0, **key)
    if steps:
        for n in names:
            m.check("every variable is learned", np.any(d[n] != 0), name=n, **key)
    m.event("steps", steps)
