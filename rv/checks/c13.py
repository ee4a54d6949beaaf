"""Saving and loading over random histories: the recorded state and every result must come back."""
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import core, gen
from ..core import to_numpy

PROPERTY = "C13"
RULE = ("A case is a history of a model (instantiated, parameters moved also to tiny and huge values, fitted or given posteriors and samples, "
        "conditioned) saved and then loaded into the same model after every parameter was changed, after refitting to other data, into a "
        "fresh model (instantiated or not, also constructed with other starting values) and in another process; parameters and samples, the "
        "ELBO, predictions and kernel samples are compared with the recording made before saving.  Non-trivial: a reloaded state compared.")
ASSUMPTIONS = ["the fresh model has the same scheme, sizes and fixed values", "values agree within 1e-10 relative, the rounding of the parameter transforms"]
BUDGET = {"quick": 70, "thorough": 900}
MANDATORY = 24
MIN_CASES = 20
SCHEMES = ["structured", "mean-field-ca", "structured", "mean-field-gradient", "mean-field"]


def cases(rng, tier):
    n = 45 if tier == "quick" else 700
    targets = ["same", "fresh", "instantiated", "other", "refitted"]
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        scheme = SCHEMES[(i // 3) % len(SCHEMES)]
        cfg = gen.cfg_ok(rng, cls, scheme=scheme, large=gen.LARGE if tier != 'quick' else 0)
        for f in ("fix_noise", "fix_window", "fix_scale"):
            if rng.random() < 0.15:
                cfg["kw"][f] = True
        yield dict(kind="history", cfg=cfg, target=targets[(i // 15 + i) % len(targets)], state=rng.choice(["moved", "moved", "extreme", "initial"]),
                   inference=rng.choice(["fit", "assigned", "assigned", "none"]) if scheme != "mean-field-ca" else rng.choice(["fit", "assigned"]),
                   t=gen.times(rng, cfg, rng.choice([2, 5])), x=gen.times(rng, cfg, 3), via=rng.choice(["model", "model", "instance", "posterior"]), epsilon=1e-12)
    for i in range(2 if tier == "quick" else 12):
        cls = ["RGPCM", "CGPCM", "GPCM"][i % 3]
        cfg = gen.cfg_ok(rng, cls, scheme=["structured", "mean-field-ca"][i % 2], large=gen.LARGE if tier != 'quick' else 0)
        yield dict(kind="process", cfg=cfg, t=gen.times(rng, cfg, 4), x=gen.times(rng, cfg, 3), must=True, epsilon=1e-12, timeout=120)


def container(model):
    return {n: to_numpy(model.vs[n]).copy() for n in model.vs.names}


def same(a, b, tol=0.0):
    return set(a) == set(b) and all(np.shape(a[n]) == np.shape(b[n]) and np.max(np.abs(a[n] - b[n]), initial=0) <= tol * (1e-300 + np.max(np.abs(a[n]), initial=0)) for n in a)


def move(model, g, how):
    """Change parameters of the container inside their constraints."""
    vs = model.vs
    for n in vs.names:
        v = to_numpy(vs[n])
        last = n.split("/")[-1]
        if last in ("noise", "alpha", "alpha_t", "gamma", "lambda", "omega"):
            f = np.exp(0.1 * g.randn())
            if how == "extreme" and last in ("noise", "alpha_t"):
                f = g.choice([1e-9, 1e-4, 1e3]) * f
            vs.assign(n, v * f)
        elif last == "gamma_factor":
            vs.assign(n, np.maximum(v * np.exp(0.1 * g.randn()), 1.01))
        elif last in ("t_u", "t_z"):
            sp = np.min(np.abs(np.diff(np.sort(v)))) * 0.05
            w = v + sp * g.randn(*v.shape)
            if last == "t_u":
                w = np.maximum(w, np.min(v) * (1 if np.min(v) < 0 else 0))
                w = np.minimum(w, np.max(v))
            vs.assign(n, w)


def scramble(model, g):
    """Overwrite everything the model knows."""
    move(model, g, "moved")
    a = model().approximation
    for n in model.vs.names:
        last = n.split("/")[-1]
        if "q_" in n or "samples" in n:
            v = to_numpy(model.vs[n])
            if n.endswith("prec"):
                model.vs.assign(n, v + 0.7 * np.eye(len(v)) * np.max(np.diag(v)))
            else:
                model.vs.assign(n, v + 0.5 * np.max(np.abs(v)) * g.randn(*v.shape) + 0.1)
    return a


def results(model, t, y, x, seed):
    """Everything observable; the random state is part of the experiment."""
    import lab.jax as B
    import jax.numpy as jnp

    out = {}
    np.random.seed(seed)
    B.set_random_seed(seed)
    post = model.condition(t, y)
    ran = [post.predict(x) if not model.scheme == "structured" else post.predict(x, num_samples=7)]
    out["mean"], out["var"] = map(to_numpy, ran[0])
    B.set_random_seed(seed)
    np.random.seed(seed)
    _, ks = post().sample_kernel(jnp.array([0.0, 0.3, 1.0]), num_samples=5)
    out["kernel"] = to_numpy(ks)
    z = post().predict_fourier(num_samples=6)
    out["z mean"], out["z var"] = map(to_numpy, z)
    return out


def elbo(model, t, y, seed):
    import lab.jax as B

    np.random.seed(seed)
    B.set_random_seed(seed)
    if model.scheme == "structured":
        return to_numpy(model.elbo(t, y, num_samples=20))
    return to_numpy(model.elbo(t, y))


def infer(case, model, g, t, y):
    inst = model()
    a = inst.approximation
    if case["inference"] == "fit":
        if model.scheme == "structured":
            model.fit(t, y, iters=10, optimise_hypers=False)
            a.q_u = gen.nat(g, inst.n_u, to_numpy(inst.K_u))
            a.q_z = gen.nat(g, inst.n_z, to_numpy(inst.K_z))
        elif model.scheme == "mean-field-ca":
            model.fit(t, y, iters=20)
        else:
            model.fit(t, y, iters=10)
    else:
        a.q_u = gen.nat(g, inst.n_u, to_numpy(inst.K_u))
        a.q_z = gen.nat(g, inst.n_z, to_numpy(inst.K_z))
        if model.scheme == "structured":
            Lu = np.linalg.cholesky(np.linalg.inv(to_numpy(inst.K_u)))
            Lz = np.linalg.cholesky(np.linalg.inv(to_numpy(inst.K_z)))
            n = int(g.choice([7, 20]))
            a.q_u_samples = [Lu @ g.randn(inst.n_u, 1) for _ in range(n)]
            a.q_z_samples = [Lz @ g.randn(inst.n_z, 1) for _ in range(n)]


def other_settings(cfg, g):
    """Same model and sizes, but other starting values of what is learned."""
    kw = dict(cfg["kw"])
    if not kw.get("fix_noise"):
        kw["noise"] = kw["noise"] * 3.7
    kw["alpha_t"] = 1.9
    return dict(cfg, kw=kw)


def run(case, m):
    if case["kind"] == "process":
        return process(case, m)
    g = np.random.RandomState(case["seed"] % 2**32)
    model = gen.build(case["cfg"])
    inst = model()
    t, x = np.array(case["t"]), np.array(case["x"])
    y = gen.data(case["seed"], t, case["cfg"])
    if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e7:
        raise core.Skip("ill-conditioned")
    if case["cfg"]["cls"] == "RGPCM" and not case["cfg"]["kw"].get("lam"):
        pass
    key = dict(cls=case["cfg"]["cls"], scheme=model.scheme, target=case["target"], via=case["via"], inference=case["inference"], how=case["state"])
    if case["state"] != "initial":
        move(model, g, case["state"])
    extreme = case["state"] == "extreme"
    if not extreme and case["inference"] != "none":
        infer(case, model, g, t, y)
        inferred = True
    else:
        inferred = False
        if model.scheme != "structured" or True:
            model().approximation.q_u, model().approximation.q_z  # Initialise them.
    d = tempfile.mkdtemp(prefix="rv13")
    try:
        history(case, m, model, g, t, y, x, d, key, inferred and not extreme)
    finally:
        shutil.rmtree(d)


def history(case, m, model, g, t, y, x, d, key, inferred):
    seed = int(g.randint(10**6))
    path = os.path.join(d, "model.pickle")
    if inferred:
        post = model.condition(t, y)
        before = results(model, t, y, x, seed)
    saver = dict(model=lambda: model, instance=lambda: model(), posterior=lambda: model.condition(t, y) if inferred else model)[case["via"]]()
    V = container(model)
    hidden = {n: to_numpy(getattr(model().approximation, n)).copy() for n in ("q_u_samples", "q_z_samples")} if inferred and model.scheme == "structured" else {}
    for n in V:
        m.check("finite", np.all(np.isfinite(V[n])), name=n, **key)
    saver.save(path)
    m.check("saving changes nothing", same(container(model), V), **key)
    if inferred:
        after = results(model, t, y, x, seed)
        for n in before:
            m.check("saving changes no results", np.array_equal(before[n], after[n]), what=n, **key)
    # A second copy that is saved later must not be needed, nor the first be touched by it.
    size = os.path.getsize(path)
    L0 = elbo(model, t, y, seed) if inferred else None

    # Now lose it.
    target = case["target"]
    if target == "same":
        scramble(model, g)
        loaded = model
    elif target == "refitted":
        scramble(model, g)
        if inferred and model.scheme == "structured":
            model.fit(t, -1.3 * y + 1, iters=4, optimise_hypers=False)
        elif model.scheme == "mean-field-ca":
            model.fit(t, -1.3 * y + 1, iters=5)
        loaded = model
    elif target == "fresh":
        loaded = gen.build(case["cfg"])
    elif target == "instantiated":
        loaded = gen.build(case["cfg"])
        loaded().approximation.q_u, loaded().approximation.q_z
    else:
        loaded = gen.build(other_settings(case["cfg"], g))
        if g.rand() < 0.5:
            loaded()
    if target in ("same", "refitted"):
        m.check("state was lost", not same(container(model), V, 1e-6), **key)
    loaded.load(path)
    m.check("file untouched", os.path.getsize(path) == size, **key)
    W = container(loaded)
    if target in ("same", "refitted"):
        m.check("nothing added", set(W) == set(V), extra=sorted(set(W) - set(V)), missing=sorted(set(V) - set(W)), **key)
    compare(m, V, loaded, key)
    if hidden:
        for n, v in hidden.items():
            m.close("samples", to_numpy(getattr(loaded().approximation, n)), v, rtol=1e-12, atol=0, what=n, **key)
    # Attributes of the instantiated model follow.
    i = loaded()
    for name, attr in (("noise", "noise"), ("alpha", "alpha"), ("alpha_t", "alpha_t"), ("gamma", "gamma"), ("lambda", "lam"), ("omega", "omega"), ("t_u", "t_u"), ("t_z", "t_z")):
        if name in V:
            m.close("used", to_numpy(getattr(i, attr)), V[name], rtol=1e-10, atol=0, what=name, **key)
    if "gamma_factor" in V:
        alpha = V["alpha"] if "alpha" in V else to_numpy(i.alpha)
        m.close("used", to_numpy(i.gamma), alpha / V["gamma_factor"], rtol=1e-10, atol=0, what="gamma", **key)
    if inferred:
        again = results(loaded, t, y, x, seed)
        for n in before:
            m.close("results", again[n], before[n], rtol=1e-6, atol=1e-12, what=n, **key)
        L1 = elbo(loaded, t, y, seed)
        m.close("elbo", L1, L0, rtol=1e-5, atol=1e-8, scale=abs(L0) + len(t), **key)
        # Structured ELBOs refine the stored factors; bring them back for the next step.
        loaded.load(path)
    # Loading again and saving again are idempotent.
    loaded.load(path)
    compare(m, V, loaded, key, "again/")
    if target in ("same", "refitted"):
        p2 = os.path.join(d, "second.pickle")
        loaded.save(p2)
        third = gen.build(case["cfg"])
        third.load(p2)
        compare(m, V, third, key, "second generation/")
    m.state(key["cls"], key["scheme"], target, key["via"], key["inference"], key["how"])
    m.event("reloads", 2)


def compare(m, V, loaded, key, pre=""):
    for n, v in V.items():
        if not m.check(pre + "known", n in loaded.vs, name=n, **key):
            continue
        got = to_numpy(loaded.vs[n])
        # Bounded locations are stored through a squashing transform: relative to their range.
        m.close(pre + "values", got, v, rtol=1e-10, atol=0, scale=np.max(np.abs(v)) if np.max(np.abs(v)) > 0 else 1e-12, what=n, **key)


CHILD = r"""
import sys, pickle, json
sys.path.insert(0, sys.argv[1])
import numpy as np
from rv import core, gen
core.setup_repo()
a = pickle.load(open(sys.argv[2], "rb"))
model = gen.build(a["cfg"])
import lab.jax as B
from rv.checks import c13
B.epsilon = a["epsilon"]
model.load(a["path"])
pickle.dump(c13.results(model, a["t"], a["y"], a["x"], a["seed"]), open(a["out"], "wb"))
"""


def process(case, m):
    """Reload in another process."""
    import lab

    g = np.random.RandomState(case["seed"] % 2**32)
    model = gen.build(case["cfg"])
    t, x = np.array(case["t"]), np.array(case["x"])
    y = gen.data(case["seed"], t, case["cfg"])
    inst = model()
    if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e7:
        raise core.Skip("ill-conditioned")
    move(model, g, "moved")
    infer(dict(case, inference="assigned"), model, g, t, y)
    d = tempfile.mkdtemp(prefix="rv13")
    try:
        path = os.path.join(d, "m")
        model.save(path)
        want = results(model, t, y, x, 5)
        args = dict(cfg=case["cfg"], path=path, t=t, y=y, x=x, seed=5, out=os.path.join(d, "out"), epsilon=lab.epsilon)
        pickle.dump(args, open(os.path.join(d, "args"), "wb"))
        p = subprocess.run([sys.executable, "-c", CHILD, core.ROOT, os.path.join(d, "args")], capture_output=True, timeout=100, env=dict(os.environ, PYTHONHASHSEED="77"))
        if not m.check("other process", p.returncode == 0, stderr=p.stderr.decode()[-800:]):
            return
        got = pickle.load(open(args["out"], "rb"))
        for n in want:
            m.close("other process/results", got[n], want[n], rtol=1e-6, atol=1e-12, what=n, cls=case["cfg"]["cls"])
        m.state("process", case["cfg"]["cls"], model.scheme)
        m.event("reloads")
    finally:
        shutil.rmtree(d)
