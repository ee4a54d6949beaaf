"""A shadow of every answer given, kept over random interleavings of calls on a model and its posteriors."""
import os
import pickle

import numpy as np

from .. import core, gen
from ..core import to_numpy

PROPERTY = "C22"
RULE = ("A history is a random interleaving of conditioning (on several data sets, on top of a posterior, on an instance), instantiation, ELBO, "
        "prediction, kernel, filter, spectrum, feature and sampling calls on a model and its posteriors, in lazy, instantiated and held-instance "
        "style and with NumPy and JAX arrays.  The first answer of every question is recorded and every later one compared with it; after every "
        "call the parameters, the prior status of the original and the arguments are compared with their recording.  Other cases fit the same "
        "model twice from the same random state.  Non-trivial: a question asked again after other calls.")
ASSUMPTIONS = ["the random state is reset before every question, so answers are functions of it", "structured ELBOs refine the stored factors, which are reset before they are asked for"]
BUDGET = {"quick": 45, "thorough": 900}
MANDATORY = 14
MIN_CASES = 12
CASE_TIMEOUT = 200
SCHEMES = ["structured", "mean-field-gradient", "mean-field-ca", "structured", "mean-field"]


def cases(rng, tier):
    n = 18 if tier == "quick" else 240
    fits = ["mean-field-ca", "structured", "mean-field-collapsed-gradient", "mean-field-gradient", "mean-field", "mean-field-ca-gradient"]
    r = 4 if tier == "quick" else 54
    off = rng.randint(0, 5)
    for i in range(r):
        cls = ["RGPCM", "CGPCM", "GPCM"][(i + off // 2) % 3]
        scheme = fits[(i + off) % len(fits)]
        cfg = gen.cfg_ok(rng, cls, scheme=scheme, large=gen.LARGE if tier != 'quick' else 0)
        yield dict(kind="refit", cfg=cfg, t=gen.times(rng, cfg, rng.choice([2, 5])), iters=rng.choice([6, 12, 20]), np=rng.random() < 0.5, must=True, epsilon=1e-12)
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        scheme = SCHEMES[(i // 3 + i) % len(SCHEMES)]
        cfg = gen.cfg_ok(rng, cls, scheme=scheme, large=gen.LARGE if tier != 'quick' else 0)
        yield dict(kind="history", cfg=cfg, data=[gen.times(rng, cfg, rng.choice([1, 2, 4])) for _ in range(3)], x=gen.times(rng, cfg, 4), steps=15 if tier == "quick" else 40, epsilon=1e-12)


def container(model):
    return {n: to_numpy(model.vs[n]).copy() for n in model.vs.names}


def reset(seed):
    import lab.jax as B

    np.random.seed(seed)
    B.set_random_seed(seed)


def is_np(x):
    return isinstance(x, (np.ndarray, np.generic, float))


def is_jax(x):
    import jax

    return isinstance(x, jax.Array)


class World:
    """The model, its posteriors and the recording of every answer."""

    def __init__(self, case, m):
        import jax.numpy as jnp

        self.case, self.m, self.jnp = case, m, jnp
        self.g = np.random.RandomState(case["seed"] % 2**32)
        g = self.g
        self.model = gen.build(case["cfg"])
        inst = self.model()
        if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e7:
            raise core.Skip("ill-conditioned")
        gen.perturb(self.model, g)
        inst = self.model()
        self.structured = self.model.scheme == "structured"
        self.q = [(gen.nat(g, inst.n_u, to_numpy(inst.K_u)), gen.nat(g, inst.n_z, to_numpy(inst.K_z))) for _ in range(3)]
        a = inst.approximation
        a.q_u, a.q_z = self.q[0]
        if self.structured:
            n = 12
            su = [to_numpy(self.q[0][0].mean) + np.linalg.cholesky(np.linalg.inv(to_numpy(inst.K_u))) @ g.randn(inst.n_u, 1) for _ in range(n)]
            sz = [to_numpy(self.q[0][1].mean) + np.linalg.cholesky(np.linalg.inv(to_numpy(inst.K_z))) @ g.randn(inst.n_z, 1) for _ in range(n)]
            a.q_u_samples, a.q_z_samples = su, sz
        self.data = [(np.array(t), gen.data(case["seed"] + i, np.array(t), case["cfg"])) for i, t in enumerate(case["data"])]
        # The last data set has the inputs of the first one, but other outputs.
        self.data.append((self.data[0][0], self.data[0][1] * 0.5 - 0.3))
        x = np.array(case["x"])
        self.x = [x, case["cfg"]["t0"] + 0.9 * (x - case["cfg"]["t0"])]
        self.u = np.linalg.cholesky(to_numpy(inst.K_u)) @ g.randn(inst.n_u)
        self.lags = np.linspace(0, 1.5 * case["cfg"]["scale"], 6)
        self.V = container(self.model)
        self.K_u, self.K_z = to_numpy(inst.K_u), to_numpy(inst.K_z)
        self.objects = {"prior": dict(model=self.model, depth=0, held=None)}
        # Another model of the same class and of the same sizes, but with other parameters.
        self.twin = gen.build(case["cfg"])
        self.twin()
        gen.perturb(self.twin, g)
        b = self.twin().approximation
        b.q_u, b.q_z = self.q[2]
        if self.structured:
            b.q_u_samples = [0.7 * u for u in su]
            b.q_z_samples = [1.3 * z for z in sz]
        self.W = container(self.twin)
        self.objects["twin"] = dict(model=self.twin, depth=0, held=None)
        self.seen = {}
        self.buffers = {}
        self.asked_again = 0

    # The world is the same as before.
    def unchanged(self, what):
        m, key = self.m, dict(after=what, cls=self.case["cfg"]["cls"], scheme=self.model.scheme)
        W = container(self.model)
        skip = ("q_u", "q_z") if self.structured and "elbo" in what else ()
        for n, v in self.V.items():
            if any(s in n for s in skip):
                continue
            m.check("parameters unchanged", n in W and np.array_equal(W[n], v), name=n, **key)
        new = [n for n in set(W) - set(self.V) if "q_u" not in n and "q_z" not in n]
        m.check("no parameters added", not new, names=new, **key)
        W = container(self.twin)
        for n, v in self.W.items():
            m.check("parameters of the other model unchanged", n in W and (any(s in n for s in skip) or np.array_equal(W[n], v)), name=n, **key)
        for name, o in self.objects.items():
            m.check("not instantiated", not o["model"].instantiated, object=name, **key)
            m.check("container shared", o["model"].vs is (self.twin if "twin" in name else self.model).vs, **key)
        m.check("still a prior", self.model.prior and not self.model.posterior and not self.model().posterior, **key)
        if "elbo" in what and self.structured:
            self.restore()

    def restore(self):
        a = self.model().approximation
        a.q_u, a.q_z = self.q[0]
        a = self.twin().approximation
        a.q_u, a.q_z = self.q[2]
        for o in self.objects.values():
            if o["depth"] == 1 and not self.structured:
                b = o["model"]().approximation
                b.q_u, b.q_z = self.q[1]

    def condition(self, name, i, how):
        o = self.objects[name]
        t, y = self.data[i]
        conv = self.jnp.array if how["jax"] else np.array
        new = f"{name}|{i}"
        t2, y2 = conv(t), conv(y)
        self.objects[new] = dict(model=o["model"].condition(t2, y2), depth=o["depth"] + 1, held=None)
        self.m.check("arguments unmodified", np.array_equal(to_numpy(t2), t) and np.array_equal(to_numpy(y2), y), call="condition")
        if self.objects[new]["depth"] == 1 and not self.structured:
            b = self.objects[new]["model"]().approximation
            b.q_u, b.q_z = self.q[1]
            self.V, self.W = container(self.model), container(self.twin)
        self.m.event("conditioned")

    def get(self, name, style, how):
        o = self.objects[name]
        if style == "lazy":
            return o["model"]
        if style == "instance":
            return o["model"]()
        if style == "held":
            if o["held"] is None:
                o["held"] = o["model"]()
            return o["held"]
        if style == "explicit":
            return o["model"](o["model"].vs)
        # Condition an instance of the parent in place.
        parent, i = name.rsplit("|", 1)
        t, y = self.data[int(i)]
        conv = self.jnp.array if how["jax"] else np.array
        inst = self.objects[parent]["model"]()
        res = inst.condition(conv(t), conv(y))
        self.m.check("instance conditioned in place", res is inst and inst.posterior, object=name)
        return res

    def instance(self, name, style, how):
        o = self.get(name, style, how)
        return o if o.instantiated else o()

    def given(self, conv, i, a):
        """The arrays that a user keeps: the same object for the same values, and NumPy buffers that are overwritten."""
        if conv is np.array:
            b = self.buffers.setdefault((i, a.shape), a)
            b[...] = a
            return b
        return self.buffers.setdefault((i, a.tobytes()), conv(a))

    def ask(self, name, question, style, how):
        """Returns the answer as a dictionary of arrays."""
        m, jnp = self.m, self.jnp
        obj = self.get(name, style, how)
        conv = jnp.array if how["jax"] else np.array
        question, _, which = question.partition(":")
        t, y = self.data[int(which or 0)]
        args = [t.copy(), y.copy(), self.x[int(which or 0) % 2].copy(), self.u.copy(), self.lags.copy()]
        T, Y, X, U, L = [self.given(conv, i, a) for i, a in enumerate(args)] if how.get("same") else [conv(a) for a in args]
        reset(1234)
        out, kinds = {}, []
        if question == "elbo":
            e = obj.elbo(T, Y, **({"num_samples": 8} if self.structured else {}))
            out["elbo"], kinds = to_numpy(e), [e]
        elif question == "elbo z" and not self.structured:
            e = obj.elbo(T, Y, collapsed="z")
            out["elbo"], kinds = to_numpy(e), [e]
        elif question == "predict":
            mean, var = obj.predict(X, **({"num_samples": 7} if self.structured else {}))
            out.update(mean=to_numpy(mean), var=to_numpy(var))
            kinds = [mean, var]
        elif question == "kernel_approx":
            K = obj.kernel_approx(X, L, U)
            out["K"], kinds = to_numpy(K), [K]
        elif question == "sample":
            K, f = obj.sample(X, normalise=how["norm"]) if not how["norm"] else obj.sample(X, normalise=True)
            out.update({"K" + str(how["norm"]): to_numpy(K), "f" + str(how["norm"]): to_numpy(f)})
            kinds = [K, f]
        elif question == "kernel":
            p = obj.predict_kernel(L, num_samples=6)
            out.update(x=to_numpy(p.x), mean=to_numpy(p.mean), lo=to_numpy(p.err_95_lower), all=to_numpy(p.all_samples))
        elif question == "psd":
            p = obj.predict_psd(L, num_samples=6)
            out.update(x=to_numpy(p.x), mean=to_numpy(p.mean))
        elif question == "fourier":
            a, b = obj.predict_fourier(num_samples=6)
            out.update(mean=to_numpy(a), var=to_numpy(b))
        elif question == "filter":
            p = obj.predict_filter(conv(np.linspace(-1, 1, 7) * self.case["cfg"]["scale"]), num_samples=3, min_phase=False)
            out.update(mean=to_numpy(p.mean))
        else:
            return None
        m.check("arguments unmodified", all(np.array_equal(to_numpy(a), b) for a, b in zip((T, Y, X, U, L), args)), call=question)
        key = dict(question=question, cls=self.case["cfg"]["cls"], scheme=self.model.scheme, jax=how["jax"])
        for k in kinds:
            m.check("returns the kind given", is_jax(k) if how["jax"] else is_np(k), kind=str(type(k)), **key)
        return out

    def questions(self, name):
        d = self.objects[name]["depth"]
        qs = ["elbo:0", "elbo:1", "elbo:3", "kernel_approx:0", "kernel_approx:1"]
        if d == 0:
            qs += ["sample:0", "sample:1"] + (["elbo z:0", "elbo z:3"] if not self.structured else [])
        else:
            qs += ["predict:0", "predict:1", "predict:1", "kernel", "fourier", "psd"]
            if self.case["cfg"]["cls"] != "RGPCM":
                qs += ["filter"]
            if self.structured:
                qs = [q for q in qs if not q.startswith("elbo")]
        return qs

    def step(self):
        g, m = self.g, self.m
        how = dict(jax=bool(g.rand() < 0.5), norm=bool(g.rand() < 0.5), same=bool(g.rand() < 0.5))
        names = sorted(self.objects)
        r = g.rand()
        deepest = 1 if self.structured else 2
        if (r < 0.2 or len(names) < 4) and len(names) < 7:
            parent = names[g.randint(len(names))]
            i = int(g.randint(4))
            if self.objects[parent]["depth"] < deepest and f"{parent}|{i}" not in self.objects:
                self.condition(parent, i, how)
                self.unchanged("condition " + parent)
                return
        name = names[g.randint(len(names))]
        qs = self.questions(name)
        q = qs[g.randint(len(qs))]
        styles = ["lazy", "lazy", "instance", "held", "held", "held", "explicit"]
        if self.objects[name]["depth"] >= 1:
            styles.append("in place")
        style = styles[g.randint(len(styles))]
        d = self.objects[name]["depth"]
        if d >= 1 and "kernel_approx" in q and g.rand() < 0.5:
            # Posteriors do not produce samples of the prior.
            obj = self.get(name, style, how)
            m.raises("posterior refuses prior samples", RuntimeError, lambda: obj.sample(self.x[0]))
        if self.structured and "elbo" in q:
            self.restore()
        out = self.ask(name, q, style, how)
        self.unchanged(f"{q} {name} {style}")
        if out is None:
            return
        for k, v in out.items():
            tag = (name, q, k)
            key = dict(object=name, question=q, what=k, style=style, jax=how["jax"], cls=self.case["cfg"]["cls"], scheme=self.model.scheme)
            if tag in self.seen:
                first, s0 = self.seen[tag]
                sc = float(np.max(np.abs(first))) + 1e-300
                # The shadow was filled by another call style or another kind of array.
                m.close("same answer", v, first, rtol=1e-7, atol=1e-10, scale=sc, first=s0, **key)
                self.asked_again += 1
                m.state(q, self.objects[name]["depth"], style, how["jax"], self.case["cfg"]["cls"])
            else:
                self.seen[tag] = (v, style)
        # Two posteriors are different objects of the same prior: check their priors.
        if d == 0:
            a = self.instance(name, style, how).approximation
            m.check("prior of the model", name == "twin" or np.array_equal(to_numpy(a.p_u.prec), self.K_u) and np.array_equal(to_numpy(a.p_z.prec), self.K_z), style=style)
        elif not self.structured and not name.startswith("twin"):
            a = self.instance(name, style, how).approximation
            m.check("prior of the posterior", np.array_equal(to_numpy(a.p_u.lam), to_numpy(self.q[d - 1][0].lam)), object=name, style=style)


    def alternate(self):
        """Ask held instances of several posteriors the same questions in turn."""
        # Always at least two posteriors.
        for i in range(2):
            if f"prior|{i}" not in self.objects:
                self.condition("prior", i, dict(jax=bool(i)))
        names = sorted(n for n, o in self.objects.items() if o["depth"] >= 1)[:3]
        plan = [("prior", q, jax) for jax in (True, False) for q in ("elbo:0", "elbo:3", "elbo:1", "elbo:0", "kernel_approx:0", "kernel_approx:1", "kernel_approx:0")]
        plan += [(n, q, bool(i)) for i in range(2) for n in names for q in (("predict:0", "predict:1") if i == 0 else ("predict:0",))]
        for name, q, jax in plan:
            if self.structured and "elbo" in q:
                self.restore()
            out = self.ask(name, q, "held", dict(jax=jax, norm=False, same=True))
            self.unchanged(f"{q} {name} held")
            for k, v in out.items():
                if (name, q, k) not in self.seen:
                    # Ask in another way first.
                    first = self.ask(name, q, "instance", dict(jax=jax, norm=False))
                    self.seen[name, q, k] = (first[k], "instance")
                first = self.seen[name, q, k][0]
                self.m.close("same answer in turn", v, first, rtol=1e-7, atol=1e-10, scale=float(np.max(np.abs(first))) + 1e-300, object=name, question=q, what=k)
                self.m.event("asked in turn")


def run(case, m):
    if case["kind"] == "refit":
        return refit(case, m)
    w = World(case, m)
    for _ in range(case["steps"]):
        w.step()
    w.alternate()
    # Everything seen so far is asked once more at the end, in another style.
    for name, q in sorted({(a, b) for a, b, _ in w.seen}):
        how = dict(jax=bool(w.g.rand() < 0.5), norm=any((name, q, "KTrue") == s for s in w.seen))
        if w.structured and "elbo" in q:
            w.restore()
        out = w.ask(name, q, ["lazy", "instance", "held"][w.g.randint(3)], how)
        w.unchanged(q)
        for k, v in out.items():
            if (name, q, k) in w.seen:
                first = w.seen[name, q, k][0]
                m.close("same answer at the end", v, first, rtol=1e-7, atol=1e-10, scale=float(np.max(np.abs(first))) + 1e-300, object=name, question=q, what=k)
    # Posteriors of different data are different, if their answers use the data.
    preds = {n: w.seen[n, "predict:0", "mean"][0] for n in w.objects if (n, "predict:0", "mean") in w.seen and w.objects[n]["depth"] == 1}
    if w.structured:
        names = sorted(preds)
        for a, b in zip(names, names[1:]):
            m.check("posteriors differ", np.max(np.abs(preds[a] - preds[b])) > 1e-9 or max(np.max(np.abs(preds[a])), np.max(np.abs(preds[b]))) < 1e-6, a=a, b=b)
    m.event("asked again", w.asked_again)


def refit(case, m):
    import jax.numpy as jnp

    cfg = case["cfg"]
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, cfg)
    conv = np.array if case["np"] else jnp.array
    key = dict(cls=cfg["cls"], scheme=cfg["kw"]["scheme"])
    other = gen.build(dict(cfg, kw=dict(cfg["kw"], noise=0.123)))
    inst = other()
    if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e7:
        raise core.Skip("ill-conditioned")
    inst.approximation.q_u, inst.approximation.q_z
    V = container(other)
    runs = []
    for i in range(2):
        reset(77)
        model = gen.build(cfg)
        T, Y = conv(t), conv(y)
        model.fit(T, Y, iters=case["iters"])
        m.check("arguments unmodified", np.array_equal(to_numpy(T), t) and np.array_equal(to_numpy(Y), y), call="fit", **key)
        m.check("fitting does not condition", model.prior and not model.instantiated, **key)
        C = container(model)
        if model.scheme == "structured":
            a = model().approximation
            C.update(us=to_numpy(a.q_u_samples), zs=to_numpy(a.q_z_samples))
        reset(5)
        mean, var = model.condition(T, Y).predict(T, **({"num_samples": 20} if model.scheme == "structured" else {}))
        C.update(mean=to_numpy(mean), var=to_numpy(var))
        runs.append(C)
        # Other calls in between must not matter: everything is reset.
        np.random.randn(3)
        gen.build(cfg)().approximation.q_u
    A, Bb = runs
    m.check("same names", set(A) == set(Bb), **key)
    for n in A:
        if n in Bb:
            m.close("refit reproduces", Bb[n], A[n], rtol=1e-9, atol=1e-12, scale=np.max(np.abs(A[n])) + 1e-300, what=n, **key)
    W = container(other)
    m.check("other models untouched", set(V) == set(W) and all(np.array_equal(V[n], W[n]) for n in V), **key)
    m.state("refit", *key.values())
    m.event("refits")
