"""The experiment runner under recording stand-ins and in scratch directories."""
import json
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import core, gen
from ..core import to_numpy

PROPERTY = "C24"
RULE = ("A case builds a random selection of models by name (any order, container and repetition, unknown names mixed in) and compares them with "
        "the settings asked for; trains random selections with random options into a scratch directory and compares fits, files and reloaded "
        "models with fits made directly, while calls of the fitting code are recorded; or executes the runner as a program with random command "
        "lines, once to train and once to load.  Non-trivial: a built, trained or reloaded set of models compared.")
ASSUMPTIONS = ["the plots of the analysis are replaced by a recorder in the quick tier"]
BUDGET = {"quick": 55, "thorough": 600}
MANDATORY = 34
MIN_CASES = 30
CASE_TIMEOUT = 200
NAMES = ["gpcm", "cgpcm", "gprv"]


def settings(rng):
    scale = gen.r(rng.choice([0.4, 1.0, 2.0]) * rng.uniform(0.8, 1.3))
    window = gen.r(scale * rng.uniform(1.2, 2.2))
    t0 = rng.choice([0.0, -3.0, 5.5])
    span = scale * rng.uniform(2, 4)
    n = rng.choice([2, 4, 7])
    t = [t0, t0 + span] + sorted(t0 + span * rng.random() for _ in range(n - 2))
    if rng.random() < 0.3:
        rng.shuffle(t)
    return dict(scale=scale, window=window, noise=gen.r(10 ** rng.uniform(-2, -0.3)), t=gen.rlist(t), n_u=rng.choice([3, 4, 5, 6, 7]), n_z=rng.choice([3, 4, 5, 6, 7, 9]), fix=rng.random() < 0.4, extend=rng.random() < 0.25)


def cases(rng, tier):
    k = 1 if tier == "quick" else 8
    for i in range(6 * k):
        scheme = ["structured", "mean-field-ca", "mean-field-gradient"][(i // 3) % 3]
        names = rng.sample(NAMES, rng.choice([1, 1, 2])) if i % 3 else [NAMES[(i // 3) % 3]]
        if scheme == "structured" and tier == "quick":
            names = names[:1]
        cfg = dict()
        if rng.random() < 0.8 or scheme != "structured":
            cfg["iters"] = rng.choice([4, 8, 14])
        else:
            cfg["iters"] = 7
        if scheme == "structured" and rng.random() < 0.6:
            cfg["optimise_hypers"] = rng.random() < 0.3
        yield dict(kind="train", names=names, scheme=scheme, config=cfg, epsilon=1e-10, must=i < 6, **settings(rng))
    for i in range(2 * k):
        names = [["gpcm"], ["cgpcm", "gprv"], ["gprv", "gpcm", "cgpcm"], ["gprv"], ["cgpcm"]][(i + rng.randint(0, 1)) % 5]
        scheme = ["mean-field-ca", "structured", "mean-field-collapsed-gradient"][i % 3]
        yield dict(kind="program", names=names, scheme=scheme, iters=rng.choice([4, 6, 10]), fix_hypers=scheme == "structured" and rng.random() < 0.6, default=i % 4 == 2 and len(names) == 3, pseed=rng.randint(0, 99), path=rng.choice([[], ["a"], ["a", "b"]]), full=tier == "thorough" and i % 4 == 0, must=True, epsilon=1e-10, timeout=300, **settings(rng))
    for i in range(26 * k):
        names = [rng.choice(NAMES) for _ in range(rng.choice([0, 1, 2, 3, 3, 4]))]
        bad = [rng.choice(["GPCM", "rgpcm", "gp", "", "cgpc", "gpcm "])] if rng.random() < 0.25 else []
        s = settings(rng)
        if rng.random() < 0.25:
            s["n_u"] = None
        if rng.random() < 0.25:
            s["n_z"] = None
            s["extend"] = False
        if i % 6 < 2:
            # All models with the rarer settings.
            names, bad = rng.choice([NAMES, NAMES[:2], NAMES[::-1] + ["cgpcm"]])[:], []
            s.update(extend=i % 2 == 0, fix=i % 2 == 1, n_z=rng.choice([3, 4, 5, 6, 7, 9]))
        yield dict(kind="build", names=names, bad=bad, container=rng.choice(["list", "tuple", "set"]), scheme=rng.choice(["structured", "mean-field-ca", "mean-field", "mean-field-gradient"]), epsilon=1e-10, **s)


def experiment():
    import importlib
    import wbml.out

    if core.REPO not in sys.path:
        sys.path.insert(0, core.REPO)
    e = importlib.import_module("experiments.experiment")
    if os.path.realpath(e.__file__) != os.path.realpath(os.path.join(core.REPO, "experiments", "experiment.py")):
        raise RuntimeError("wrong experiments package")
    return e


def warm():
    experiment()


def build(case, names=None):
    y = gen.data(case["seed"], np.array(case["t"]), dict(scale=case["scale"], t0=0.0))
    names = case["names"] if names is None else names
    t = np.array(case["t"])
    e = experiment()
    ms = e.build_models(names, scheme=case["scheme"], window=case["window"], scale=case["scale"], noise=case["noise"], t=t, y=y, fix_window_scale=case["fix"], n_u=case["n_u"], n_z=case["n_z"], extend_t_z=case["extend"])
    return ms, t, y


def asked(m, case, models, names, key):
    """The models have the settings asked for, by the definitions of the settings."""
    import gpcm

    order = [n for n in NAMES if n in names]
    classes = dict(gpcm=gpcm.GPCM, cgpcm=gpcm.CGPCM, gprv=gpcm.RGPCM)
    m.check("exactly the models, in order", [type(x) for x in models] == [classes[n] for n in order], got=[type(x).__name__ for x in models], want=order, **key)
    t, w, s = np.array(case["t"]), case["window"], case["scale"]
    for n, x in zip(order, models):
        k = dict(key, model=n)
        m.check("scheme", x.scheme == case["scheme"], got=x.scheme, **k)
        m.check("noise", float(x.noise) == case["noise"] and not x.fix_noise, **k)
        m.check("not conditioned", x.prior and not x.instantiated, **k)
        m.check("fixed parameters", x.fix_window == case["fix"] and x.fix_scale == case["fix"], **k)
        inst = x()
        if case["fix"]:
            m.check("fixed parameters are not variables", not {"alpha", "gamma", "lambda"} & set(x.vs.names), variables=sorted(x.vs.names), **k)
        else:
            m.check("learnable parameters are variables", {"noise", "alpha", "lambda" if n == "gprv" else "gamma"} <= set(x.vs.names), variables=sorted(x.vs.names), **k)
        tu, tz = to_numpy(inst.t_u), None if n == "gprv" else to_numpy(inst.t_z)
        if n == "gprv":
            m.close("window", float(x.alpha), 1 / w, rtol=1e-12, atol=0, **k)
            m.close("scale", float(x.lam), 1 / s, rtol=1e-12, atol=0, **k)
            if case["n_z"]:
                m.check("n_z", inst.n_z == 2 * int(np.ceil(case["n_z"] / 2)) + 1, got=inst.n_z, **k)
            m.check("covers the data", inst.a <= t.min() and inst.b >= t.max() and inst.b <= t.max() + 1e-9, **k)
            want_u = case["n_u"]
        else:
            a = (np.pi / 4) / w**2
            m.close("window", float(x.alpha), a, rtol=1e-12, atol=0, **k)
            m.close("scale", float(x.gamma), (np.pi / 4) / s**2 - 0.5 * a, rtol=1e-9, atol=0, **k)
            want_u = case["n_u"] and (case["n_u"] + 2 if n == "cgpcm" else case["n_u"] + (case["n_u"] + 1) % 2)
            sp = (t.max() - t.min()) / (case["n_z"] - 1) if case["n_z"] else None
            if case["extend"]:
                m.close("extended spacing", np.diff(tz), sp * np.ones(len(tz) - 1), rtol=1e-8, atol=0, **k)
                m.check("extended left", tz.min() <= t.min() - 2 * w * (1 - 1e-9), **k)
                m.check("extended right", (tz.max() >= t.max() + 2 * w * (1 - 1e-9)) == (n == "gpcm") and tz.max() >= t.max() - 1e-9 * w, **k)
            else:
                m.close("z covers the data", np.array([tz.min(), tz.max()]), np.array([t.min(), t.max()]), rtol=1e-10, atol=1e-12, **k)
                if case["n_z"]:
                    m.check("n_z", len(tz) == case["n_z"], got=len(tz), **k)
        if want_u:
            m.check("n_u", len(tu) == want_u and inst.n_u == want_u, got=len(tu), want=want_u, **k)


def run(case, m):
    return dict(build=run_build, train=run_train, program=run_program)[case["kind"]](case, m)


def run_build(case, m):
    key = dict(names=case["names"], bad=case["bad"], container=case["container"])
    g = np.random.RandomState(case["seed"] % 2**32)
    names = list(case["names"])
    for b in case["bad"]:
        names.insert(g.randint(len(names) + 1), b)
    given = dict(list=list, tuple=tuple, set=set)[case["container"]](names)
    copy = given.copy() if case["container"] != "tuple" else given
    if case["bad"]:
        m.raises("unknown names refused", ValueError, lambda: build(case, given), **key)
        try:
            build(case, given)
        except ValueError as e:
            m.check("refusal names the unknown", all(b in str(e) for b in case["bad"]), message=str(e), **key)
    else:
        models, t, y = build(case, given)
        asked(m, case, models, case["names"], key)
        if len(models) > 1:
            m.check("separate containers", len({id(x.vs) for x in models}) == len(models), **key)
    m.check("names unmodified", given == copy, **key)
    m.state("build", *sorted(set(case["names"])), case["scheme"], case["fix"], bool(case["bad"]))
    m.event("built")


class Record:
    """Counts calls of the fitting code while passing them on."""

    def __enter__(self):
        import gpcm.approx as approx
        import gpcm.model as model
        import probmods

        self.calls, self.saved = [], []
        base = probmods.Model

        def fit(obj, *args, _f=base.fit, **kw):
            self.calls.append((obj.name, dict(kw), len(args)))
            return _f(obj, *args, **kw)

        self.swap(base, "fit", fit)
        for mod, name in ((approx, "minimise_l_bfgs_b"), (approx, "minimise_adam"), (approx, "_fit_mean_field_ca")):
            if hasattr(mod, name):
                def opt(*args, _f=getattr(mod, name), _n=name, **kw):
                    self.inner.append(_n)
                    return _f(*args, **kw)

                self.swap(mod, name, opt)
        self.inner = []
        return self

    def swap(self, obj, name, new):
        self.saved.append((obj, name, obj.__dict__[name]))
        setattr(obj, name, new)

    def __exit__(self, *a):
        for obj, name, old in self.saved:
            setattr(obj, name, old)


def reset(seed):
    import lab.jax as B

    np.random.seed(seed)
    B.set_random_seed(seed)


def container(model):
    C = {n: to_numpy(model.vs[n]).copy() for n in model.vs.names}
    if model.scheme == "structured":
        try:
            a = model().approximation
            C.update(us=to_numpy(a.q_u_samples), zs=to_numpy(a.q_z_samples))
        except Exception:
            pass
    return C


def answers(model, t, y):
    reset(3)
    p = model.condition(t, y)
    mean, var = p.predict(t, **({"num_samples": 15} if model.scheme == "structured" else {}))
    return dict(mean=to_numpy(mean), var=to_numpy(var))


def run_train(case, m):
    from wbml.experiment import WorkingDirectory

    e = experiment()
    key = dict(names=case["names"], scheme=case["scheme"], config=case["config"])
    models, t, y = build(case)
    for x in models:
        inst = x()
        if max(np.linalg.cond(to_numpy(inst.K_u)), np.linalg.cond(to_numpy(inst.K_z))) > 1e8:
            raise core.Skip("ill-conditioned")
    names = [n for n in NAMES if n in case["names"]]
    d = tempfile.mkdtemp(prefix="rv24")
    try:
        wd = WorkingDirectory(d, "wd", log=None, diff=None)
        models, t, y = build(case)
        config = dict(case["config"])
        reset(11)
        with Record() as rec:
            e.train_models(models, t, y, config, False, wd=wd)
        m.check("options unmodified", config == case["config"], **key)
        m.check("every model fitted once", [c[0] for c in rec.calls] == [x.name for x in models], calls=str(rec.calls), **key)
        m.check("with the given options", all(c[1] == case["config"] for c in rec.calls), calls=str(rec.calls), **key)
        files = sorted(os.path.join(p, f)[len(d) + 1:] for p, _, fs in os.walk(d) for f in fs)
        want = sorted(os.path.join("wd", "models", x.name + ".pickle") for x in models)
        m.check("one file per model, by name", [f for f in files if f.endswith(".pickle")] == want, files=files, **key)
        stamp = {f: open(os.path.join(d, f), "rb").read() for f in want}
        C = [container(x) for x in models]
        A = [answers(x, t, y) for x in models]

        # The same fits made directly.
        direct, _, _ = build(case)
        reset(11)
        for x in direct:
            x()  # Variables are initialised for all models before training.
        for x in direct:
            x.fit(t, y, **case["config"])
        for x, c in zip(direct, C):
            D = container(x)
            m.check("same variables", set(D) == set(c), model=x.name, **key)
            for n in c:
                if n in D:
                    m.close("trained as asked", c[n], D[n], rtol=1e-6, atol=1e-10, scale=np.max(np.abs(D[n])) + 1e-300, what=n, model=x.name, **key)
        moved = [any(n in i and np.max(np.abs(i[n] - c[n])) > 0 for n in c) for i, c in zip([container(x) for x in build(case)[0]], C)]

        # Load instead.
        loaded, _, _ = build(case)
        g = np.random.RandomState(case["seed"] % 2**32)
        for x in loaded:
            if g.rand() < 0.5:
                x().approximation.q_u
        np.random.seed(5)
        with Record() as rec:
            e.train_models(loaded, t, y, dict(case["config"]), True, wd=wd)
        m.check("loading runs no fitting", not rec.calls and not rec.inner, calls=str(rec.calls), inner=rec.inner, **key)
        m.check("files untouched", all(open(os.path.join(d, f), "rb").read() == s for f, s in stamp.items()), **key)
        for x, c, a in zip(loaded, C, A):
            for n, v in c.items():
                if n in ("us", "zs"):
                    got = to_numpy(getattr(x().approximation, dict(us="q_u_samples", zs="q_z_samples")[n]))
                else:
                    if not m.check("restored", n in x.vs, name=n, model=x.name, **key):
                        continue
                    got = to_numpy(x.vs[n])
                m.close("restored", got, v, rtol=1e-8, atol=2e-9, scale=np.max(np.abs(v)) + 1e-300, what=n, model=x.name, **key)
            b = answers(x, t, y)
            for n in a:
                m.close("restored answers", b[n], a[n], rtol=1e-5, atol=1e-8, scale=1 + np.max(np.abs(a[n])), what=n, model=x.name, **key)
        # Without a directory nothing is written.
        third, _, _ = build(case, case["names"][:1])
        before = sorted(os.listdir(d))
        cwd = os.getcwd()
        os.chdir(d)
        try:
            e.train_models(third, t, y, dict(case["config"]), False)
        finally:
            os.chdir(cwd)
        m.check("nothing saved without a directory", sorted(os.listdir(d)) == before, **key)
        m.state("train", *names, case["scheme"], *sorted(case["config"]))
        m.event("trained", len(models))
        m.event("reloaded", len(models))
    finally:
        shutil.rmtree(d)


PROGRAM = r"""
import sys, pickle, json, os
cfg = json.load(open("cfg.json"))
for p in cfg["path"]:
    sys.path.insert(0, p)
import numpy as np
from rv import core
core.setup_repo()
from rv.checks import c24
e = c24.experiment()
import lab.jax as B
rec = c24.Record()
log = dict(analysed=None)
if not cfg["full"]:
    def analyse(models, t, y, wd=None, **kw):
        log["analysed"] = [x.name for x in models]
        log["models"] = models
        log["kw"] = sorted(kw)
        log["wd"] = wd.root if wd else None
    e.analyse_models = analyse
else:
    import matplotlib
    matplotlib.use("Agg")
    f = e.analyse_models
    def analyse(models, *a, **kw):
        log["models"], log["kw"] = models, sorted(set(kw) - {"wd"})
        log["analysed"], log["wd"] = [x.name for x in models], kw["wd"].root
        return f(models, *a, **kw)
    e.analyse_models = analyse
args, wd = e.setup("thing")
t, y = np.array(cfg["t"]), np.array(cfg["y"])
state = np.random.get_state()[1].copy()
draw = np.random.randn(3)
np.random.seed(cfg["nseed"])
with rec:
    e.run(args=args, wd=wd, noise=cfg["noise"], window=cfg["window"], scale=cfg["scale"], t=t, y=y, n_u=cfg["n_u"], n_z=cfg["n_z"], fix_window_scale=cfg["fix"], extend_t_z=cfg["extend"], t_plot=np.array(cfg["t_plot"]))
models = log.pop("models")
out = dict(log, calls=[(c[0], c[1]) for c in rec.calls], root=wd.root, args=vars(args), draw=draw, epsilon=B.epsilon,
           containers={x.name: c24.container(x) for x in models}, types=[type(x).__name__ for x in models],
           answers={x.name: c24.answers(x, t, y) for x in models}, schemes=[x.scheme for x in models])
pickle.dump(out, open(cfg["out"], "wb"))
"""


def run_program(case, m):
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, dict(scale=case["scale"], t0=0.0))
    key = dict(names=case["names"], scheme=case["scheme"], full=case["full"])
    d = tempfile.mkdtemp(prefix="rv24p")
    try:
        with open(os.path.join(d, "prog.py"), "w") as f:
            f.write(PROGRAM)
        base = ["--scheme", case["scheme"], "--seed", str(case["pseed"])]
        if not case["default"]:
            base += ["--model"] + case["names"]
        names = case["names"]
        trainopt = ["--iters", str(case["iters"])] + (["--fix-hypers"] if case["fix_hypers"] else [])
        results = []
        for i, argv in enumerate((trainopt, ["--load"])):
            cfg = dict(path=[core.REPO, core.ROOT], t=case["t"], y=y.tolist(), t_plot=np.linspace(t.min(), t.max(), 7).tolist(), out=os.path.join(d, f"out{i}"), nseed=case["pseed"] if not i else 991, full=case["full"],
                       **{k: case[k] for k in ("noise", "window", "scale", "n_u", "n_z", "fix", "extend")})
            json.dump(cfg, open(os.path.join(d, "cfg.json"), "w"))
            p = subprocess.run([sys.executable, "prog.py"] + case["path"] + base + argv, cwd=d, capture_output=True, timeout=280, env=dict(os.environ, PYTHONHASHSEED="0", GIT_CEILING_DIRECTORIES=d))
            if not m.check("program completes", p.returncode == 0, argv=argv, stderr=p.stderr.decode()[-1200:], **key):
                return
            with open(cfg["out"], "rb") as f:
                results.append(pickle.load(f))
        a, b = results
        order = [n for n in NAMES if n in names]
        classes = dict(gpcm="GPCM", cgpcm="CGPCM", gprv="RGPCM")
        for r in results:
            m.check("models asked for", r["types"] == [classes[n] for n in order], got=r["types"], **key)
            m.check("schemes asked for", set(r["schemes"]) == {case["scheme"]}, **key)
            m.check("analysis given everything", r["analysed"] is not None and len(r["analysed"]) == len(order) and r["wd"] == r["root"] and r["kw"] == ["t_plot"], got=str(r["kw"]), **key)
            m.check("working directory", os.path.normpath(r["root"]) == os.path.join("_experiments", "thing", *case["path"]), root=r["root"], **key)
        opts = dict(iters=case["iters"])
        if case["fix_hypers"]:
            opts["optimise_hypers"] = False
        m.check("fits with the options asked for", [c[0] for c in a["calls"]] == a["analysed"] and all(c[1] == opts for c in a["calls"]), calls=str(a["calls"]), want=opts, **key)
        m.check("loading runs no fitting", b["calls"] == [], calls=str(b["calls"]), **key)
        m.check("seeded", np.array_equal(a["draw"], b["draw"]), **key)
        saved = sorted(os.listdir(os.path.join(d, a["root"], "models")))
        m.check("one file per model, by name", saved == sorted(n + ".pickle" for n in a["analysed"]), files=saved, **key)
        for n, C in a["containers"].items():
            D = b["containers"][n]
            for k, v in C.items():
                if k in D:
                    m.close("restored", D[k], v, rtol=1e-8, atol=2e-9, scale=np.max(np.abs(v)) + 1e-300, what=k, **key)
                elif k in ("us", "zs"):
                    m.check("samples restored", False, what=k, **key)
            for k, v in a["answers"][n].items():
                m.close("restored answers", b["answers"][n][k], v, rtol=1e-5, atol=1e-8, scale=1 + np.max(np.abs(v)), what=k, **key)
        if case["fix_hypers"]:
            # Nothing but the samples moved from where the constructor put it.
            init = {x.name: container(x) for x in build(case)[0]}
            for x in build(case)[0]:
                x()
                for n in x.vs.names:
                    m.close("hyperparameters fixed", a["containers"][x.name][n], to_numpy(x.vs[n]), rtol=1e-9, atol=1e-12, name=n, **key)
        if case["full"]:
            pdfs = sorted(f for f in os.listdir(os.path.join(d, a["root"])) if f.endswith(".pdf"))
            m.check("plots", len(pdfs) == 4, files=pdfs, **key)
        m.state("program", *order, case["scheme"], case["fix_hypers"])
        m.event("programs")
    finally:
        shutil.rmtree(d)
