"""The analysis of experiments: what is printed and drawn, read back from the figures."""
import glob
import os
import shutil
import tempfile

import numpy as np

from .. import core, gen
from ..core import to_numpy
from .c24 import NAMES, experiment

PROPERTY = "C26"
RULE = ("A case builds a random selection of small models, gives them a posterior, runs the analysis of the experiment runner on data, and reads back what "
        "the user sees: the numbers that were printed and the curves, bands, points, bars, titles and limits in the figures (with real figures of "
        "matplotlib, drawn without a display).  The predictions that the analysis asked for are recorded on the way.  Curves are compared with the "
        "posterior's own predictions, spectra and kernels with their definitions, printed likelihoods with the Gaussian likelihood and ELBOs with "
        "the models'.  Non-trivial: a figure with a prediction compared.")
ASSUMPTIONS = ["predictions themselves are decided by C10, C17 and C18", "appearance (colours, sizes, fonts) is not judged", "whether times that are neither even nor grossly uneven count as evenly spaced is not judged"]
BUDGET = {"quick": 60, "thorough": 700}
MANDATORY = 12
MIN_CASES = 10
CASE_TIMEOUT = 240


def warm():
    experiment()


def cases(rng, tier):
    n = 14 if tier == "quick" else 150
    for i in range(n):
        unit = rng.choice([1.0, 1.0, 0.01, 300.0])
        scale = gen.r(rng.uniform(0.5, 1.4) * unit)
        names = [["gpcm"], ["cgpcm"], ["gprv"], ["gpcm", "gprv"], ["cgpcm", "gprv"], ["gpcm", "cgpcm"]][i % 6]
        if i % 8 == 7:
            names = NAMES[:]
        even = i % 2 == 0
        num = [12, 20, 31, 90][(i // 2) % 4]
        yield dict(names=names, scheme="structured" if i % 4 == 3 else "mean-field-ca", scale=scale, window=gen.r(scale * rng.uniform(1.2, 2.0)), unit=unit, noise=gen.r(10 ** rng.uniform(-1.5, 0.3)),
                   t0=gen.r(rng.choice([0.0, -2.0, 1.0]) * scale), dt=gen.r(scale * rng.uniform(0.15, 0.3)), num=num, even=even, gap=rng.choice([0.33, 0.66, 0.75]), true=rng.random() < 0.6 or i < 4, comp=i % 3 == 0,
                   t_plot=rng.choice([None, 5, 40]) if i > 1 else [None, 25][i], truth=rng.random() < 0.5, ranges=rng.sample(["function", "kernel", "psd"], rng.choice([0, 1, 2, 3])),
                   yranges=rng.sample(["function", "kernel", "psd"], rng.choice([0, 0, 2, 3])), wd=rng.random() < 0.7, ms=[0, 1, 2][(i // 6 + i) % 3], amp=rng.choice([1.0, 1.0, 3.0]), iters=rng.choice([3, 10]), epsilon=1e-10)


def eq(t, scale):
    return np.exp(-0.5 * (t[:, None] - t[None, :]) ** 2 / scale**2)


def logpdf(K, y):
    L = np.linalg.cholesky(K)
    a = np.linalg.solve(L, y)
    return -0.5 * np.sum(a**2) - np.sum(np.log(np.diag(L))) - 0.5 * len(y) * np.log(2 * np.pi)


def curve(ax, xy, tol=1e-6):
    """Is a curve through these points drawn?  Returns the lines that are."""
    x, y = np.asarray(xy[0], float), np.asarray(xy[1], float)
    out = []
    for l in ax.get_lines():
        X, Y = np.asarray(l.get_xdata(), float), np.asarray(l.get_ydata(), float)
        if X.shape == x.shape and near(X, x, tol) and near(Y, y, tol):
            out.append(l)
    return out


def near(a, b, tol):
    ok = np.isfinite(a) & np.isfinite(b)
    if not np.array_equal(np.isfinite(a), np.isfinite(b)):
        return False
    return np.all(np.abs(a[ok] - b[ok]) <= tol * (np.max(np.abs(b[ok])) if np.any(ok) else 0.0) + 1e-300)


def band(ax, x, lower, upper, tol=1e-6):
    """Is this band drawn?"""
    import matplotlib.collections as mc

    want = np.concatenate([np.stack([x, lower], 1), np.stack([x, upper], 1)])
    for c in ax.collections:
        if not isinstance(c, mc.PolyCollection) or not c.get_paths():
            continue
        v = np.concatenate([p.vertices for p in c.get_paths()])
        sx, sy = np.ptp(want[:, 0]) + np.max(np.abs(want[:, 0])), np.max(np.abs(want[:, 1])) + 1e-300
        # Every corner of the band is a vertex, and every vertex is a corner of the band.
        D = np.abs(want[:, None, 0] - v[None, :, 0]) / sx + np.abs(want[:, None, 1] - v[None, :, 1]) / sy
        if np.max(D.min(1)) < tol and np.max(D.min(0)) < tol:
            return True
    return False


def points(ax, x, y, tol=1e-6):
    import matplotlib.collections as mc

    want = np.stack([np.ravel(x), np.ravel(y)], 1)
    for c in ax.collections:
        if isinstance(c, mc.PathCollection):
            o = np.asarray(c.get_offsets(), float)
            if o.shape == want.shape and np.allclose(o[np.lexsort(o.T)], want[np.lexsort(want.T)], rtol=tol, atol=tol * np.max(np.abs(want))):
                return True
    return False


def axes(title):
    """All axes with a title, over all figures."""
    import matplotlib.pyplot as plt

    return [ax for n in plt.get_fignums() for ax in plt.figure(n).axes if ax.get_title() == title]


def labelled(ax, label):
    return [l for l in ax.get_lines() if l.get_label() == label]


def run(case, m):
    import lab.jax as B
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import wbml.out
    from mlkernels import EQ, Delta
    import gpcm
    from gpcm.model import AbstractGPCM

    e = experiment()
    g = np.random.RandomState(case["seed"] % 2**32)
    s = case["scale"]
    t = case["t0"] + case["dt"] * np.arange(case["num"], dtype=float)
    if not case["even"]:
        # Remove a region, as one does to predict it.
        n = max(3, len(t) // 6)
        k = min(int(len(t) * case["gap"]), len(t) - n - 2)
        t = np.concatenate([t[:k], t[k + n :]])
    y = case["amp"] * (np.sin(2 * (t - case["t0"]) / s) + 0.3 * g.randn(len(t)))
    models = e.build_models(case["names"], scheme=case["scheme"], window=case["window"], scale=s, noise=case["noise"], t=t, y=y, fix_window_scale=False, n_u=5, n_z=7, extend_t_z=False)
    if case["ms"]:
        # The same model with its basis functions in another order.
        ms = list(range(9)) if case["ms"] == 1 else list(range(5)) + [6, 8]
        g.shuffle(ms)
        models = [gpcm.RGPCM(scheme=case["scheme"], window=case["window"], scale=s, noise=case["noise"], t=t, n_u=5, m_max=4, ms=np.array(ms)) if isinstance(x, gpcm.RGPCM) else x for x in models]
    key = dict(scheme=case["scheme"], names="+".join(case["names"]))
    for x in models:
        kw = dict(iters=case["iters"])
        if case["scheme"] == "structured":
            kw["optimise_hypers"] = False
        x.fit(t, y, **kw)
    before = [{n: to_numpy(B.dense(x.vs[n])).copy() for n in x.vs.names} for x in models]

    # What a user relies on: the posterior's own predictions.
    t_plot = t if case["t_plot"] is None else np.linspace(t.min() - 0.3 * s, t.max() + 0.3 * s, case["t_plot"])
    direct = []
    for x in models:
        mu, var = x.condition(t, y).predict(t_plot)
        pk = x.condition(t, y).predict_kernel()
        direct.append((to_numpy(mu), to_numpy(var), float(x().noise), pk))
    elbos = [float(x.elbo(t, y)) if case["scheme"] != "structured" else None for x in models]
    kw = {}
    if case["true"]:
        kw.update(true_kernel=EQ().stretch(s), true_noisy_kernel=EQ().stretch(s) + case["noise"] * Delta())
    if case["comp"]:
        kw["comparative_kernel"] = lambda vs_: vs_.pos(1.0) * EQ().stretch(vs_.pos(s)) + vs_.pos(0.3) * Delta()
    if case["t_plot"] is not None:
        kw["t_plot"] = t_plot
    if case["truth"]:
        truth = (t_plot, np.cos(t_plot / s))
        kw["truth"] = truth
    ranges = dict(function=(t.min() - s, t.max() + 2 * s), kernel=(0, 1.7 * s), psd=(0, 0.4 / s))
    yranges = dict(function=(-4.0, 5.0), kernel=(-0.5, 1.5), psd=(-20.0, 10.0))
    if case["ranges"]:
        kw["x_range"] = {k: ranges[k] for k in case["ranges"]}
    if case["yranges"]:
        kw["y_range"] = {k: yranges[k] for k in case["yranges"]}

    # Record what is predicted and printed.
    preds, printed, saved = [], [], []
    originals = {n: AbstractGPCM.__dict__[n] for n in ("predict_kernel", "predict_psd")}
    kv, savefig = wbml.out.kv, plt.savefig

    def recording(n):
        def f(self, *a, **k):
            r = originals[n].__get__(self, type(self))(*a, **k)
            if hasattr(r, "all_samples"):
                preds.append((n, self.name, r, bool(self.prior)))
            return r

        return f

    def kv_recording(k, v=None, *a, **b):
        if isinstance(k, str):
            printed.append((k, v))
        return kv(k, v, *a, **b)

    def savefig_recording(path, *a, **b):
        saved.append(os.path.basename(str(path)))
        open(path, "wb").close()

    class Wd:
        def __init__(self, root):
            self.root = root

        def file(self, *path, **k):
            p = os.path.join(self.root, *path)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            return p

    d = tempfile.mkdtemp(prefix="rv_")
    plt.close("all")
    for n in originals:
        setattr(AbstractGPCM, n, recording(n))
    wbml.out.kv, plt.savefig = kv_recording, savefig_recording
    try:
        if case["wd"]:
            kw["wd"] = Wd(d)
        e.analyse_models(models, t, y, **kw)
        if case["wd"]:
            m.check("figures are saved", len(glob.glob(os.path.join(d, "*.pdf"))) == 4 and len(set(saved)) == 4, files=saved, **key)
        judge(m, case, e, models, t, y, t_plot, kw, direct, elbos, preds, dict((k, v) for k, v in printed), key, g)
    finally:
        for n, f in originals.items():
            setattr(AbstractGPCM, n, f)
        wbml.out.kv, plt.savefig = kv, savefig
        plt.close("all")
        shutil.rmtree(d, ignore_errors=True)

    for x, b in zip(models, before):
        a = {n: to_numpy(B.dense(x.vs[n])) for n in x.vs.names}
        # The structured ELBO is documented to fit a mean-field approximation, which may be stored.
        mine = [n for n in b if case["scheme"] != "structured" or not n.endswith((".lam", ".prec"))]
        m.check("analysis changes no model", x.prior and set(mine) <= set(a) and all(np.array_equal(a[n], b[n]) for n in mine), model=x.name, **key)
    m.state(case["scheme"], *case["names"], case["even"], case["true"], case["comp"], len(t_plot), *case["ranges"])


def judge(m, case, e, models, t, y, t_plot, kw, direct, elbos, preds, printed, key, g):
    from gpcm import RGPCM
    from gpcm.util import estimate_psd

    s, noise = case["scale"], case["noise"]
    # The numbers.
    if case["true"]:
        m.close("printed/likelihood of the true process", float(to_numpy(printed.get("LML under true GP", np.nan))), logpdf(eq(t, s) + noise * np.eye(len(t)), y), rtol=1e-6, **key)
    if case["comp"]:
        from scipy.optimize import minimize

        f = lambda p: -logpdf(np.exp(p[0]) * eq(t, np.exp(p[1])) + (np.exp(p[2]) + 1e-10) * np.eye(len(t)), y)
        x0 = np.log([1.0, s, 0.3])
        res = minimize(f, x0, method="L-BFGS-B", bounds=[(-12, 12)] * 3)
        got = float(np.ravel(to_numpy(printed.get("LML under optimised GP", np.nan)))[0])
        m.le("printed/optimised is no worse than the start", -f(x0), got, slack=1e-6 * abs(f(x0)), **key)
        m.le("printed/optimised", -res.fun, got, slack=0.5 + 1e-2 * abs(res.fun), **key)
        m.event("optimised within", abs(-res.fun - got) < 1e-3 * abs(res.fun))
    for x, el in zip(models, elbos):
        ok = m.check("printed/ELBO of every model", x.name in printed, model=x.name, shown=sorted(printed), **key)
        if ok and el is not None:
            m.close("printed/ELBO", float(to_numpy(printed[x.name])), el, rtol=1e-7, model=x.name, **key)
        elif ok:
            m.check("printed/ELBO finite", np.isfinite(float(to_numpy(printed[x.name]))), model=x.name, **key)

    def one(title):
        a = axes(title)
        return a[0] if m.check("one plot per model", len(a) == 1, title=title, got=len(a), **key) else None

    def limits(ax, what, xdefault):
        want = kw.get("x_range", {}).get(what, xdefault)
        m.close("limits/x", np.array(ax.get_xlim()), np.array(want, float), rtol=1e-6, what=what, given=what in kw.get("x_range", {}), **key)
        if what in kw.get("y_range", {}):
            m.close("limits/y", np.array(ax.get_ylim()), np.array(kw["y_range"][what], float), rtol=1e-6, what=what, **key)

    for x, (mu, var, nv, pk) in zip(models, direct):
        k = dict(key, model=x.name)
        # The function.
        ax = one(f"Function ({x.name})")
        if ax is not None:
            m.check("function/data", points(ax, t, y), **k)
            m.check("function/prediction", len(curve(ax, (t_plot, mu))) > 0, labels=[l.get_label() for l in ax.get_lines()], **k)
            m.check("function/label", any(l in curve(ax, (t_plot, mu)) for l in labelled(ax, "Prediction")), **k)
            sd = np.sqrt(np.maximum(var - nv, 0))
            if np.min(var - nv) > 1e-6 * np.max(var):
                # The bands are the uncertainty of the function, and the dashed lines that of observations.
                for c in (1, 2):
                    m.check("function/band", band(ax, t_plot, mu - c * sd, mu + c * sd, 1e-5), sds=c, **k)
            for c in (-2, 2):
                m.check("function/model and noise", len(curve(ax, (t_plot, mu + c * np.sqrt(var)))) > 0, sds=c, noise=nv, variance=var[:3], lines=[np.asarray(l.get_ydata())[:3].tolist() for l in ax.get_lines()][:6], **k)
            if case["truth"]:
                m.check("function/truth", len(curve(ax, kw["truth"])) > 0, **k)
            else:
                m.check("function/no truth", not labelled(ax, "Truth"), **k)
            limits(ax, "function", (min(t_plot), max(t_plot)))
            m.event("functions")
        # Kernels and spectra.
        for what, title, name in (("kernel", "Kernel", "predict_kernel"), ("psd", "PSD", "predict_psd")):
            ax = one(f"{title} ({x.name})")
            mine = [p for p in preds if p[0] == name and p[1] == x.name]
            if ax is None:
                continue
            line = labelled(ax, "Prediction")
            if what == "kernel" and m.check("kernel/one prediction", len(line) == 1, **k):
                X, Y = (np.asarray(v, float) for v in (line[0].get_xdata(), line[0].get_ydata()))
                if m.check("kernel/lags", X.shape == pk.x.shape and near(X, pk.x, 1e-8), **k):
                    # Two averages over a thousand draws each.
                    m.le("kernel/like a separate prediction", np.max(np.abs(Y - pk.mean) / (9 * np.sqrt(2 * pk.var / 1000) + 1e-6 * np.max(np.abs(pk.mean)))), 1.0, **k)
            if not mine:
                m.event("predictions not seen")
                continue
            m.check(what + "/of the posterior", not mine[-1][3], **k)
            pred = mine[-1][2]
            m.check(what + "/prediction", any(l in curve(ax, (pred.x, pred.mean)) for l in line), **k)
            for p in ("68", "95"):
                lo, up = getattr(pred, f"err_{p}_lower"), getattr(pred, f"err_{p}_upper")
                if np.all(np.isfinite(lo)) and np.all(np.isfinite(up)):
                    m.check(what + "/band", band(ax, pred.x, lo, up), percent=p, **k)
            for j in range(pred.samples.shape[1]):
                m.check(what + "/samples", len(curve(ax, (pred.x, pred.samples[:, j]))) > 0, sample=j, **k)
            ac, true = labelled(ax, "Autocorrelation"), labelled(ax, "True")
            m.check(what + "/autocorrelation if the data are evenly spaced", bool(ac) == case["even"], n=len(t), **k)
            m.check(what + "/truth if there is one", bool(true) == case["true"], **k)
            c = y - y.mean()
            k_ac = np.array([np.sum(c[: len(c) - j] * c[j:]) / (len(c) - j) for j in range(len(c))])
            t_ac = t - t[0]
            if what == "kernel":
                m.check("kernel/inducing points", points(ax, to_numpy(x().t_u), 0 * to_numpy(x().t_u)), **k)
                if ac:
                    m.check("kernel/autocorrelation", ac[0] in curve(ax, (t_ac, k_ac)), **k)
                if true:
                    m.check("kernel/truth", true[0] in curve(ax, (pred.x, np.exp(-0.5 * np.asarray(pred.x) ** 2 / s**2))), **k)
                limits(ax, "kernel", (0, max(pred.x)))
            else:
                fr = None
                if case["even"]:
                    fr, ps = estimate_psd(t_ac, k_ac, db=True)
                    if ac:
                        m.check("psd/autocorrelation", ac[0] in curve(ax, (fr, ps)), **k)
                if true:
                    # The spectrum of the true kernel, where it is well above rounding.
                    f, p = np.asarray(true[0].get_xdata(), float), np.asarray(true[0].get_ydata(), float)
                    want = 10 * np.log10(np.sqrt(2 * np.pi) * s * np.exp(-2 * np.pi**2 * s**2 * np.clip(f, 0, 1.2 / s) ** 2))
                    see = (f <= 0.6 / s) & (f >= 0)
                    m.check("psd/truth is drawn where it matters", np.sum(see) >= 3, frequencies=f[:4], **k)
                    if np.any(see):
                        m.le("psd/truth", np.max(np.abs(p[see] - want[see])), 0.5, frequencies=f[see][:4], drawn=p[see][:4], want=want[see][:4], **k)
                limits(ax, "psd", (0, max(fr) if fr is not None else max(pred.x)))
            m.event(what + "s")
        # Fourier features.
        if isinstance(x, RGPCM):
            inst = x.condition(t, y)()
            ms, span, mm = to_numpy(inst.ms).astype(float), float(inst.b - inst.a), inst.m_max
            if case["scheme"] == "structured":
                mean = vz = None
            else:
                mean, vz = map(to_numpy, inst.predict_fourier())
            for title, inds in (("Cosine", ms <= mm), ("Sine", ms > mm)):
                ax = one(f"{title} Features ({x.name})")
                if ax is None or not m.check("features/bars", len(ax.containers) >= 1, **k):
                    continue
                c = ax.containers[0]
                xy = np.asarray(c[0].get_xydata(), float)
                seg = np.concatenate([np.asarray(b.get_segments(), float) for b in c[2]])
                f = np.where(ms > mm, ms - mm, ms) / span
                for j in np.where(inds)[0]:
                    at = np.argmin(np.abs(xy[:, 0] - f[j]))
                    if not m.check("features/frequency", abs(xy[at, 0] - f[j]) < 1e-9 / span, **k) or mean is None:
                        continue
                    m.close("features/mean", xy[at, 1], mean[j], rtol=1e-6, scale=np.max(np.abs(mean)) + 1e-12, which=title, **k)
                    b = seg[np.argmin(np.abs(seg[:, 0, 0] - f[j]))]
                    m.close("features/interval", np.sort(b[:, 1]), mean[j] + 1.96 * np.sqrt(vz[j]) * np.array([-1, 1]), rtol=1e-5, which=title, **k)
            m.event("features")
        else:
            m.check("features/only for the Fourier model", not axes(f"Cosine Features ({x.name})"), **k)
