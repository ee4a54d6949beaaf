"""Mean-field coordinate ascent, observed update by update."""
import numpy as np

from .. import gen, ref
from .c07 import combine, mf_elbo, mk, posterior

PROPERTY = "C08"
RULE = ("A case is a random model, data set and starting point (library default, random, peaked), possibly after an earlier "
        "conditioning step with its own posterior; fit runs one update at a time and the stored factors are compared after "
        "every update with the exact maximisers computed from quadrature integrals, the ELBO trace is checked to be "
        "monotone, several updates at once must equal the same number of single ones, and a converged fit must be "
        "stationary.  Non-trivial: at least one observed update.")
ASSUMPTIONS = ["covariances of inducing variables with condition number at most 1e7"]
BUDGET = {"quick": 75, "thorough": 900}
MANDATORY = 24
MIN_CASES = 16


def cases(rng, tier):
    n = 30 if tier == "quick" else 400
    kinds = ["trace", "trace2", "converge", "trace", "structured"]
    for i in range(n):
        cls = ["GPCM", "CGPCM", "RGPCM"][i % 3]
        kind = kinds[(i // 3) % len(kinds)]
        cfg = gen.cfg_ok(rng, cls, scheme="structured" if kind == "structured" else "mean-field-ca")
        if kind == "structured" and rng.random() < 0.3:
            cfg["kw"]["scheme"] = "Structured"
        yield dict(kind=kind, cfg=cfg, epsilon=0.0, t=gen.times(rng, cfg, gen.count(rng, [1, 3, 8, 15])), t2=gen.times(rng, cfg, rng.choice([1, 4])),
                   start=rng.choice(["default", "random", "peaked", "half", "half"]), steps=4 if tier == "quick" else 8, perturb=rng.random() < 0.4)


def hypers(model):
    return {n: np.asarray(model.vs[n]) for n in model.vs.names if "q_u" not in n and "q_z" not in n}


def same_nat(m, oracle, dist, want, scale=1.0, rtol=1e-7, **kw):
    from ..core import to_numpy

    lam, P = want
    m.close(oracle + "/prec", to_numpy(dist.prec), P, rtol=rtol, **kw)
    m.close(oracle + "/lam", to_numpy(dist.lam), lam, rtol=rtol, scale=np.max(np.abs(lam)) + np.max(np.abs(P)), **kw)


def run(case, m):
    g, model, inst, R = gen.setup(case, perturb_it=case["perturb"])
    cls = case["cfg"]["cls"]
    t = np.array(case["t"])
    y = gen.data(case["seed"], t, case["cfg"])
    T = ref.Terms(R, t, y)
    nu, nz = len(R.t_u), T.Kz.shape[0]
    key = dict(cls=cls, kind=case["kind"], start=case["start"])
    m.state(cls, case["kind"], case["start"], len(t), gen.model_key(case["cfg"]))
    pu = pz = None
    ap = inst.approximation
    target = model
    if case["kind"] == "trace2":
        t1 = np.array(case["t2"])
        pu, pz = posterior(g, nu, T.Ku, "random"), posterior(g, nz, T.Kz, "random")
        ap.q_u, ap.q_z = pu, pz
        target = model.condition(t1, gen.data(case["seed"] + 1, t1, case["cfg"]))
        ap = target().approximation
    ap.q_u, ap.q_z  # Initialise.
    optimal = lambda which, q: combine(T, which, q, pu if which == "u" else pz)
    if case["start"] == "half":
        # One factor is already optimal for the other one, which is not optimal itself.
        if g.rand() < 0.7:
            ap.q_z = posterior(g, nz, T.Kz, "random")
            P, lam = optimal("u", ap.q_z)
            ap.q_u = mk(lam, P)
        else:
            ap.q_u = posterior(g, nu, T.Ku, "random")
            P, lam = optimal("z", ap.q_u)
            ap.q_z = mk(lam, P)
    elif case["start"] != "default":
        ap.q_u, ap.q_z = posterior(g, nu, T.Ku, case["start"]), posterior(g, nz, T.Kz, case["start"])
    h0 = hypers(model)
    look = lambda: (target().approximation.q_u, target().approximation.q_z)

    if case["kind"] == "structured":
        model.elbo(t, y, num_samples=5)
        stationary(m, T, look, optimal, key, "structured")
    elif case["kind"] in ("trace", "trace2"):
        old = look()
        start = old
        e_old = float(mf_elbo(T, *old, pu, pz)[0])
        m.close("elbo", float(target.elbo(t, y)), e_old, rtol=1e-6, scale=mf_elbo(T, *old, pu, pz)[1])
        for k in range(case["steps"]):
            target.fit(t, y, iters=1)
            new = look()
            P, lam = optimal("u", old[1])
            same_nat(m, "update u", new[0], (lam, P), step=k, **key)
            P, lam = optimal("z", new[0])
            same_nat(m, "update z", new[1], (lam, P), step=k, **key)
            e = float(target.elbo(t, y))
            _, sc = mf_elbo(T, *new, pu, pz)
            m.le("ascent", e_old, e, slack=1e-9 * sc + 1e-9, step=k, **key)
            # No perturbation of either factor does better.
            for which in (0, 1):
                q = list(new)
                if which == 0:
                    P, lam = optimal("u", new[1])
                    q[0] = mk(lam, P)
                    best = mf_elbo(T, *q, pu, pz)[0]
                else:
                    best = e
                L = np.asarray(q[which].lam)
                q[which] = mk(L + 0.1 * g.randn(*L.shape) * (np.abs(L).max() + 0.1), posterior(g, len(L), np.asarray(ref_dense(q[which].prec)), "random").prec.mat)
                m.le("maximiser", mf_elbo(T, *q, pu, pz)[0], best, slack=1e-8 * sc + 1e-9, which=which, **key)
            old, e_old = new, e
            m.event("updates")
        # The same updates in one call.
        ap = target().approximation
        ap.q_u, ap.q_z = start
        target.fit(t, y, iters=case["steps"])
        q = look()
        if not np.any(np.isnan(np.asarray(q[0].lam))):
            same_nat(m, "several at once/u", q[0], (np.asarray(ref_dense(old[0].lam)), np.asarray(ref_dense(old[0].prec))), rtol=1e-5, **key)
            same_nat(m, "several at once/z", q[1], (np.asarray(ref_dense(old[1].lam)), np.asarray(ref_dense(old[1].prec))), rtol=1e-5, **key)
        else:
            m.check("finite", False, **key)
    else:
        target.fit(t, y, iters=20000)
        stationary(m, T, look, optimal, key, "converged")
        e = float(target.elbo(t, y))
        sc = mf_elbo(T, *look(), pu, pz)[1]
        m.close("elbo at optimum", e, mf_elbo(T, *look(), pu, pz)[0], rtol=1e-7, scale=sc, **key)
        m.close("collapsed at optimum/z", float(target.elbo(t, y, collapsed="z")), e, rtol=1e-7, scale=sc, **key)
        m.close("collapsed at optimum/u", float(target.elbo(t, y, collapsed="u")), e, rtol=1e-6, scale=sc, **key)
    h1 = hypers(model)
    m.check("hyperparameters untouched", h0.keys() == h1.keys() and all(np.array_equal(h0[k], h1[k]) for k in h0), **key)
    if pu is not None:
        a0 = model().approximation
        m.close("earlier posterior untouched/u", ref_dense(a0.q_u.lam), ref_dense(pu.lam), rtol=1e-7)
        m.close("earlier posterior untouched/z", ref_dense(a0.q_z.prec), ref_dense(pz.prec), rtol=1e-7)


def stationary(m, T, look, optimal, key, tag):
    from ..core import to_numpy

    qu, qz = look()
    P, lam = optimal("z", qu)
    same_nat(m, tag + "/z", qz, (lam, P), **key)
    P, lam = optimal("u", qz)
    # Convergence means root-mean-square changes below 1e-6 in the natural parameters of both factors,
    # after which one more update moves at most as far, times the local contraction.
    dP = np.sqrt(np.mean((to_numpy(qu.prec) - P) ** 2)) + np.sqrt(np.mean((to_numpy(qu.lam) - lam) ** 2))
    m.le(tag + "/u", dP, 2e-5 + 1e-9 * np.max(np.abs(P)), **key)
    m.event("fixed points")


def ref_dense(x):
    from ..core import to_numpy

    return to_numpy(x)
