"""Elliptical slice sampling: an online trace checker and tests of invariance."""
import contextlib

import numpy as np

from ..core import to_numpy

PROPERTY = "C12"
RULE = ("A case runs the sampler with recording log-likelihood and prior functions (Gaussian, truncated, bimodal, heavy-tailed, "
        "flat; scalars, columns, matrices; NumPy and JAX).  Every evaluation is replayed by a trace checker: proposals lie on the "
        "ellipse of the last valid state and the newest prior draw, all rejected values are below and the accepted one above a common "
        "height below the current value, angles fit one shrinking bracket around the current state, states carry their own "
        "log-likelihoods; transitions started from exact draws of the target must stay exact draws and be reversible.  Faults make "
        "transitions exhaust their attempts.  Non-trivial: a transition replayed or a population tested.")
ASSUMPTIONS = ["statistics over independent replicas reject beyond 6.5 standard errors",
               "the prior draw and the state are linearly independent, so that angles are identifiable"]
BUDGET = {"quick": 60, "thorough": 600}
MANDATORY = 40
MIN_CASES = 24


def cases(rng, tier):
    n = 48 if tier == "quick" else 700
    kinds = ["trace", "population", "fault", "trace", "population", "move"]
    for i in range(n):
        kind = kinds[i % len(kinds)]
        yield dict(kind=kind, target=rng.choice(["gauss", "narrow", "truncated", "bimodal", "ring", "flat"]), dim=rng.choice([2, 3, 8]),
                   shape=rng.choice(["vector", "column", "matrix"]), num=rng.choice([1, 7, 40]), trace=rng.random() < 0.3,
                   jax=(rng.random() < 0.25 and kind != "population"), init=rng.random() < 0.5, N=25000 if tier == "quick" else 60000,
                   steps=rng.choice([1, 1, 2, 4]), block=rng.choice([99, 100, 101, 150, 250]), epsilon=1e-12)


def likelihood(name, d, g):
    """(log-likelihood bounded above by zero, description)."""
    c = g.randn(d) * 0.7
    if name == "gauss":
        return lambda x: -0.5 * np.sum((x[:3] - c[:3]) ** 2) / 0.3
    if name == "narrow":
        return lambda x: -0.5 * (x[0] - 0.5) ** 2 / 0.004
    if name == "truncated":
        return lambda x: 0.0 if x[0] + 0.3 * x[1] > 0.4 else -np.inf
    if name == "bimodal":
        return lambda x: np.logaddexp(-0.5 * np.sum((x[:2] - 1.2) ** 2) / 0.1, -0.5 * np.sum((x[:2] + 1.0) ** 2) / 0.2 - 0.3) - 0.6
    if name == "ring":
        return lambda x: -8.0 * (np.sqrt(x[0] ** 2 + x[1] ** 2) - 1.3) ** 2
    return lambda x: 0.0


def rng_choice(g, but):
    return g.choice([n for n in ("gauss", "bimodal", "ring", "flat") if n != but])


class Recorder:
    """Wraps both user functions; the history of calls is the observation."""

    def __init__(self, ll, g, shape, chol, jax, fail=None):
        self.ll, self.g, self.shape, self.L, self.jax = ll, g, shape, chol, jax
        self.events, self.fail, self.calls = [], fail, 0

    def wrap(self, x):
        x = x.reshape(self.shape)
        if self.jax:
            import jax.numpy as jnp

            return jnp.array(x)
        return x

    def prior(self):
        y = self.wrap(self.L @ self.g.randn(len(self.L)))
        self.events.append(("prior", to_numpy(y).copy()))
        return y

    def log_lik(self, x):
        v = to_numpy(x)
        self.calls += 1
        l = self.ll(v.ravel())
        if self.fail is not None and self.fail(self.calls):
            l = -np.inf
        self.events.append(("ll", v.copy(), float(l)))
        if self.jax:
            import jax.numpy as jnp

            return jnp.array(l)
        return l


def make(case, g, fail=None):
    import lab.jax  # noqa: F401
    from gpcm.sample import ESS

    d = case["dim"]
    ll = likelihood(case["target"], d, g)
    shape = dict(vector=(d,), column=(d, 1), matrix=(d // 2, 2) if d % 2 == 0 else (1, d))[case["shape"]]
    A = g.randn(d, d) * 0.3 + np.eye(d)
    L = np.linalg.cholesky(A @ A.T)
    rec = Recorder(ll, g, shape, L, case["jax"], fail)
    x0 = None
    if case["init"] or case["target"] == "truncated":
        x0 = exact(rec, 1)[0]
        x0 = rec.wrap(x0)
    s = ESS(rec.log_lik, rec.prior, x0) if x0 is not None else ESS(rec.log_lik, rec.prior)
    return s, rec, x0


def exact(rec, n):
    """Exact draws of the target by rejection: the log-likelihoods are bounded by zero."""
    out = []
    d = len(rec.L)
    while len(out) < n:
        X = rec.g.randn(4096, d) @ rec.L.T
        l = np.array([rec.ll(x) for x in X])
        out.extend(X[np.log(rec.g.rand(len(X))) < l])
    return np.array(out[:n])


def angles(x, y, props):
    """theta in (-pi, pi] of each proposal and the largest distance from the ellipse."""
    A = np.stack([x.ravel(), y.ravel()], axis=1)
    C = np.linalg.lstsq(A, np.stack([p.ravel() for p in props], axis=1), rcond=None)[0]
    th = np.arctan2(C[1], C[0])
    off = max(np.max(np.abs(p.ravel() - np.cos(a) * x.ravel() - np.sin(a) * y.ravel())) for p, a in zip(props, th))
    return th, off


def bracket_ok(th, tol=1e-9):
    """Is there a cut point theta0 in [0, 2 pi) for which the sequence of proposals is a
    run of the shrinking bracket [theta0 - 2 pi, theta0]?"""
    phi = np.mod(th, 2 * np.pi)
    cuts = np.unique(np.concatenate([[0.0, 2 * np.pi], phi, phi - 1e-7, phi + 1e-7]))
    mids = np.concatenate([(cuts[1:] + cuts[:-1]) / 2])
    for c in mids:
        if not 0 <= c <= 2 * np.pi:
            continue
        lo, hi = c - 2 * np.pi, c
        ok = True
        for p in phi:
            a = p if p <= c else p - 2 * np.pi
            if not lo - tol <= a <= hi + tol:
                ok = False
                break
            if a > 0:
                hi = a
            else:
                lo = a
        if ok:
            return True
    return False


def replay(m, rec, start, x, lx, samples, key):
    """Split the recorded history into transitions and check each.  Returns the last state."""
    ev = rec.events[start:]
    i = 0
    thetas = []
    for s in samples:
        s = to_numpy(s)
        ends = None
        attempts = 0
        while True:
            # One try: a prior draw, then proposals.
            if not m.check("trace/fresh prior draw", i < len(ev) and ev[i][0] == "prior", i=i, **key):
                return None
            y = ev[i][1]
            i += 1
            j = i
            while j < len(ev) and ev[j][0] == "ll":
                j += 1
            props = ev[i:j]
            if not m.check("trace/proposals", len(props) > 0, **key):
                return None
            i = j
            attempts += 1
            accepted = props[-1][2] > max([p[2] for p in props[:-1]], default=-np.inf) and np.array_equal(props[-1][1], s)
            th, off = angles(x, y, [p[1] for p in props])
            m.le("trace/ellipse", off, 1e-8 * (1 + np.abs(x).max() + np.abs(y).max()), **key)
            vals = [p[2] for p in props]
            m.check("trace/bracket", bracket_ok(th), angles=th.tolist()[:20], **key)
            m.event("evaluations", len(props))
            if accepted:
                # A height below the current value separates rejected from accepted.
                if len(vals) > 1:
                    m.check("trace/height", max(vals[:-1]) < lx and max(vals[:-1]) < vals[-1], rejected=max(vals[:-1]), current=lx, accepted=vals[-1], **key)
                m.check("trace/above", vals[-1] > -np.inf, **key)
                thetas.append(th[-1])
                break
            # Exhausted: everything was rejected, so nothing exceeded the current value.
            m.check("trace/exhausted", len(props) >= 2 and all(v < lx for v in vals), n=len(props), **key)
            m.event("exhausted")
            if not m.check("trace/retries", attempts < 50, **key):
                return None
        m.state("transition", len(props) if len(props) < 8 else "8+", key["target"])
        x, lx = s, props[-1][2]
        m.event("transitions")
    m.check("trace/nothing else evaluated", i == len(ev), left=len(ev) - i, **key)
    return x, lx


@contextlib.contextmanager
def progress_recorder(shown):
    """Record what is shown to the user while sampling."""
    import wbml.out

    original = wbml.out.Progress

    class Recorded(original):
        def __call__(self, values=None, *args, **kw):
            if isinstance(values, dict):
                shown.append(dict(values))
            return super().__call__(values or {}, *args, **kw)

    wbml.out.Progress = Recorded
    try:
        yield
    finally:
        wbml.out.Progress = original


def reported(m, events, out, shown, key):
    """The reported quantities describe the states and the work that was done for them."""
    if not shown:
        return
    # Evaluations since the last prior draw, for every state that was returned.
    tries, k, values = [], 0, [to_numpy(o) for o in out]
    for i, e in enumerate(events):
        if e[0] == "prior":
            k = 0
            continue
        k += 1
        if len(tries) < len(values) and np.array_equal(e[1], values[len(tries)]) and (i + 1 == len(events) or events[i + 1][0] == "prior"):
            tries.append((k, e[2]))
    m.check("reported/all", len(shown) == len(values), shown=len(shown), **key)
    for d, (k, l) in zip(shown, tries):
        if "Attempts" in d:
            m.check("reported/attempts", d["Attempts"] == k, shown=d["Attempts"], evaluations=k, **key)
        if "Pseudo-log-likelihood" in d:
            m.close("reported/log-likelihood", float(d["Pseudo-log-likelihood"]), l, rtol=1e-12, atol=0, **key)
    chain = np.array([v.ravel()[0] for v in values])
    for i, d in enumerate(shown):
        n = i + 1
        if "Effective sample size" not in d or n < 30:
            continue
        c = chain[20:n] - np.mean(chain[20:n])
        rho = [np.sum(c[: len(c) - k] * c[k:]) / np.sum(c**2) for k in range(1, 6)]
        ratio = 1 / (1 + 2 * sum(rho))
        e = float(d["Effective sample size"])
        m.check("reported/effective sample size", min(abs(e / ratio - n), abs(e / ratio - (n - 20))) < 1e-6 * n, shown=e, want=[n * ratio, (n - 20) * ratio], **key)
    m.event("reports", len(shown))


def run(case, m):
    g = np.random.RandomState(case["seed"] % 2**32)
    key = dict(target=case["target"], kind=case["kind"], shape=case["shape"], trace=case["trace"])
    if case["kind"] == "population":
        return population(case, m, g, key)
    if case["kind"] == "fault":
        return fault(case, m, g, key)
    s, rec, x0 = make(case, g)
    if x0 is None:
        m.check("init/prior", rec.events[0][0] == "prior" and np.array_equal(to_numpy(s.x), rec.events[0][1]), **key)
    else:
        m.check("init/given", np.array_equal(to_numpy(s.x), to_numpy(x0)), **key)
    m.close("init/log-likelihood", float(s.log_lik_x), rec.ll(to_numpy(s.x).ravel()), rtol=1e-12, atol=0, **key)
    x, lx = to_numpy(s.x).copy(), float(s.log_lik_x)
    for rep in range(2):
        st = len(rec.events)
        shown = []
        with progress_recorder(shown):
            out = s.sample(case["num"], trace=case["trace"])
        m.check("returns num states", isinstance(out, list) and len(out) == case["num"] and all(np.shape(to_numpy(o)) == rec.shape for o in out), **key)
        if case["trace"]:
            reported(m, rec.events[st:], out, shown, key)
        r = replay(m, rec, st, x, lx, out, key)
        if r is None:
            return
        x, lx = r
        m.check("position kept", np.array_equal(to_numpy(s.x), x), **key)
        m.check("stored with its own log-likelihood", float(s.log_lik_x) == lx and abs(lx - rec.ll(x.ravel())) <= 1e-9 * (1 + abs(lx)), **key)
        # Earlier states are not overwritten by later ones.
        hist = [to_numpy(o).copy() for o in out]
        if case["kind"] == "move":
            new = rec.wrap(exact(rec, 1)[0])
            s.move(new)
            m.check("moved", np.array_equal(to_numpy(s.x), to_numpy(new)) and float(s.log_lik_x) == rec.ll(to_numpy(new).ravel()), **key)
            x, lx = to_numpy(new).copy(), float(s.log_lik_x)
            # The target changes, as in a sampler that alternates over parameters: moving to the
            # current state takes over the new likelihood, also if the state is the same object.
            other = likelihood(rng_choice(g, case["target"]), case["dim"], g)
            rec.ll = other if np.isfinite(other(x.ravel())) else (lambda v: -0.3 * np.sum(v**2))
            s.move(s.x)
            m.check("moved on the spot", np.array_equal(to_numpy(s.x), x), **key)
            m.close("likelihood taken over", float(s.log_lik_x), rec.ll(x.ravel()), rtol=1e-12, atol=0, **key)
            m.event("targets changed")
            lx = rec.ll(x.ravel())
            if not case["jax"]:
                # Arrays may be modified in place before moving to them.
                new = s.x.copy()
                s.move(new)
                new *= 0.9
                s.move(new)
                m.close("likelihood of a modified state", float(s.log_lik_x), rec.ll(to_numpy(new).ravel()), rtol=1e-12, atol=0, **key)
                x, lx = to_numpy(new).copy(), rec.ll(to_numpy(new).ravel())
        st = len(rec.events)
        one = s.sample()
        r = replay(m, rec, st, x, lx, one, key)
        if r is None:
            return
        x, lx = r
        m.check("history kept", all(np.array_equal(a, to_numpy(b)) for a, b in zip(hist, out)), **key)
    m.state(case["kind"], case["target"], case["dim"], case["shape"], case["num"], case["jax"], case["init"])


def fault(case, m, g, key):
    """All evaluations of a stretch fail: the transition exhausts its attempts and is retried."""
    lo = [10**9]
    s, rec, _ = make(case, g, fail=lambda n: lo[0] <= n < lo[0] + case["block"])
    s.sample(3)
    x, lx = to_numpy(s.x).copy(), float(s.log_lik_x)
    st = len(rec.events)
    lo[0] = rec.calls + 1 + g.randint(3)
    out = s.sample(case["num"])
    r = replay(m, rec, st, x, lx, out, key)
    if r is None:
        return
    m.check("position kept", np.array_equal(to_numpy(s.x), r[0]) and float(s.log_lik_x) == r[1], **key)
    m.check("valid", np.isfinite(r[1]), **key)
    m.state("fault", case["target"], case["block"], case["num"])
    m.event("faults", case["block"])


def population(case, m, g, key):
    """Replicas started from exact draws stay exact draws, and transitions are reversible."""
    from gpcm.sample import ESS

    case = dict(case, shape="vector", jax=False)
    s, rec, _ = make(case, g)
    d, N = case["dim"], case["N"]
    X0 = exact(rec, N)
    np.random.seed(case["seed"] % 2**32)
    X1 = np.empty_like(X0)
    for i in range(N):
        s.move(X0[i])
        X1[i] = s.sample(case["steps"])[-1]
        if i % 500 == 0:
            rec.events.clear()
    m.check("moves", np.mean(np.any(X0 != X1, axis=1)) > 0.999, **key)
    # Statistics bounded under any target: signs, squashed coordinates and their products.
    T = lambda X: np.concatenate([np.tanh(X), np.tanh(X**2 - 1), np.tanh(X[:, :1] * X[:, 1:2]), np.cos(2 * X[:, :2])], axis=1)
    A, Bm = T(X0), T(X1)
    D = Bm - A
    z = np.abs(D.mean(0)) / (D.std(0) / np.sqrt(N) + 1e-12)
    m.le("invariant", np.max(z), 6.5, statistics=z, steps=case["steps"], N=N, **key)
    l0, l1 = np.array([rec.ll(v) for v in X0]), np.array([rec.ll(v) for v in X1])
    q0, q1 = np.exp(l0), np.exp(l1)
    D = q1 - q0
    if case["target"] not in ("flat", "truncated"):
        m.le("invariant/likelihood", abs(D.mean()) / (D.std() / np.sqrt(N)), 6.5, **key)
        for p in (0.25, 2.0):
            D = np.exp(p * l1) - np.exp(p * l0)
            m.le("invariant/likelihood power", abs(D.mean()) / (D.std() / np.sqrt(N)), 6.5, p=p, **key)
    # Reversibility: E f(x0) g(x1) = E g(x0) f(x1).
    k = A.shape[1]
    for i, j in [(0, 1), (0, d), (1, d), (k - 1, 0), (k - 1, d), (k - 3, 0)]:
        D = A[:, i] * Bm[:, j] - A[:, j] * Bm[:, i]
        m.le("reversible", abs(D.mean()) / (D.std() / np.sqrt(N) + 1e-12), 6.5, i=i, j=j, **key)
    m.event("replicas", N)
    m.state("population", case["target"], d, case["steps"])
