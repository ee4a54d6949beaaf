"""Symbolic Gaussian integrals against composite Gauss-Legendre quadrature of the evaluated integrand."""
import random

import numpy as np

from ..ref import gl

PROPERTY = "C04"
RULE = ("A case is a batch of random concave exponentiated quadratics over one to three integration variables and up to "
        "two free variables (cross terms up to correlation 0.995, scalar or array coefficients, peaks far inside, on and "
        "outside the region), integrated over the line, the negative half line/quadrant or a box whose four limits are "
        "independently infinite, numbers, arrays or polynomials in the free variables, in NumPy and JAX.  The oracle "
        "integrates the integrand itself numerically.  Non-trivial: a finite nonzero integral compared; plus refusals.")
ASSUMPTIONS = ["errors are judged relative to the integral over the whole line, since the closed form subtracts such terms"]
BUDGET = {"quick": 60, "thorough": 900}
MANDATORY = 32

KINDS = ["full1", "full2", "half1", "half2", "box1", "box2", "full3", "box2", "refuse", "box1"]


def cases(rng, tier):
    n = 60 if tier == "quick" else 2000
    for i in range(n):
        yield dict(kind=KINDS[i % len(KINDS)], batch={"box2": 8, "half2": 8, "full3": 3}.get(KINDS[i % len(KINDS)], 15))


def quad(g, nv, nf):
    """A random concave quadratic: (A, B, c0, lin) with exponent
    -0.5 v'Av + v'(b + C f) + c0 + e'f - 0.5 d |f|^2, v integration and f free variables."""
    sd = 10 ** g.uniform(-0.7, 0.7, nv)
    if g.rand() < 0.35:
        # Other units.
        sd = sd * 10 ** g.uniform(-3, 3)
    if nv == 1:
        R = np.eye(1)
    elif nv == 2:
        r = g.choice([0.0, g.uniform(-0.97, 0.97), g.uniform(-0.9, 0.9), g.choice([-1, 1]) * (1 - 10 ** g.uniform(-2.3, -1))])
        R = np.array([[1, r], [r, 1]])
    else:
        X = g.randn(nv, nv + 2)
        R = X @ X.T
        R = R / np.sqrt(np.outer(np.diag(R), np.diag(R)))
    S = R * np.outer(sd, sd)
    A = np.linalg.inv(S)
    mu = sd * g.uniform(-2, 2, nv) * g.choice([0, 1, 1.5])
    b = A @ mu
    C = A @ (sd[:, None] * g.uniform(-0.7, 0.7, (nv, nf)))
    e = g.uniform(-0.5, 0.5, nf)
    return A, b, C, e, g.uniform(-1, 1), S


def expression(A, b, C, e, c0, k, vn, fn, rng):
    """The same exponent as an ExpPoly, terms in random order."""
    from gpcm.exppoly import ExpPoly, const, var

    ts = [const(c0)]
    nv = len(vn)
    for i in range(nv):
        ts.append(const(-0.5 * A[i, i]) * var(vn[i]) ** 2)
        ts.append(const(b[i]) * var(vn[i]))
        for j in range(i):
            ts.append(const(-A[i, j]) * var(vn[i]) * var(vn[j]))
        for j in range(len(fn)):
            ts.append(const(C[i, j]) * var(vn[i]) * var(fn[j]))
    for j in range(len(fn)):
        ts.append(const(e[j]) * var(fn[j]))
        ts.append(const(-0.5) * var(fn[j], 2))
    rng.shuffle(ts)
    p = ts[0]
    for t in ts[1:]:
        p = p + t
    return ExpPoly(k, p)


def grid(lo, hi, mu, s, sc, n=10):
    """Nodes and weights over [lo, hi] clipped to mu +- 9.5 s, panels of at most sc."""
    a, b = max(lo, mu - 9.5 * s), min(hi, mu + 9.5 * s)
    if b <= a:
        return np.zeros(0), np.zeros(0)
    k = max(1, int(np.ceil((b - a) / sc)))
    x0, w0 = gl(n)
    e = np.linspace(a, b, k + 1)
    h = (e[1:] - e[:-1]) / 2
    return (h[:, None] * x0 + (e[:-1] + e[1:])[:, None] / 2).ravel(), (h[:, None] * w0).ravel()


def integral(A, b1, c1, k, lims, S):
    """Numerical integral of k exp(-v'Av/2 + b1'v + c1) over the box, and over the whole space (absolute)."""
    mu = S @ b1
    full = abs(k) * np.exp(0.5 * b1 @ mu + c1) * np.sqrt(np.linalg.det(2 * np.pi * S))
    nv = len(b1)
    gs = []
    for i in range(nv):
        lo, hi = lims[i]
        sgn = 1.0
        if hi < lo:
            lo, hi, sgn = hi, lo, -1.0
        x, w = grid(lo, hi, mu[i], np.sqrt(S[i, i]), 1.5 / np.sqrt(A[i, i]))
        gs.append((x, sgn * w))
    X = np.meshgrid(*[x for x, _ in gs], indexing="ij")
    if X[0].size == 0:
        return 0.0, full
    E = c1 + 0.0
    for i in range(nv):
        E = E + b1[i] * X[i] - 0.5 * A[i, i] * X[i] ** 2
        for j in range(i):
            E = E - A[i, j] * X[i] * X[j]
    V = np.exp(E)
    for _, w in reversed(gs):
        V = V @ w
    return k * float(V), full


def signed_union(lims):
    return lims


def run(case, m):
    rng = random.Random(case["seed"])
    g = np.random.RandomState(case["seed"] % 2**32)
    if case["kind"] == "refuse":
        return refuse(case, m, rng, g)
    kind, nv = case["kind"][:-1], int(case["kind"][-1])
    from gpcm.exppoly import const, var

    for _ in range(case["batch"]):
        nf = g.randint(0, 3)
        vn = ["a", "tau", "b2"][:nv]
        rng.shuffle(vn)
        fn = ["t", "s"][:nf]
        A, b, C, e, c0, S = quad(g, nv, nf)
        k = g.choice([1.0, -1.0]) * 10 ** g.uniform(-1, 1)
        ep = expression(A, b, C, e, c0, k, vn, fn, rng)
        # Free variables: broadcasting shapes.
        if nf:
            shapes = [(3, 1), (1, 2)] if g.rand() < 0.6 else [(2,), (2,)]
            if nf == 1 and g.rand() < 0.3:
                shapes = [()]
        else:
            shapes = []
        env = {fn[j]: g.uniform(-1.5, 1.5, shapes[j]) if shapes[j] else float(g.uniform(-1, 1)) for j in range(nf)}
        if g.rand() < 0.4:
            import jax.numpy as jnp

            env = {n: jnp.array(v) for n, v in env.items()}
        enp = {n: np.asarray(v, float) for n, v in env.items()}
        lims, spec = [], []
        args = []
        extra = {}
        for i in range(nv):
            if kind == "full":
                lo, hi = -np.inf, np.inf
                L = U = None
            elif kind == "half":
                lo, hi = -np.inf, 0.0
                L = U = None
            else:
                fl = g.randint(4)
                sd = np.sqrt(S[i, i])
                mk = lambda: limit(g, rng, sd, fn, i, extra, enp)
                L, lo = (-np.inf, -np.inf) if fl in (0, 2) else mk()
                U, hi = (np.inf, np.inf) if fl in (1, 2) else mk()
                args.append((vn[i], L, U))
                spec.append(fl)
            lims.append((lo, hi))
        full_env = dict(env, **extra)
        if kind == "full":
            got = ep.integrate(*vn, **full_env)
        elif kind == "half":
            got = ep.integrate_half(*vn, **full_env)
        else:
            order = list(range(nv))
            rng.shuffle(order)
            got = ep.integrate_box(*[args[o] for o in order], **full_env)
        # Broadcast everything and integrate element by element.
        ext = [np.asarray(v, float) for v in enp.values()] + [np.asarray(x, float) for lh in lims for x in lh]
        shape = np.broadcast(*ext).shape if ext else ()
        bc = lambda x: np.broadcast_to(np.asarray(x, float), shape)
        want, scale = np.zeros(shape), 0.0
        for idx in np.ndindex(*shape):
            f = np.array([bc(enp[n])[idx] for n in fn])
            b1 = b + C @ f
            c1 = c0 + e @ f - 0.5 * f @ f
            ll = [(bc(lo)[idx], bc(hi)[idx]) for lo, hi in lims]
            want[idx], fu = integral(A, b1, c1, k, ll, S)
            scale = max(scale, fu)
        got = np.asarray(got, float)
        try:
            got = np.broadcast_to(got, shape)  # A result that does not depend on an array may stay smaller.
        except ValueError:
            pass
        m.close(f"{kind}{nv}", got, want, rtol=1e-8, atol=0, scale=scale, spec=spec, rho=float(S[0, -1] / np.sqrt(S[0, 0] * S[-1, -1])),
                shape=shape, jax=any("jax" in type(v).__module__ for v in env.values()))
        m.state(kind, nv, nf, tuple(spec), len(shape), "zero" if np.all(np.abs(want) < 1e-12 * scale) else "mass")
        m.event("integrals", int(np.prod(shape)) if shape else 1)


def limit(g, rng, sd, fn, i, extra, enp):
    """A limit and its numerical value: number, array through a variable, or polynomial in free variables."""
    from gpcm.exppoly import const, var

    kind = g.choice(["number", "zero", "var", "poly"] if fn else ["number", "zero", "var"])
    if kind == "zero":
        return 0, 0.0
    if kind == "number":
        x = float(np.round(sd * g.uniform(-3, 3), 4))
        return x, x
    if kind == "var":
        n = f"lim{i}_{len(extra)}"
        x = sd * g.uniform(-3, 3)
        extra[n] = np.array([x]) if g.rand() < 0.3 else np.array(x)
        return var(n), extra[n]
    n = rng.choice(fn)
    c0, c1 = sd * g.uniform(-2, 2), sd * g.uniform(-1, 1)
    return const(c1) * var(n) + c0, c1 * enp[n] + c0


def refuse(case, m, rng, g):
    """Integrating over something that is not quadratic is refused."""
    from gpcm.exppoly import ExpPoly, const, var

    x, y, t = var("x"), var("y"), var("t")
    lin = [const(0) + x, const(1.0), t * x, -x**3 - x**2, y**2 * -1, x * y, -(x**4), const(2) * x**3]
    for p in lin:
        e = ExpPoly(1.5, p)
        env = dict(t=0.3, y=0.2)
        m.raises("refuse/full", RuntimeError, lambda: e.integrate("x", **env), poly=str(p))
        m.raises("refuse/half", RuntimeError, lambda: e.integrate_half("x", **env), poly=str(p))
        m.raises("refuse/box", RuntimeError, lambda: e.integrate_box(("x", -1.0, 1.0), **env), poly=str(p))
        m.raises("refuse/box/inf", RuntimeError, lambda: e.integrate_box(("x", -np.inf, np.inf), **env), poly=str(p))
    for p in [-(x**2) + y, -(x**2) - y**3, y**2 * -1, -(x**2)]:
        m.raises("refuse/half2", RuntimeError, lambda: ExpPoly(1.0, p).integrate_half("x", "y", t=0.2), poly=str(p))
        m.raises("refuse/box2", RuntimeError, lambda: ExpPoly(1.0, p).integrate_box(("x", -1.0, 1.0), ("y", 0.0, 1.0), t=0.2), poly=str(p))
    # The quadratic coefficient of a symbolic integral may not depend on variables.
    m.raises("refuse/coef", RuntimeError, lambda: ExpPoly(1.0, -(x**2) * t**2).integrate("x", t=1.0))
    m.state("refuse")
