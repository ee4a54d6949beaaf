"""Hessians, modes and Laplace approximations on densities with known derivatives."""
import numpy as np

from ..core import to_numpy

PROPERTY = "C20"
RULE = ("A case is a smooth log-density (correlated Gaussian, heavy-tailed, log-cosh, Poisson and logistic posteriors; dimension 1 to 8; a random "
        "start) with analytic gradient and Hessian.  Hessians are compared at random points, the mode by its gradient and by the value at "
        "the start, the approximation's mean with the mode and its covariance with the inverse negative curvature, with and without a "
        "separate evaluation density; other input ranks must be refused.  Non-trivial: a Hessian or approximation compared.")
ASSUMPTIONS = ["log-concave densities", "the optimiser's default tolerance: scaled gradient below 1e-3"]
BUDGET = {"quick": 60, "thorough": 500}
MANDATORY = 40
MIN_CASES = 40


def cases(rng, tier):
    n = 80 if tier == "quick" else 1500
    for i in range(n):
        yield dict(density=["gauss", "gauss", "poisson", "logistic", "cosh", "student"][i % 6], dim=rng.choice([1, 2, 3, 5, 8]), cond=rng.choice([1.0, 10.0, 300.0]),
                   spread=rng.choice([0.0, 0.3, 2.0]), eval=rng.choice([None, "other", "shifted"]), cubic=rng.random() < 0.5, epsilon=0.0)


def density(name, d, cond, g):
    """(JAX log-density of a column, NumPy gradient, NumPy Hessian)."""
    import jax.numpy as jnp

    Q = np.linalg.qr(g.randn(d, d))[0]
    ev = np.exp(np.linspace(0, np.log(cond), d)) if d > 1 else np.array([cond**0.5])
    P = (Q * ev) @ Q.T
    P = (P + P.T) / 2
    mu = g.randn(d, 1)
    X = g.randn(max(2 * d, 4), d)
    c = g.randn()
    if name == "gauss":
        return (lambda x: c - 0.5 * jnp.sum((x - mu) * (P @ (x - mu))), lambda x: -P @ (x - mu), lambda x: -P, (mu, P))
    if name == "poisson":
        n = g.poisson(2.0, len(X))[:, None].astype(float)
        f = lambda x: c + jnp.sum(n * (X @ x) - jnp.exp(X @ x)) - 0.5 * jnp.sum(x * (P @ x))
        return (f, lambda x: X.T @ (n - np.exp(X @ x)) - P @ x, lambda x: -X.T @ (np.exp(X @ x) * X) - P, None)
    if name == "logistic":
        s = g.choice([-1.0, 1.0], len(X))[:, None]
        sg = lambda v: 1 / (1 + np.exp(-v))
        f = lambda x: c - jnp.sum(jnp.log1p(jnp.exp(-s * (X @ x)))) - 0.5 * jnp.sum((x - mu) * (P @ (x - mu)))
        return (f, lambda x: X.T @ (s * sg(-s * (X @ x))) - P @ (x - mu),
                lambda x: -X.T @ ((sg(X @ x) * sg(-(X @ x))) * X) - P, None)
    if name == "cosh":
        # Non-Gaussian in every direction, plus a quadratic.
        f = lambda x: -jnp.sum(jnp.log(jnp.cosh(x - mu))) - 0.1 * jnp.sum((x - mu) * (P @ (x - mu))) + c * jnp.sum(x) * 0.1
        return (f, lambda x: -np.tanh(x - mu) - 0.2 * P @ (x - mu) + 0.1 * c,
                lambda x: -np.diag(1 / np.cosh(x[:, 0] - mu[:, 0]) ** 2) - 0.2 * P, None)
    # Softened absolute value: heavy tails, log-concave.
    f = lambda x: -jnp.sum(jnp.sqrt(1 + (X @ x - 1) ** 2)) - 0.05 * jnp.sum(x * (P @ x)) + c
    r = lambda x: X @ x - 1
    return (f, lambda x: -X.T @ (r(x) / np.sqrt(1 + r(x) ** 2)) - 0.1 * P @ x,
            lambda x: -X.T @ ((1 + r(x) ** 2) ** -1.5 * X) - 0.1 * P, None)


def run(case, m):
    import jax.numpy as jnp
    from gpcm.util import hessian, laplace_approximation, maximum_a_posteriori

    g = np.random.RandomState(case["seed"] % 2**32)
    d = case["dim"]
    f, grad, hess, exact = density(case["density"], d, case["cond"], g)
    key = {k: case[k] for k in ("density", "dim", "cond", "spread", "eval")}
    m.state(case["density"], d, case["cond"], case["spread"], case["eval"])
    # Hessians, also indefinite and asymmetric-looking ones.
    for _ in range(2):
        x = g.randn(d, 1)
        H = to_numpy(hessian(f, jnp.array(x)))
        m.close("hessian", H, hess(x), rtol=1e-9, atol=1e-11, **key)
        m.check("hessian/symmetric", np.array_equal(H, H.T), **key)
    T = g.randn(d, d, d)
    S = sum(np.transpose(T, p) for p in ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)))
    x = g.randn(d, 1)
    cube = lambda x: jnp.einsum("ijk,i,j,k->", T, x[:, 0], x[:, 0], x[:, 0])
    m.close("hessian/cubic", to_numpy(hessian(cube, jnp.array(x))), np.einsum("ijk,k->ij", S, x[:, 0]), rtol=1e-9, atol=1e-10, **key)
    for bad in (jnp.zeros(d), jnp.zeros((1, d + 1)), jnp.zeros((d, 2)), jnp.zeros((d, 1, 1)), jnp.array(1.0)):
        m.raises("hessian/rejects", ValueError, lambda: hessian(f, bad), shape=bad.shape)

    # Mode.
    if exact is not None:
        mode = exact[0]
    else:
        mode = newton(np.zeros((d, 1)), grad, hess)
    x0 = mode + case["spread"] * g.randn(d, 1)
    x0_copy = x0.copy()
    x = to_numpy(maximum_a_posteriori(f, jnp.array(x0)))
    m.check("map/shape", x.shape == (d, 1), shape=x.shape)
    L = np.linalg.cholesky(-hess(mode))
    step = lambda x: np.linalg.norm(L.T @ (x - mode))  # distance in standard deviations
    m.le("map/no worse than the start", float(f(jnp.array(x0))), float(f(jnp.array(x))), slack=1e-9 * (1 + abs(float(f(jnp.array(x0))))), **key)
    m.le("map/distance", step(x), 0.02, **key)
    m.le("map/gradient", np.max(np.abs(grad(x))), 1e-2 * (1 + np.max(np.abs(hess(x)))), **key)
    m.check("input unmodified", np.array_equal(x0, x0_copy))

    # Laplace approximation.
    kw, fe, he = {}, f, hess
    if case["eval"] == "other":
        fe, _, he, _ = density("gauss", d, 3.0, g)
        kw = dict(f_eval=fe)
    if case["eval"] == "shifted":
        # Same mode-finding density, curvature scaled by a factor.
        fe, he = (lambda x: 4.0 * f(x)), (lambda x: 4.0 * hess(x))
        kw = dict(f_eval=fe)
    q = laplace_approximation(f, jnp.array(x0), **kw)
    mean, var = to_numpy(q.mean), to_numpy(q.var)
    m.check("laplace/shapes", mean.shape == (d, 1) and var.shape == (d, d), mean=mean.shape, var=var.shape)
    m.le("laplace/mean", step(mean), 0.02, **key)
    want = np.linalg.inv(-he(mean))
    m.close("laplace/variance", var, want, rtol=1e-7 * case["cond"], atol=0, **key)
    m.close("laplace/variance at the mode", var, np.linalg.inv(-he(mode)), rtol=0.1, atol=0, **key)
    if exact is not None and case["eval"] is None:
        m.close("laplace/exact variance", var, np.linalg.inv(exact[1]), rtol=1e-7 * case["cond"], atol=0, **key)
        s = np.sqrt(np.max(np.diag(var)))
        m.close("laplace/exact mean", mean, exact[0], rtol=0.02, atol=0, scale=s, **key)


def newton(x, grad, hess):
    """Damped Newton on the analytic derivatives."""
    for _ in range(500):
        s = np.linalg.solve(-hess(x), grad(x))
        n = np.linalg.norm(s)
        x = x + s * min(1.0, 0.5 / n if n > 0 else 1.0)
        if n < 1e-13:
            break
    return x
